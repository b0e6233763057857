import ini
import models
import numpy as np
import world
from drvlib import err_class, fx, i32

S = 10000
F = world.FACIES[:7]


def setup():
    world.load()


def run(c, scratch):
    r = {"key": c["key"], "op": c["op"]}
    try:
        return (sheet if c["op"] == "sheet" else bg)(c, r, scratch)
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
        return r


def sheet(c, r, scratch):
    n, d, o = c["n"], c["d"], c["o"]
    az, dp = c["ang"]
    wide = c["structure"] == "massive" and c["wide"]
    azr, dpr = ([az, az + 30], [dp, dp + 12]) if wide else ([az, az], [dp, dp])
    fac = F if c["structure"] == "dip" else [F[1], F[3], F[6]]
    kw = dict(structure=c["structure"], lens_thickness=c["lens"] / S if c["lens"] > 0 else -1, facies=fac, azimuth=azr, dip=dpr,
              contact_model=["random", 0.03, 2, 2] if c["rough"] else ["flat"])
    if c["structure"] == "dip":
        kw.update(dipset_dist=c["dist"] / 1000, altfacies=[[fac[(i + 1) % len(fac)]] for i in range(len(fac))])
    if c["trend"] != [1000, 1000] or c["wide"]:
        kw.update(size_ztrend=[t / 1000 for t in c["trend"]])
    contacts = c["contacts"]
    ns = len(contacts) + 1
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model(n, d, o, hydraulics=False),
            "strata": models.strata(["s%d" % i for i in range(ns)], contacts, ("e",), [["e"]] * ns, zmean=[[c["zmean"]]] * ns),
            "e": ini.element("sheet", **kw), "hydraulics": ini.hydraulics(F)}
    w = world.build(conf, scratch, c["seed"])
    g = w.grid
    mid = [o[j] + n[j] * d[j] / 2 for j in range(3)]
    D = w.data
    cells = []
    for x in range(n[0]):
        for y in range(n[1]):
            for z in range(n[2]):
                cells.append({"p": [fx(g.x[x] - mid[0]), fx(g.y[y] - mid[1]), fx(g.z[z] - mid[2])], "z": fx(g.z[z], S), "x": x + 1, "y": y + 1,
                              "ae": i32(D["ae"][x, y, z]), "ha": i32(D["ha"][x, y, z]), "f": i32(D["facies"][x, y, z]),
                              "az": fx(D["azim"][x, y, z]), "dp": fx(D["dip"][x, y, z])})
    aes = [a for s in w.model.strata for a in s.aes]
    r.update(out="ok", lens=c["lens"], f0=c["trend"][0], f1=c["trend"][1], structure=c["structure"], azim=azr, dip=dpr, dist=c["dist"],
             facies=[F.index(f) for f in fac], z0=fx(o[2], S), zt=fx(o[2] + n[2] * d[2], S), tol=c["tol"],
             aes=[{"num": i32(a.num), "first": i32(a.object_list[0].num_ha), "top": world.surf(a.top_surface.surface, S),
                   "bot": world.surf(a.bottom_surface.surface, S)} for a in aes], cells=cells)
    return r


def bg(c, r, scratch):
    st, own = [5, 21, 7], [[0, 0, 0], [0, 0, 0]] if c["zero"] else [[2, 33, 9], [4, -12, 0]]
    recs = []
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model((3, 3, 6), hydraulics=False),
            "strata": models.strata(("a", "b"), [["flat", 3]], ("e", "g"), [["e"], ["g"]], bgf=[F[5], F[6]], bga=[st[1], 88], bgd=[st[2], 1]),
            "hydraulics": ini.hydraulics(F)}
    sts = [st, [6, 88, 1]]
    wants = []
    for i, nm in enumerate(("e", "g")):
        o = c["own"] if i == 0 else c["second"]
        kw = {}
        if o["f"]:
            kw["bg_facies"] = F[own[i][0]]
        if o["a"]:
            kw["bg_azim"] = own[i][1]
        if o["d"]:
            kw["bg_dip"] = own[i][2]
        conf[nm] = ini.element(("trough", "channel")[i], facies=[F[0]], **kw)
        conf[nm].update({"trough_density": 0} if i == 0 else {"channel_no": 0})
        wants.append([own[i][0] if o["f"] else sts[i][0], own[i][1] * 1000 if o["a"] else sts[i][1] * 1000,
                      own[i][2] * 1000 if o["d"] else sts[i][2] * 1000])
    w = world.build(conf, scratch, 1)
    D = w.data
    for i in range(2):
        zs = range(0, 3) if i == 0 else range(3, 6)
        recs.append(dict(r, key="%s.%d" % (r["key"], i), out="ok", want=wants[i],
                         cells=[[i32(D["facies"][x, y, z]), fx(D["azim"][x, y, z]), fx(D["dip"][x, y, z])]
                                for x in range(3) for y in range(3) for z in zs]))
    return recs
