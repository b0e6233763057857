import os

import ini
import models
import numpy as np
import world
from drvlib import err_class, fx, i32, quiet, scratch_dir

F = world.FACIES
S = 10000
KL = [5000 + 1700 * i for i in range(8)]
NL = [1000 + 450 * i for i in range(8)]
AL = [10000, 25000, 13000, 40000, 15000, 60000, 31000, 8000]


def setup():
    world.load()


def run(c, scratch):
    r = {"key": c["key"], "op": c["op"]}
    try:
        {"cells": cells, "keys": keys, "field": field}[c["op"]](c, r, scratch)
        r["out"] = "ok"
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
    return r


def hyd(**kw):
    return ini.hydraulics(F, k_h=[v / S for v in KL], n=[v / S for v in NL], k_ratio=[v / S for v in AL], **kw)


G = {"k": {"z": [700, 1350], "x": [1500, 800]}, "n": {"z": [1200, 600], "x": [500, 1400]}}
E = [{"k": {"z": [600, 1450], "x": [1250, 900]}, "n": {"z": [1500, 800], "x": [650, 1100]}},
     {"k": {"z": [1300, 550], "x": [750, 1150]}, "n": {"z": [850, 1050], "x": [1350, 950]}},
     {"k": {"z": [500, 500], "x": [1400, 1400]}, "n": {"z": [1100, 500], "x": [1450, 600]}}]


def cells(c, r, scratch):
    T = c["trends"]
    el = [{q: {a: (E[i][q][a] if "e" + q + a in T else []) for a in "zx"} for q in "kn"} for i in range(3)]
    gl = {q: {a: (G[q][a] if "g" + q + a in T else []) for a in "zx"} for q in "kn"}
    opts = lambda t: {"%s_%strend" % (q, a): [v / 1000 for v in t[q][a]] for q in "kn" for a in "zx" if t[q][a]}
    m = {"heterogeneity": not c["level"].startswith("off")}
    m["heterogeneity_level"] = "facies" if "facies" in c["level"] else "internal"
    w = dict(c, rough="some" if c["layout"] == "two-rough" else "none", thick="thin", periodic=False)
    conf = world.conf_of(w, tuple(c["n"]), tuple(c["d"]), tuple(c["o"]), 20, hyd=hyd(**opts(gl)), model=m, extra=lambda i, k: opts(el[i]))
    # two of the elements have several facies
    for i in (0, 2):
        conf["el%d" % i]["facies"] = [F[i], F[i + 1]] if i else [F[0], F[3], F[5]]
        if c["kinds"][i] != "channel":
            conf["el%d" % i].update(structure="dip", dipset_dist=.4, dip=[20, 20], azimuth=[30, 30])
    if c["seed"] % 3 == 0:         # the first facies is a background
        conf["strata"]["bg_facies"] = [F[0] if i % 2 == 0 else F[6] for i in range(len(conf["strata"]["bg_facies"]))]
    if c["kinds"][2] in ("trough", "channel"):
        conf["el2"].update(lag_height=.2, lag_facies=F[7])
    w = world.build(conf, scratch, c["seed"])
    D, n = w.data, c["n"]
    types = {a.num: int(a.type_name[2:]) for s in w.model.strata for a in s.aes}
    r.update(level=c["level"].split("-")[0], nx=n[0], nz=n[2], kl=KL, nl=NL, al=AL, els=el, glob=gl,
             cells=[{"i": x, "k": z, "f": i32(D["facies"][x, y, z]), "e": types.get(int(D["ae"][x, y, z]), -1),
                     "kv": fx(D["k_iso"][x, y, z], S), "nv": fx(D["poros"][x, y, z], S), "av": fx(D["anirat"][x, y, z], S)}
                    for x in range(n[0]) for y in range(n[1]) for z in range(n[2])])


def keys(c, r, scratch):
    r.update(hyd=c["hyd"], ani=c["ani"])
    conf = models.mix(("sheets", "channels", "troughs")[c["seed"] % 3])
    conf["model"].update(hydraulics=c["hyd"], anisotropy=c["ani"], heterogeneity=c["het"], heterogeneity_level=c["level"])
    with scratch_dir(scratch) as d:
        (d / "x.ini").write_text(ini.text(conf))
        np.random.seed(c["seed"])
        cwd = os.getcwd()
        os.chdir(str(d))
        try:
            with quiet():
                world.hyvr.run(str(d / "x.ini"), None)
        finally:
            os.chdir(cwd)
        f = [p for p in d.rglob("*.npz")]
        with np.load(str(f[0])) as z:
            # a parameter that is None or has no cells is not there
            r["keys"] = sorted(k for k in z.files if np.ndim(z[k]) >= 3)


def field(c, r, scratch):
    n, d = (14, 12, 60), (1, .5, .25)
    short, long_ = (.2, .1, .05), (15, 8, 4)
    axk, axn, yc, nc = [], [], [], []
    for f in range(8):
        a = 0 if c["cor"] == "white" else ("xyz".index(c["cor"]) + f) % 3 + 1
        b = 0 if c["cor"] == "white" else a % 3 + 1
        axk.append(a)
        axn.append(b)
        yc.append([long_[j] if a == j + 1 else short[j] for j in range(3)])
        nc.append([long_[j] if b == j + 1 else short[j] for j in range(3)])
    sigk = [0.5, 1.2, 0.2, 0, 0.8, 0.3, 2.0, 0.1]
    sign = [0.01, 0.04, 0, 0.02, 0.03, 0.09, 0.005, 0.03]
    lens = ini.element("sheet", lens_thickness=1.25, facies=[F[0], F[1], F[2], F[3]])
    bg = ini.element("channel", agg=500, facies=[F[7]], **({"bg_facies": F[4], "bg_azim": 0, "bg_dip": 0} if c["seed"] % 2 else {}))
    kinds = {"lenses": [("p", lens)], "background": [("q", bg)], "mixed": [("p", lens), ("q", bg)]}[c["kind"]]
    names = [k for k, _ in kinds]
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model(n, d, (5, -20, 3)),
            "strata": models.strata(("lo", "hi"), [["flat", 3 + 7.5]], names, [names, names], zmean=[[2.5] * len(names)] * 2, bgf=[F[5], F[6]]),
            "hydraulics": hyd(sig_y=sigk, sig_n=sign, ycorlengths=yc, ncorlengths=nc)}
    conf.update(kinds)
    w = world.build(conf, scratch, c["seed"])
    D = w.data
    units, fields = [], {}
    ids = [("ha", int(v)) for v in np.unique(D["ha"]) if v >= 0]
    ids += [("ae", int(v)) for v in np.unique(D["ae"][D["ha"] == -1])]
    for kind, v in ids:
        m = (D[kind] == v) & (D["ha"] == -1 if kind == "ae" else True)
        ii = np.where(m)
        f = int(D["facies"][m][0])
        box = tuple(slice(q.min(), q.max() + 1) for q in ii)
        if not (m[box].all() and (D["facies"][m] == f).all()):
            raise RuntimeError("unit is not a box of one facies")
        k, p = D["k_iso"][box], D["poros"][box]
        y = np.log(np.where(k > 0, k, 1) / (KL[f] / S))
        q = p - NL[f] / S
        sd = 0.1                       # porosity deviations are recorded in tenths
        u = q / sd
        dif = lambda a: [fx(np.mean(np.diff(a, axis=b) ** 2) if a.shape[b] > 1 else 0) for b in range(3)]
        units.append({"f": f, "n": int(m.sum()), "kmean": fx(y.mean()), "kvar": fx(y.var()), "nmean": fx(u.mean()), "nvar": fx(u.var()),
                      "kd": dif(y), "nd": dif(u), "dims": list(m[box].shape), "kpos": bool((k > 0).all())})
        for t, a in (("k", y / np.sqrt(sigk[f]) if sigk[f] else None), ("n", q / np.sqrt(sign[f]) if sign[f] else None)):
            if a is not None:
                fields["%s %s %d" % (t, kind, v)] = a
    same = []
    ks = sorted(fields)
    for i, a in enumerate(ks):
        for b in ks[:i]:
            if fields[a].shape == fields[b].shape and np.allclose(fields[a], fields[b], atol=1e-3):
                same.append([a, b])
    r.update(units=units, same=same, cor=c["cor"], sigk=[fx(v) for v in sigk], sign=[fx(v / .01) for v in sign], axk=axk, axn=axn)
