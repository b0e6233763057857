import ini
import models
import numpy as np
import world
from drvlib import err_class, fx, i32

S = 10000
NAMES = ("p", "q", "r")


def setup():
    world.load()


def grid2(a):
    return [[fx(v, S) for v in row] for row in np.asarray(a)]


def elem(kind, rough, **kw):
    cm = ["random", *kw.get("cm", (0.01, 2, 3))] if rough else ["flat"]
    if kind == 0:
        return ini.element("sheet", contact_model=cm, lens_thickness=kw.get("lens", -1), facies=["B"])
    if kind == 1:
        return ini.element("trough", contact_model=cm, agg=0.4, depth=0.5, trough_density=0.15, facies=["C"])
    return ini.element("channel", contact_model=cm, agg=0.4, depth=0.5, channel_no=2, ds=2, facies=["D"])


def num(v):
    return i32(v) if v is not None else -7


def run(c, scratch):
    mus = c["mus"]
    probs = [p / 1000 for p in c["probs"]]
    ins = list(NAMES)
    av = c["avul"]
    z0, lz, nz = c["z0"], c["lz"], 6
    contacts = {"one": [], "flat": [["flat", z0 + lz * .4]], "rough": [["random", z0 + lz * .5, c.get("rvar", .1), 2, 2] if c.get("rvar", .1) < 1 else ["random", z0 + lz * .5, 1, .7, .7]],
                "pinched": [["flat", z0 + lz * .2], ["random", z0 + lz * .6, 0.5, 2, 2], ["flat", z0 + lz * .6]],
                "tall": []}[c["layout"]]
    n = len(contacts) + 1
    conf = {"run": {"runname": "r", "outputs": ["npz"]},
            "model": models.model(c["n"] + [nz], (1, 1, lz / nz), (0, 0, z0), hydraulics=False),
            "strata": models.strata(["s%d" % i for i in range(n)], contacts, NAMES, [ins] * n, [probs] * n,
                                    [[m / S for m in mus]] * n, [[av["p"] / 1000]] * n, [[av["lo"] / S, av["hi"] / S]] * n),
            "hydraulics": ini.hydraulics(models.FAC)}
    for i, nm in enumerate(NAMES):
        conf[nm] = elem((i + c["turn"]) % 3 if c["layout"] != "tall" else 0, i + 1 in c["rough"], lens=(-1, 0.11)[c["turn"] % 2],
                        cm=(0.01, 2, 3) if c.get("rvar", .1) < 1 else (.2, .7, .7))
    r = {"key": c["key"], "op": c["op"], "probs": c["probs"], "mus": mus, "rough": c["rough"], "avul": av}
    try:
        w = world.build(conf, scratch, c["seed"], assign=c["op"] != "stat")
        st = w.model.strata
        if c["op"] == "stat":
            aes = st[0].aes
            r["levels"] = [fx(st[0].top_surface.surface[0, 0], S)] + [fx(a.bottom_surface.surface[0, 0], S) for a in aes]
            r["types"] = [NAMES.index(a.type_name) + 1 for a in aes]
        else:
            r["strata"] = [{"top": grid2(s.top_surface.surface), "bot": grid2(s.bottom_surface.surface),
                            "aes": [{"type": NAMES.index(a.type_name) + 1, "num": num(a.num), "top": grid2(a.top_surface.surface),
                                     "bot": grid2(a.bottom_surface.surface), "objs": [num(o.num_ha) for o in a.object_list]}
                                    for a in s.aes]} for s in st]
            r["bounds"] = ([{"rough": q[0] == "random", "z": fx(q[1], S)} for q in contacts[::-1]]
                           + [{"rough": False, "z": fx(z0, S)}])
            r["pairs"] = sorted({(i32(a), i32(h)) for a, h in zip(w.data["ae"].flat, w.data["ha"].flat)})
        r["out"] = "ok"
    except Exception as e:
        r.update(out=err_class(e), msg=str(e)[:300])
    return r
