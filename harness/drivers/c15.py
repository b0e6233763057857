import random

import ini
import models
import numpy as np
import world
from drvlib import err_class, i32

hu = None


def setup():
    global hu
    world.load()
    import hyvr.utils as hu_
    hu = hu_


def run(c, scratch):
    r = {"key": c["key"], "facies": c["facies"], "alt": c["alt"], "want": "", "n": 0}
    try:
        r["seqs"] = sorted({tuple(s) for s in (walk(c, r) if c["op"] == "walk" else model(c, r, scratch))})
        r["out"] = "ok"
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
    return r


def walk(c, r):
    r.update(want=c["want"], n=c["n"])
    np.random.seed(c["seed"])
    random.seed(c["seed"])
    p = {"facies": list(c["facies"]), "altfacies": [list(a) for a in c["alt"]] or None}
    return [[i32(v) for v in hu.get_alternating_facies(c["n"], p)] for _ in range(c["times"])]


def model(c, r, scratch):
    """Models in which successive cells of a column (or row) are successive layers."""
    F = world.FACIES
    kw = dict(facies=[F[f] for f in c["facies"]])
    if c["alt"]:
        kw["altfacies"] = [[F[f] for f in a] for a in c["alt"]]
    k = c["op"]
    out = []
    for rep in range(8 if k == "sheet" else 3):
        n, d = (1, 1, 160), (1, 1, .25)
        if k == "sheet":
            e = ini.element("sheet", structure="dip", dipset_dist=.25, lens_thickness=1, dip=[0, 0], azimuth=[20, 20], **kw)
        elif k in ("trough", "bulb"):
            n = (3, 3, 40)
            e = ini.element("trough", structure="dip" if k == "trough" else "bulb_sets", dipset_dist=.25, bulbset_dist=.25,
                            te_xyz=[[1.5, 1.5, 9.875], [1.5, 1.5, 4.875]], length=40, width=40, depth=4.6, dip=[0, 0], **kw)
        elif k == "channel":          # layers along the channel
            n, d = (40, 1, 3), (1, 1, 1)
            e = ini.element("channel", structure="dip", dipset_dist=1, dip=[90, 90], ds=1, width=30, depth=20, agg=.3, buffer=.12, flow_angle=0, **kw)
        else:                         # layers of a channel from top to bottom
            n = (3, 1, 40)
            e = ini.element("channel", structure="dip", dipset_dist=.25, dip=[0, 0], ds=1, width=400, depth=8, agg=.2, buffer=1.22, **kw)
        conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model(n, d, hydraulics=False),
                "strata": models.strata(("s",), [], ("e",), [["e"]], bgf=["A"]), "e": e, "hydraulics": ini.hydraulics(F)}
        w = world.build(conf, scratch, c["seed"] + 7919 * rep)
        D = w.data
        rows = []
        if k == "channel":
            rows = [(D["ha"][:, 0, z], D["facies"][:, 0, z]) for z in range(n[2])]
        else:
            m = n[0] // 2
            rows = [(D["ha"][m, n[1] // 2, :], D["facies"][m, n[1] // 2, :])]
        for ha, fa in rows:
            if k == "bulb":           # shells are counted outwards
                ha, fa = ha[::-1], fa[::-1]
            for h in sorted(set(int(v) for v in ha if v >= 0)):
                s = [i32(f) for a, f in zip(ha, fa) if a == h]
                if s:
                    out.append(s)
    if k == "sheet" and not c["alt"]:
        r["want"] = "all"
    return out
