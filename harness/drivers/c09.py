import ini
import models
import numpy as np
import world
from drvlib import err_class, fx, i32

S = 10000


def setup():
    world.load()


def grid2(a):
    return [[fx(v, S) for v in row] for row in np.asarray(a)]


def settings(c, scratch):
    """Strata of 400 m each with their own lists of element types, probabilities, thicknesses (in m) and avulsion."""
    ls = c["listed"]
    n = len(ls)
    conf = {"run": {"runname": "r", "outputs": ["npz"]},
            "model": models.model((2, 1, n), (1, 1, 400), (0, 0, c["z0"]), hydraulics=False),
            "strata": models.strata(["st%d" % j for j in range(n)], [["flat", c["z0"] + 400 * (j + 1)] for j in range(n - 1)],
                                    ["e1", "e2", "e3", "e4"], [["e%d" % t for t in x["types"]] for x in ls],
                                    [[p / 1000 for p in x["probs"]] for x in ls], [[m / 10 for m in x["mus"]] for x in ls],
                                    [[x["avulp"] / 1000] for x in ls], [[a / 10 for a in x["avul"]] for x in ls]),
            "hydraulics": ini.hydraulics(models.FAC)}
    for t in range(1, 5):
        conf["e%d" % t] = ini.element("sheet")
    r = {"key": c["key"], "op": "settings", "listed": ls, "n": n}
    try:
        w = world.build(conf, scratch, c["seed"], assign=False)
        r["strata"] = [{"name": s.name, "types": [int(a.type_name[1:]) for a in s.aes],
                        "levels": [fx(s.top_surface.zmax, 100)] + [fx(a.bottom_surface.surface[0, 0], 100) for a in s.aes]}
                       for s in w.model.strata]
        r["out"] = "ok"
    except Exception as e:
        r.update(out=err_class(e), msg=str(e)[:300])
    return r


def run(c, scratch):
    if c["op"] == "settings":
        return settings(c, scratch)
    m, n = c["m"], c["m"]["n"]
    F = models.FAC
    names = ["st%d" % j for j in range(n)]
    ae = ["el%d" % j for j in range(n)]
    bgs = [[(2 * j + 1) % 5, 10 + j, 3 + j] for j in range(n)]
    own = [[(j + 2) % 5, 40 + j, 20 + j] for j in range(n)]
    contacts = [["flat", q["z"] / S] if q["kind"] == "flat" else ["random", q["z"] / S, c["var"], c["corl"][0], c["corl"][1]]
                for q in m["contacts"]]
    conf = {"run": {"runname": "r", "outputs": ["npz"]},
            "model": models.model(c["n"], (1, 1, (m["top"] - m["z0"]) / S / c["n"][2]), (c["o"], 0, m["z0"] / S), hydraulics=False),
            "strata": models.strata(names, contacts, ae, [[e] for e in ae], bgf=[F[b[0]] for b in bgs],
                                    bga=[b[1] for b in bgs], bgd=[b[2] for b in bgs]),
            "hydraulics": ini.hydraulics(F)}
    for j in range(n):
        f, a, d = own[j]
        if c["kinds"][j] == "sheet":
            conf[ae[j]] = ini.element("sheet", facies=[F[f]], azimuth=[a, a], dip=[d, d])
        elif c["kinds"][j] == "own":
            conf[ae[j]] = ini.element("trough", trough_density=0, bg_facies=F[f], bg_azim=a, bg_dip=d, facies=["A"])
        else:
            conf[ae[j]] = ini.element("trough", trough_density=0, facies=["A"])
    sd = fx(c["var"] ** .5, S)
    r = {"key": c["key"], "op": "boundaries", "m": dict(m, contacts=[dict(q, sd=sd if q["kind"] == "rough" else 0) for q in m["contacts"]]),
         "kinds": c["kinds"], "names": names, "ae": ae, "bgs": bgs, "own": own, "tol": c["tol"]}
    try:
        w = world.build(conf, scratch, c["seed"])
        r["zs"] = [fx(z, S) for z in w.grid.z]
        r["strata"] = [{"name": s.name, "top": grid2(s.top_surface.surface), "bot": grid2(s.bottom_surface.surface),
                        "bg": [i32(s.bg_facies), i32(s.bg_azim), i32(s.bg_dip)],
                        "types": [a.type_name for a in s.aes]} for s in w.model.strata]
        D = [w.data[k] for k in ("strata", "facies", "azim", "dip")]
        r["cells"] = [[[[i32(a[x, y, z]) for a in D] for z in range(len(r["zs"]))]
                       for y in range(D[0].shape[1])] for x in range(D[0].shape[0])]
        r["out"] = "ok"
    except Exception as e:
        r.update(out=err_class(e), msg=str(e)[:300])
    return r
