import world
from drvlib import err_class

FX = 1000


def setup():
    world.load()


def run(c, scratch):
    r = {"key": c["key"], "tol": c["tol"]}
    try:
        conf = world.conf_of(c, tuple(c["n"]), tuple(c["d"]), tuple(c["o"]), c["angle"], model={"hydraulics": False})
        form = c["seed"] % 7
        for i, k in enumerate(c["kinds"]):
            el = conf["el%d" % i]
            if k == "trough":
                el.update(structure=("massive", "dip", "bulb", "bulb_sets", "random")[(form + i) % 5], dip=[10, 30], dipset_dist=.45, bulbset_dist=.3)
            else:
                el.update(structure=("massive", "dip")[(form + i) % 2], dip=[10, 30], dipset_dist=.45)
            if k in ("trough", "channel") and (c["seed"] // 7 + i) % 2 == 0:
                el.update(lag_height=.35, lag_facies=world.FACIES[5])
        for k, v in (c.get("set") or {}).items():
            conf["strata"][k] = v
        for i, k in enumerate(c["kinds"]):
            conf["el%d" % i].update((c.get("elems") or {}).get(k, {}))
        w = world.build(conf, scratch, c["seed"])
        g = w.grid
        r.update(axes=world.axes(g), strata=world.record(w),
                 dom={"lx": round(c["n"][0] * c["d"][0] * FX), "ly": round(c["n"][1] * c["d"][1] * FX), "periodic": c["periodic"]},
                 types={"el%d" % i: {"id": i, "obj": i, "bg": 4 if i == 1 else -1, "sheet": k in ("sheet", "lenses")}
                        for i, k in enumerate(c["kinds"])},
                 bgs={"s%d" % i: 6 + i % 2 for i in range(4)},
                 cells=world.cells(w, ("strata", "ae", "ha", "hat", "facies")), out="ok")
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
    return r
