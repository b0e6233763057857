import random


def check(c):
    c.mc("MCScan", "MCScanBig.cfg" if c.thorough else "MCScan.cfg", timeout=3000)
    worlds = c.gen("Worlds", workers=8)
    cases = []
    rnd = random.Random(c.seed)
    for n, x in enumerate(worlds):
        if not c.thorough and rnd.random() < .5:
            continue
        x.update(key="w%d" % n, seed=c.seed * 1000 + n, n=rnd.choice([(7, 6, 10), (5, 8, 12), (9, 4, 8)]),
                 d=rnd.choice([(1, 1, .5), (1.5, 1, .375), (1, 2, .625)]), o=rnd.choice([(0, 0, 0), (-3, 12, -2)]),
                 angle=rnd.choice([0, 30, -75, 200]), tol=1)
        cases.append(x)
    # exact boundaries: sheets only, all elevations binary numbers, cells on the boundaries
    for n in range(12):
        cases.append({"key": "x%d" % n, "seed": c.seed * 99 + n, "n": (3, 2, 16), "d": (1, 1, .25), "o": (0, 0, 0), "angle": 0,
                      "tol": 0, "kinds": [["sheet", "lenses", "trough"], ["trough", "sheet", "lenses"]][n % 2],
                      "layout": ["two-flat", "three", "one"][n % 3], "rough": "none", "periodic": False, "thick": "thick",
                      "set": {"strata_contact_models": [[["flat", 1.625]], [["flat", 0.875], ["flat", 2.125]], []][n % 3]}})
    # tops of troughs and channels exactly at cell centres
    for n in range(16):
        z = [3.625, 2.375, 1.625, 1.125, .625]
        te = [[.5 + (k + n) % 3, .5 + k % 4, q] for k, q in enumerate(z)]
        cases.append({"key": "y%d" % n, "seed": c.seed * 77 + n, "n": (4, 4, 16), "d": (1, 1, .25), "o": (0, 0, [0, -2][n // 4 % 2]), "angle": 0,
                      "tol": 0, "kinds": [["trough", "channel", "trough"], ["trough", "trough", "channel"]][n % 2],
                      "layout": ["one", "two-flat"][n // 2 % 2], "rough": "none", "periodic": n % 3 == 0, "thick": "thick",
                      "set": {"ae_z_mean": [[1000] * 3] * (1 + n // 2 % 2)},
                      "elems": {"trough": {"te_xyz": [[a, b, q + [0, -2][n // 4 % 2]] for a, b, q in te[::[1, -1][n % 2]]]},
                                "channel": {"agg": .625, "eps_factor": 0}}})
    recs = c.drive("c11", cases)
    c.traces = len(recs)
    c.cover["worlds"] = len(cases)
    c.cover["cells"] = sum(len(r["cells"]) * len(r["cells"][0]) * len(r["cells"][0][0]) for r in recs if r["out"] == "ok")
    c.cover["objects"] = sum(len(a["objs"]) for r in recs if r["out"] == "ok" for s in r["strata"] for a in s["aes"])
    c.assumptions = ["cells closer to an object's surface than the precision of the numbers (about 1/1000 of its size) may go either way",
                     "an object whose top is below its element's lower boundary in a column may be left out in that column"]
    c.judge("TraceWorld", recs)
