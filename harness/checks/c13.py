import random


def check(c):
    c.mc("MCLayers")
    cases = c.gen("MCTrough", workers=8)
    rnd = random.Random(c.seed)
    out = []
    step = 17 if c.thorough else 115
    for n, x in enumerate(cases):
        x.update(key="t%d" % n, seed=c.seed * 1000 + n)
        if rnd.random() * step > 1:
            continue
        i = rnd.randrange(18)
        x.update(n=[(9, 8, 10), (7, 11, 8), (12, 5, 9)][i % 3], o=[(0, 0, 0), (-20, 35, 4)][i // 3 % 2],
                 d=[(1, 1, .25), (1.5, .5, .375), (.5, 2, .25)][i // 2 % 3])
        out.append(x)
    # many troughs of random structure, one per patch of the grid
    for k in range(2 if not c.thorough else 8):
        out.append({"key": "r%d" % k, "seed": c.seed * 31 + k, "n": (40, 32, 5), "o": (0, 0, 0), "d": (1, 1, .25), "structure": "random", "alpha": 0,
                    "ang": [20, 35], "wide": False, "place": "patches", "dims": [4600, 3600, 1200], "trend": [1000, 1000], "lag": 0,
                    "periodic": False, "many": True})
    recs = c.drive("c13", out)
    c.traces = len(recs)
    c.cover["models"] = len(out)
    c.cover["cells"] = sum(len(r.get("cells", [])) for r in recs)
    c.cover["cells in troughs"] = sum(1 for r in recs for x in r.get("cells", []) if x["ha"] >= 0)
    c.assumptions = ["positions, sizes and whole-degree angles are configured; cells within rounding distance of a boundary are not judged",
                     "layers are judged up to their free shift, with a cycle of seven facies", "maximum dip not negative"]
    c.judge("TraceTrough", recs)
