import random


def check(c):
    cases = c.gen("MCOutputs", workers=8)
    grids = [(3, 2, 4), (2, 5, 3), (4, 3, 2), (5, 2, 3), (2, 2, 2)]
    out = []
    rnd = random.Random(c.seed)
    for i, x in enumerate(cases):
        x.update(key="%s%d" % (x["op"], i), seed=c.seed * 1000 + i)
        if x["op"] in ("read", "one"):
            if x["op"] == "read":
                if not c.thorough and len(x["formats"]) > 2 and rnd.random() < .72:
                    continue
                x.update(n=rnd.choice(grids), heads=rnd.choice(("hin", "gradh", "q")) if "mf" not in x["formats"] else "hin")
                if rnd.random() < .5:
                    x["formats"] = x["formats"][::-1]
                if rnd.random() < .15:
                    x["formats"] = x["formats"] + x["formats"][:1]
            x.update(d=rnd.choice([(1, 1, .5), (.5, 2, 1), (1.25, .75, .1), (10, .1, 3)]), o=rnd.choice([(0, 0, 0), (100, -50, 7.5), (-3, 8, -20)]),
                     name=rnd.choice(["r", "run.v1", "a_b-c", "x2"]), rel=rnd.random() < .1, hv=rnd.randrange(5))
        elif x["op"] == "run":
            for s in range(5 if c.thorough else 1):
                out.append(dict(x, key="%s-%d" % (x["key"], s), seed=x["seed"] + 77 * s))
            continue
        out.append(x)
    recs = c.drive("c18", out)
    c.traces = len(recs)
    c.cover["outputs written"] = sum(len(r.get("files", [])) for r in recs)
    c.assumptions = ["flow-model outputs need the flowtrans settings and hydraulic parameters", "flow-model files are read back with flopy",
                     "rows of the flow models are numbered along the grid axis, as the code does"]
    c.judge("TraceOutputs", recs)
