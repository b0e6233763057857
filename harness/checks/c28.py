def check(c):
    out = []
    for i, x in enumerate(sorted(c.gen("MCMeander", "MCMeanderBig.cfg" if c.thorough else None, workers=8), key=str)):
        for s in range(6 if c.thorough else 1):
            x = dict(x, key="%d-%d-%d-%d-%d.%d" % (x["row"], x["eps"], x["ds"], x["angle"], i, s), seed=c.seed * 1000 + i + 211 * s, steps=200, number=8, loud=0 if x["ds"] < 100 else (300, 80)[s % 2])
            out.append(x)
    recs = c.drive("c28", out)
    c.traces = len(recs)
    c.cover["centrelines"] = sum(len(r.get("channels", [])) for r in recs)
    c.cover["steps"] = sum(len(o["th"]) for r in recs for o in r.get("channels", []))
    c.assumptions = ["small deviations from a straight line, so that the steps of the model can be recognized", "6 sigma"]
    c.judge("TraceMeander", recs)
