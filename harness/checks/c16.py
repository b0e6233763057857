import random


def check(c):
    cases = c.gen("MCHydraulics", "MCHydraulicsBig.cfg" if c.thorough else "MCHydraulics.cfg", workers=8)
    out = []
    rnd = random.Random(c.seed)
    for n, x in enumerate(cases):
        x.update(key="%s%d" % (x["op"], n), seed=c.seed * 1000 + n)
        if x["op"] == "cells":
            if rnd.random() > (.35 if c.thorough else .2 if x["level"] == "internal" else .06):
                continue
            x.update(n=rnd.choice([(4, 3, 8), (6, 2, 6), (1, 4, 9), (5, 3, 1)]), o=rnd.choice([(0, 0, 0), (30, -7, 12), (-5, 4, -9)]),
                     d=rnd.choice([(1, 1, .5), (1.5, 1, .625), (2, .5, 1)]))
        out.append(x)
        if x["op"] == "field":
            out += [dict(x, key=x["key"] + "-%d" % s, seed=x["seed"] + 100001 * s) for s in range(1, 9 if c.thorough else 3)]
    recs = c.drive("c16", out)
    c.traces = len(recs)
    c.cover["models"] = len(out)
    c.cover["cells"] = sum(len(r.get("cells", [])) for r in recs)
    c.cover["units of random fields"] = sum(len(r.get("units", [])) for r in recs)
    c.assumptions = ["trend factors between 0.5 and 1.5, values compared to 1/4000", "variances of fields with short correlation within 20 per cent (over 6 sigma)"]
    c.judge("TraceHydraulics", recs)
