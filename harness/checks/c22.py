def check(c):
    cases = c.gen("MCRandomField", workers=8)
    out = []
    for n, x in enumerate(cases):
        x.update(key="%s%d" % (x["op"], n), seed=c.seed * 1000 + n, o=[(0, 0, 0), (-20, 35, 4)][n // 3 % 2],
                 d=[(1, 1, 1), (1.5, .5, .75), (.5, 2, .25)][n // 2 % 3], fields=(400 if c.thorough else 120) // (1 if x.get("two", True) else 2))
        out.append(x)
        if x["op"] in ("support", "cov") and c.thorough:
            out += [dict(x, key=x["key"] + "-%d" % s, seed=x["seed"] + 100001 * s, d=(.75, 1.25, .5), o=(7, -7.5, 100)) for s in range(1, 4)]
    recs = c.drive("c22", out)
    c.traces = len(recs)
    c.cover["fields and models"] = len(out)
    c.assumptions = ["variance and correlation are judged as averages over many fields, on grids several correlation lengths wide (6 sigma)",
                     "fields over a mask are compared with that over its box from the same random state"]
    c.judge("TraceRandomField", recs)
