def check(c):
    cases = c.gen("MCCrossSection", "MCCrossSectionBig.cfg" if c.thorough else None, workers=8)
    for n, x in enumerate(cases):
        x["key"] = "p%d" % n
    recs = c.drive("c24", cases)
    c.traces = len(recs)
    c.cover["plots"] = sum(len(r.get("panels", [])) for r in recs)
    c.assumptions = ["positions on the outer faces of the domain may be shown or refused", "base of the logarithm 10 or e"]
    c.judge("TraceCrossSection", recs)
