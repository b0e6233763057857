def check(c):
    cases = c.gen("MCOptions", "MCOptionsBig.cfg" if c.thorough else "MCOptions.cfg")
    for n, x in enumerate(cases):
        x["n"] = n + c.seed
        x["key"] = str(n)
    recs = c.drive("c01", cases)
    c.traces = len(recs)
    c.cover["outcomes"] = {o: sum(r["out"] == o for r in recs) for o in sorted({r["out"] for r in recs})}
    c.cover["exhaustive"] = True
    c.assumptions = ["list lengths up to 3, depth up to 3; shapes with up to 3 dimensions"]
    c.judge("TraceOptions", recs)
