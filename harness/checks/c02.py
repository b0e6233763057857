def check(c):
    cases = c.gen("MCSections")
    if not c.thorough:
        # every case of the exhaustive model whose text is read, half of those differing
        # only in names that must not matter
        cases = [x for n, x in enumerate(cases) if n % 2 == c.seed % 2 or "z" not in x["sec"]]
    for n, x in enumerate(cases):
        x["n"] = n + c.seed
        x["key"] = str(n)
    recs = c.drive("c02", cases)
    c.traces = len(recs)
    c.cover["outcomes"] = {o: sum(r["out"] == o for r in recs) for o in sorted({r["out"] for r in recs})}
    c.assumptions = ["texts from a table of %d representatives per type" % len({x["sec"].get("opt") for x in cases})]
    c.judge("TraceSections", recs)
