def check(c):
    cases = c.gen("MCRunNames", workers=8)
    for n, x in enumerate(cases):
        x["key"] = str(n + c.seed)
    recs = c.drive("c05", cases)
    c.traces = len(recs)
    c.cover["file_names"] = len({x["file"]["stem"] + x["file"]["ext"] for x in cases})
    c.assumptions = ["working directory one of two; names from a table, none with path separators"]
    c.judge("TraceRunNames", recs)
