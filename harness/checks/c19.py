def check(c):
    cases = c.gen("MCOldFormat", workers=8)
    out = []
    for i, x in enumerate(cases):
        x["new"] = x["new"] or {}
        x.update(key="-".join(sorted(x["dev"])) + "-%d" % i, seed=c.seed * 1000 + i)
        if x["channelmig"]:
            x["key"] = "channel-migrate"
        for s in range(4 if c.thorough else 1):
            out.append(dict(x, key=x["key"] + "." * s, seed=x["seed"] + 7919 * s))
    recs = c.drive("c19", out)
    c.traces = len(recs)
    c.cover["files refused"] = sum(r["refused"] for r in recs)
    c.cover["models compared"] = sum(1 for r in recs if r["old"]["gen"] == "ok")
    c.assumptions = ["complete files (distances given where a structure needs them)"]
    c.judge("TraceOldFormat", recs)
