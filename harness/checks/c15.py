import random


def check(c):
    tables = c.gen("MCAlternation", "MCAlternationBig.cfg" if c.thorough else "MCAlternation.cfg", workers=8)
    out = []
    rnd = random.Random(c.seed)
    for n, t in enumerate(tables):
        out.append(dict(t, op="walk", key="w%d" % n, seed=c.seed * 1000 + n, n=6, want="all", times=300))
        out.append(dict(t, op="walk", key="l%d" % n, seed=c.seed * 1000 + n, n=rnd.choice([1, 2, 40, 333]), want="", times=2))
        if c.thorough or rnd.random() < .09 or len(t["facies"]) < 3:
            kinds = ["sheet", "trough", "bulb", "channel", "down"]
            for k in kinds if len(t["facies"]) < 3 or c.thorough else [rnd.choice(kinds), "sheet"]:
                out.append(dict(t, op=k, key="%s%d" % (k, n), seed=c.seed * 1000 + n))
    recs = c.drive("c15", out)
    c.traces = len(recs)
    c.cover["tables"] = len(tables)
    c.cover["layer sequences"] = sum(len(r.get("seqs", [])) for r in recs)
    c.assumptions = ["alternatives are among the element's facies", "300 sequences per table: a listed alternative is missed with probability below 1e-14"]
    c.judge("TraceAlternation", recs)
