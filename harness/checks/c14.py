import random


def check(c):
    c.mc("MCLayers")
    cases = c.gen("MCChannel", workers=8)
    rnd = random.Random(c.seed)
    out = []
    step = 53 if c.thorough else 500
    for n, x in enumerate(cases):
        if rnd.random() * step > 1:
            continue
        i = rnd.randrange(10)
        x.update(key="c%d" % n, seed=c.seed * 1000 + n, shift=i % 2 == 1, wide=i % 5 == 0, azim=rnd.choice((0, 40, -100, 155)))
        out.append(x)
    recs = c.drive("c14", out)
    c.traces = len(recs)
    c.cover["models"] = len(out)
    c.cover["cells"] = sum(len(r["cols"]) * len(r["zs"]) for r in recs if r["out"] == "ok")
    c.cover["cells in channels"] = sum(1 for r in recs if r["out"] == "ok" for q in r["cols"] for x in q["cells"] if x[0] >= 0)
    c.assumptions = ["the centrelines are those of the generated objects; cells within rounding distance of the parabola are not judged",
                     "layers are judged up to their free shift, with a cycle of seven facies"]
    c.judge("TraceChannel", recs)
