import random


def check(c):
    cases = c.gen("MCPlacement", workers=8)
    out = []
    rnd = random.Random(c.seed)
    for n, x in enumerate(cases):
        x.update(key="%s%d" % (x["op"], n), seed=c.seed * 1000 + n)
        if x["op"] == "channels" and rnd.random() * (3 if c.thorough else 17) > 1:
            continue
        x.update(n=rnd.choice([(9, 8, 16), (7, 11, 12), (12, 5, 20)]), o=rnd.choice([(0, 0, 0), (-20, 35, 4), (30, -45, -12)]),
                 d=rnd.choice([(1, 1, .25), (1.5, .5, .5), (.5, 2, .25)]), agg=rnd.choice([500, 750, 625]), buffer=x.get("buffer", 0))
        if x["op"] == "spread":
            x.update(levels=150 if x["density"] > 5000 else 400, n=(7, 5, 4))
        if x["op"] in ("channels", "meanders", "starts", "ferguson"):
            x.update(dims=rnd.choice([[2000, 1000], [1200, 500]]), ds=rnd.choice([500, 700, 100, 300]), many=400 if x["op"] == "starts" else 24)
            if x["op"] == "channels":
                x.update(rough=rnd.random() < .33)
        out.append(x)
        if x["op"] == "spread" and c.thorough:
            out += [dict(x, key=x["key"] + "-%d" % s, seed=x["seed"] + 100001 * s) for s in range(1, 6)]
    recs = c.drive("c20", out)
    c.traces = len(recs)
    c.cover["models"] = len(out)
    c.cover["objects"] = sum(len(a["objs"]) for r in recs for a in r.get("aes", []))
    c.assumptions = ["numbers, positions, angles and steps drawn at random are judged by their distribution (six standard deviations)",
                     "straight channels (no noise) exactly, slightly curved ones by their ends, steps and mean direction", "ds at least 0.1"]
    c.judge("TracePlacement", recs)
