import random

import models


def check(c):
    c.mc("MCRealizations", "MCRealizationsBig.cfg" if c.thorough else "MCRealizations.cfg")
    rnd = random.Random(c.seed)
    cases = []

    def op(o, f="-", s=0, n=1):
        return {"op": o, "file": f, "seed": s, "num": n}
    base = c.seed * 100
    # learnt in processes that have done nothing else
    for f in models.ALL:
        for s in range(3):
            cases.append({"hist": [op("fresh", f, base + s, 4)]})
    # runs over several realizations
    for f in models.ALL:
        for s in range(3):
            cases.append({"hist": [op("run", f, base + s, 1 + (s + 2) % 3), op("run", f, base + s, 2)]})
    cases.append({"hist": [op("fresh", "plain", base, 12), op("run", "plain", base, 12)]})
    # histories
    for i in range(160 if not c.thorough else 1500):
        h = []
        few = rnd.sample(models.ALL, rnd.choice([1, 2, 2, 3]))
        for _ in range(rnd.randint(3, 7)):
            k = rnd.choice(["fresh", "reuse", "reuse", "reassign", "output", "hydraulics", "hydraulics", "run"])
            h.append(op(k, rnd.choice(few), base + rnd.randint(0, 2), rnd.randint(1, 3)))
        cases.append({"hist": h})
    for n, x in enumerate(cases):
        x["key"] = str(n)
    recs = c.drive("c07", cases)
    recs.sort(key=lambda r: (int(r["key"].split(".")[0]), int(r["key"].split(".")[1])))
    c.traces = len(cases)
    c.cover["operations"] = {o: sum(r["op"] == o for r in recs) for o in sorted({r["op"] for r in recs})}
    c.assumptions = ["random state = state of numpy.random and random; seven parameter files; hash seed fixed"]
    c.judge("TraceRealizations", recs, chunks=1)
