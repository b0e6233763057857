import random


def check(c):
    one = c.gen("MCOptionTable", "MCOptionTableBig.cfg" if c.thorough else None, workers=8)
    rnd = random.Random(c.seed)
    cases = []

    def strip(o):
        r = {k: o[k] for k in ("fmt", "sec", "name", "absent", "form", "text", "deps", "at")}
        r["as"] = rnd.choice([o["name"]] + sorted(o["alts"]))
        return r
    for o in one:
        for base in ("full", "lean"):
            if base == "lean" and not o["ok"] and rnd.random() > .3 and not c.thorough:
                continue
            cases.append({"base": base if o["fmt"] == "new" else "o" + base, "opts": [strip(o)]})
    single = len(cases)
    # many options at once
    good, bad = {}, {}
    for o in one:
        (good if o["ok"] else bad).setdefault((o["fmt"], o["sec"], o["name"]), []).append(o)
    names = sorted(set(good) | set(bad))
    for i in range(600 if not c.thorough else 20000):
        share = rnd.choice([.05, .2, .5, .9, 1])
        fmt = rnd.choice(["new", "new", "old"])
        pick = [n for n in names if n[0] == fmt and rnd.random() < share]
        spoiled = rnd.choice(pick) if pick and rnd.random() < .25 else None
        opts = []
        for n in pick:
            pool = bad[n] if n == spoiled and n in bad else good[n]
            absent = [o for o in pool if o["absent"]]
            opts.append(strip(rnd.choice(absent) if absent and rnd.random() < .2 else rnd.choice(pool)))
        if opts:
            secs = sorted({o["sec"] for o in opts})
            cases.append({"base": rnd.choice(["full", "lean"] if fmt == "new" else ["ofull", "olean"]), "opts": opts,
                          "order": [s for s in secs if rnd.random() < .3]})
    for n, x in enumerate(cases):
        x["key"] = str(n)
    recs = c.drive("c23", cases)
    c.traces = len(recs)
    c.cover["options"] = len(names)
    c.cover["files_with_one_deviation"] = single
    c.cover["files_with_many"] = len(cases) - single
    c.cover["accepted"] = sum(r["ok"] for r in recs)
    c.assumptions = ["files with three strata of one, two and one elements, four hydrofacies, one element of each geometry",
                     "entries from a table of texts"]
    c.judge("TraceOptionTable", recs)
