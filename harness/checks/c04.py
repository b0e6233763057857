import random


def check(c):
    files = c.gen("MCParamFile", workers=8)
    rnd = random.Random(c.seed)
    # files that deviate in two places: two single deviations from one base, merged field by field
    fields = sorted(files[0])
    bygeo = {}
    for f in files:
        bygeo.setdefault(f["geo"], []).append(f)
    merged = []
    for i in range(3000 if not c.thorough else 60000):
        g = rnd.choice(["sheet", "trough", "channel"])
        a, b, base = (rnd.choice(bygeo[g]) for _ in range(3))
        m = dict(base)
        for k in fields:
            va, vb = a[k], b[k]
            m[k] = rnd.choice([base[k], base[k], base[k], va, vb])
        if m["lagf"] == "Z" and m["lagh"] != "0.3":
            m["lagf"] = ""
        if rnd.random() < .7:
            m["secs"] = base["secs"]
            m["drop"] = ""
            # keep the strata consistent more often than not
            m["cms"], m["n"], m["bgf"] = base["cms"], base["n"], base["bgf"]
        merged.append(m)
    cases = [{"file": f, "key": str(n)} for n, f in enumerate(files + merged)]
    recs = c.drive("c04", cases)
    c.traces = len(recs)
    c.cover["files_enumerated"] = len(files)
    c.cover["files_combined"] = len(merged)
    c.cover["outcomes"] = {o: sum(r["out"] == o for r in recs) for o in sorted({r["out"] for r in recs})}
    c.assumptions = ["files with one tested element next to a fixed one; numbers from a table of representatives"]
    c.judge("TraceParamFile", recs)
