import random


def check(c):
    cases = c.gen("MCElements", "MCElementsBig.cfg" if c.thorough else "MCElements.cfg", workers=8)
    rnd = random.Random(c.seed)
    out = []
    for n, x in enumerate(cases):
        if not c.thorough and rnd.random() < .5:
            continue
        x.update(key="e%d" % n, op="model", seed=c.seed * 1000 + n, n=rnd.choice([[3, 2], [2, 4], [1, 3], [4, 1]]), z0=rnd.choice((0, -3, 5)), lz=6,
                 rvar=rnd.choice([.1, 1]), mus=rnd.choice([[10000, 7000, 14000], [20000, 6000, 9000]]))
        if x["avul"]["lo"] == 7000:
            x["mus"] = [10000, 10000, 10000]
        out.append(x)
    k = 0
    for p in ([1000, 0, 0], [200, 300, 500], [0, 700, 700], [100, 50, 150], [2500, 0, 1000]):
        for av in ({"p": 0, "lo": 29000, "hi": 31000}, {"p": 1000, "lo": 29000, "hi": 31000}, {"p": 500, "lo": 29000, "hi": 31000},
                   {"p": 100, "lo": 29000, "hi": 31000}):
            k += 1
            out.append({"key": "t%d" % k, "op": "stat", "seed": c.seed * 77 + k, "probs": p, "rough": [], "avul": av, "layout": "tall",
                        "turn": 0, "n": [1, 1], "z0": 0, "lz": 4000 if c.thorough else 1600, "mus": [40000, 40000, 40000]})
    for p in ([200, 300, 500], [500, 250, 250], [150, 100, 100]):
        for mus in ([40000, 60000, 90000], [90000, 60000, 40000], [60000, 90000, 40000]):
            k += 1
            out.append({"key": "t%d" % k, "op": "stat", "seed": c.seed * 77 + k, "probs": p, "rough": [], "avul": {"p": 0, "lo": 120000, "hi": 130000},
                        "layout": "tall", "turn": 0, "n": [1, 1], "z0": 0, "lz": 6000 if c.thorough else 3000, "mus": mus})
    recs = c.drive("c10", out)
    c.traces = len(recs)
    c.cover["models"] = len(out)
    c.cover["elements"] = sum(len(s["aes"]) for r in recs for s in r.get("strata", []))
    c.assumptions = ["avulsion depth below the element thickness (larger ones need not terminate)",
                     "frequencies judged with six standard deviations"]
    c.judge("TraceElements", recs)
