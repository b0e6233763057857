import random


def check(c):
    cases = c.gen("MCStrata", workers=8)
    rnd = random.Random(c.seed)
    if not c.thorough:
        cases = [x for x in cases if x["m"]["n"] < 4 or rnd.random() < .35]
    for n, x in enumerate(cases):
        x.update(key="s%d" % n, seed=c.seed * 1000 + n, o=rnd.choice((0, -4)), n=rnd.choice([(3, 2, 12), (2, 4, 24), (1, 5, 12), (4, 1, 8)]),
                 off=rnd.choice([0, 25000, -35000, 60000]), var=rnd.choice([0.02, 0.3, 0, 1.5]), corl=rnd.choice([(2, 2), (1, 5)]), tol=0 if x["r"] == 0 else 1)
        for q in x["m"]["contacts"]:
            q["z"] += x["off"]
        x["m"].update(z0=x["m"]["z0"] + x["off"], top=x["m"]["top"] + x["off"])
        x["op"] = "boundaries"
    # element settings by position
    for n in range(24 if not c.thorough else 200):
        ns = 2 + n % 4
        listed = []
        for j in range(ns):
            t = rnd.sample([1, 2, 3, 4], rnd.randint(1, 3))
            sure = rnd.random() < .5
            listed.append({"types": t, "probs": [1000 if q == 0 else 0 for q in range(len(t))] if sure else [rnd.randint(1, 9) * 100 for _ in t],
                           "mus": [rnd.choice([60, 90, 135]) for _ in t], "avulp": rnd.choice([0, 1000]),
                           "avul": rnd.choice([[20, 20], [30, 30], [25, 35]])})
        cases.append({"key": "p%d" % n, "op": "settings", "listed": listed, "seed": c.seed * 500 + n, "z0": rnd.choice([0, -500, 300])})
    recs = c.drive("c09", cases)
    c.traces = len(recs)
    c.cover["models"] = len(cases)
    c.cover["with_rough_contact"] = sum(x.get("r", 0) > 0 for x in cases)
    c.assumptions = ["elevations are exact binary numbers in the flat cases, so equality is exact; "
                     "rough contacts are judged by mean, bound and limit to the contact above"]
    c.judge("TraceStrata", recs)
