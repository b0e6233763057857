import random


def check(c):
    cases = c.gen("MCTensor", workers=8)
    out, n = [], [(4, 3, 5), (5, 4, 3), (1, 6, 10), (15, 4, 1), (2, 2, 15)]
    for i in range(0, len(cases) - 59, 60):
        out.append({"key": "d%d" % i, "op": "direct", "n": n[i // 60 % 5], "cases": cases[i:i + 60]})
    out.append({"key": "d-last", "op": "direct", "n": n[0], "cases": cases[-60:]})
    angles = [([0, 0], [0, 0]), ([0, 90], [5, 40]), ([-60, 120], [10, 80]), ([200, 300], [30, 30]), ([45, 45], [-20, -20]), ([-90, -90], [90, 90])]
    ratios = [[1, 2, 5, 10, 1.5], [.5, 1, 3, 100, 1.1], [8, 8, 8, 8, 8]]
    rnd = random.Random(c.seed)
    for i in range(360 if c.thorough else 60):
        s = c.seed * 1000 + i
        a = rnd.choice(angles)
        mix = rnd.choice(["sheets", "troughs", "channels", "plain"])
        if mix == "troughs" and a[1][1] < 0:
            a = angles[1]                      # bulb troughs: the maximum dip is not negative
        out.append({"key": "m%d" % i, "op": "model", "mix": mix, "az": a[0], "dp": a[1], "bg": rnd.choice([(0, 0), (30, 20), (-75, 60)]),
                    "ratios": rnd.choice(ratios), "level": rnd.choice(["internal", "facies"]), "seed": s})
    recs = c.drive("c17", out)
    c.traces = len(recs)
    c.cover["tensors"] = sum(len(r.get("cells", [])) for r in recs)
    c.assumptions = ["tensors are compared relative to the conductivity, to about 1/1000 (rounding of the fixed-point trigonometry)"]
    c.judge("TraceTensor", recs)
