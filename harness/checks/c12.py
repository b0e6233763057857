import random


def check(c):
    c.mc("MCLayers")
    cases = c.gen("MCSheets", workers=8)
    rnd = random.Random(c.seed)
    out = []
    for n, x in enumerate(cases):
        x.update(key="h%d" % n, seed=c.seed * 1000 + n)
        if x["op"] == "bg":
            out.append(x)
            continue
        if not c.thorough and rnd.random() > (.3 if x["structure"] == "dip" else .45):
            continue
        exact = not x["rough"] and x["trend"][0] == 1000 and x["lens"] in (-1, 5000, 7500) and rnd.random() < .6
        g = rnd.randrange(4)
        x.update(n=[(4, 3, 14), (3, 5, 10), (1, 4, 16), (3, 2, 40)][g], o=rnd.choice([(0, 0, 0), (100, -50, 10), (-7, 3, -20)]),
                 d=[(1, 1, .25), (1.5, .5, .375), (.5, 2, .25), (1, 1, .25)][g], wide=rnd.random() < .4, tol=0 if exact else 1,
                 zmean=1000 if exact else rnd.choice([1.3, 1000, 2.2]))
        if x["structure"] == "dip" and x["dist"] == 200 and x["lens"] < 0 and abs(x["ang"][1]) < 30:
            x.update(n=(2, 2, 60), d=(1, 1, .25), zmean=1000)               # many layers in one sheet
        z0 = x["o"][2]
        k = rnd.randrange(4) if x["n"][2] < 60 else 0
        x["contacts"] = [[], [["flat", z0 + 1.5]], [["random", z0 + 1.5, 0.2, 2, 2]], [["flat", z0 + 2.5], ["flat", z0 + 2]]][k if not exact else (0, 1, 1, 3)[k]]
        out.append(x)
    recs = c.drive("c12", out)
    c.traces = len(recs)
    c.cover["models"] = len(out)
    c.cover["cells"] = sum(len(r.get("cells", [])) for r in recs)
    c.assumptions = ["layers are judged with whole-degree angles and a cycle of seven facies; the shift of the layers is free",
                     "positive lens thickness (others do not terminate)"]
    c.judge("TraceSheets", recs)
