import itertools
import random


def check(c):
    calls = c.gen("MCTestCase", "MCTestCaseBig.cfg" if c.thorough else "MCTestCase.cfg", workers=8)
    calls.sort(key=str)
    rnd = random.Random(c.seed)
    h = [[x] for x in calls]
    two = [list(x) for x in itertools.product(calls, repeat=2)]
    rnd.shuffle(two)
    h += two[:150 if not c.thorough else len(two)]
    for _ in range(100 if not c.thorough else 3000):
        h.append([rnd.choice(calls) for _ in range(rnd.randint(3, 5))])
    cases = [{"hist": x, "key": "%s-%d-%s" % (len(x), n, nb), "nb": nb, "seed": c.seed * 1000 + n}
             for n, x in enumerate(h) for nb in ((False, True) if len(x) == 1 else (bool(n % 2),))]
    recs = c.drive("c25", cases)
    c.traces = len(cases)
    c.cover["calls"] = len(recs)
    c.assumptions = ["test-case files from a table of nine, put into a copy of the package; what a failing run leaves in the temporary directory is open"]
    c.judge("TraceTestCase", recs, group=lambda r: r["hist"])
