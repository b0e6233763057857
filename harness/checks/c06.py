import itertools
import random


def histories(c, ops, n2, n3, nlong, cli=False):
    rnd = random.Random(c.seed)
    runs = [o for o in ops if o["op"] != "foreign"]
    h = [[o] for o in ops]
    two = [list(x) for x in itertools.product(ops, repeat=2) if x[-1]["op"] != "foreign"]
    rnd.shuffle(two)
    h += two[:n2]
    for _ in range(n3):
        h.append([rnd.choice(ops), rnd.choice(ops), rnd.choice(runs)])
    for _ in range(nlong):
        h.append([rnd.choice(ops) for _ in range(rnd.randint(4, 8))])
    return [{"hist": x, "key": "%s-%d" % (len(x), n), "cli": cli} for n, x in enumerate(h)]


def check(c):
    ops = c.gen("MCRunHistory", "MCRunHistoryBig.cfg" if c.thorough else "MCRunHistory.cfg", workers=8)
    ops.sort(key=str)
    cases = histories(c, ops, 400 if not c.thorough else 10000, 400 if not c.thorough else 8000, 150 if not c.thorough else 3000)
    # some of the histories in a process whose default encoding cannot express the facies names
    plain = [x for i, x in enumerate(cases) if i % 9 == 4]
    recs = c.drive("c06", [x for i, x in enumerate(cases) if i % 9 != 4])
    recs += c.drive("c06", plain, extra_env={"PYTHONUTF8": "0", "LC_ALL": "C"})
    c.cover["histories with an ASCII locale"] = len(plain)
    c.traces = len(cases)
    c.cover["operations"] = len(recs)
    c.cover["histories_by_length"] = {str(n): sum(len(x["hist"]) == n for x in cases) for n in range(1, 9)}
    c.assumptions = ["two run directories, four parameter files, one of them refused; links, nested and foreign files in the run directories"]
    c.judge("TraceRunHistory", recs, group=lambda r: r["hist"])
