import random


def check(c):
    cases = c.gen("MCGrid", "MCGridBig.cfg" if c.thorough else "MCGrid.cfg", workers=8)
    rnd = random.Random(c.seed)
    for n, x in enumerate(cases):
        x["key"] = "g%d" % n
        x["level"] = rnd.choice(("internal", "facies"))
    recs = c.drive("c08", cases)
    c.traces = len(recs)
    c.cover["grids"] = len(cases)
    c.assumptions = ["extents are whole multiples of the cell sizes (documented precondition)"]
    c.judge("TraceGrid", recs)
