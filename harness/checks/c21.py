from checks.c06 import histories


def check(c):
    ops = c.gen("MCRunHistory", "MCRunHistoryCli.cfg", workers=8)
    ops.sort(key=str)
    cases = histories(c, ops, 250 if not c.thorough else 10000, 250 if not c.thorough else 5000, 80 if not c.thorough else 1500, cli=True)
    recs = c.drive("c06", cases)
    c.traces = len(cases)
    c.cover["invocations"] = len(recs)
    c.cover["exit_status"] = {str(s): sum(r["status"] == s for r in recs) for s in sorted({r["status"] for r in recs})}
    c.assumptions = ["the program is started by runpy in the driver process, as python -m hyvr does"]
    c.judge("TraceRunHistory", recs, group=lambda r: r["hist"])
