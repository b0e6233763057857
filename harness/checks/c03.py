import itertools
import random


def check(c):
    c.mc("MCListText", "MCListTextBig.cfg" if c.thorough else "MCListText.cfg")
    hists = c.gen("MCParseHistory", "MCParseHistoryBig.cfg" if c.thorough else "MCParseHistory.cfg")
    rnd = random.Random(c.seed)
    cases = []
    # every text of the exhaustive model, up to the same length
    for n in range(0, 7 if not c.thorough else 8):
        for t in itertools.product("[],a ", repeat=n):
            cases.append({"chars": list(t), "dtype": "str"})
    for n in range(0, 6 if not c.thorough else 7):
        for t in itertools.product("[],1 ", repeat=n):
            cases.append({"chars": list(t), "dtype": "int"})

    # longer texts: well-formed ones and mutations of them
    def gen(d):
        if d == 0 or rnd.random() < .4:
            return rnd.choice(["a", "b", "ab", "a b", "", " a", "x.y", "a;b", '"a"', "'b'", "(a", "b)", "{a}", "a:b", "a=b", "#a", "a/b", "-a", "\u00fc", "a\rb", "\f"])
        return "[" + ",".join(rnd.choice(["", " ", "\n", "\t", "\r\n"]) + gen(d - 1) for _ in range(rnd.randint(0, 4))) + "]"
    for i in range(3000 if not c.thorough else 40000):
        t = gen(rnd.randint(1, 5))
        if i % 2:
            t = list(t)
            for _ in range(rnd.randint(1, 2)):
                p = rnd.randint(0, len(t))
                if rnd.random() < .5 and t:
                    del t[min(p, len(t) - 1)]
                else:
                    t.insert(p, rnd.choice("[],a ;\"'()"))
        cases.append({"chars": list(t), "dtype": "str"})
    for h in hists:
        cases.append(h)
    for i in range(300 if not c.thorough else 3000):
        cases.append({"hist": [rnd.choice(hists)["hist"][0] for _ in range(10)]})
    for n, x in enumerate(cases):
        x["key"] = str(n)
    recs = c.drive("c03", cases)
    c.traces = len(cases)
    c.cover["texts"] = sum("chars" in x for x in cases)
    c.cover["histories"] = sum("hist" in x for x in cases)
    c.assumptions = ["texts over 5 characters up to length %d, random longer ones; histories up to %d calls, random ones of 10"
                     % (6 + c.thorough, 3 + c.thorough)]
    c.judge("TraceListText", recs)
