from drvlib import err_class, quiet, tree, untree
from drivers.c01 import text

Option = Section = None


def setup():
    global Option, Section
    import hyvrload
    hyvrload.load()
    from hyvr.input.option_parsing import Option, Section


def leaftree(v):
    if isinstance(v, list):
        return {"t": "l", "v": 0, "c": [leaftree(x) for x in v]}
    return {"t": "n", "v": str(v), "c": []}


def run_text(c):
    r = dict(c)
    r["result"] = leaftree("")
    r["kind"] = "text"
    try:
        with quiet():
            got = Section("s", [Option("v", list, shape=-1, datatype=int if c["dtype"] == "int" else str)]
                          ).parse({"v": "".join(c["chars"])})["v"]
        r["result"] = leaftree(got)
        r["out"] = "ok"
    except Exception as e:
        r["out"] = err_class(e)
    return r


def mutate(res):
    for k in ("o", "v", "w", "u"):
        v = res.get(k)
        if isinstance(v, list):
            for x in v:
                if isinstance(x, list):
                    x.append(77)
                    if isinstance(x[0], int):
                        x[0] = 66
            v.append(99)


NONE = {"t": "-", "v": 0, "c": []}


def run(c, scratch):
    if "chars" in c:
        return run_text(c)
    opts = [Option("o", list, shape=-1, datatype=int, alternatives=["oo"]),
            Option("v", list, optional=True, shape=["o", 2], datatype=int, default=[[1, 2], [3, 4]]),
            Option("w", list, optional=True, shape="o", datatype=int),
            Option("u", list, optional=True, shape=-1, datatype=int, default=[[5], [6]])]
    secs = [Section("s", opts), Section("s", opts)]
    last = None
    out = []
    for n, op in enumerate(c["hist"]):
        if op["op"] == "mutate":
            if last is not None:
                mutate(last)
            continue
        s = op["sec"]
        d = {s["oname"]: text(untree(s["o"]), 1)}
        for k in ("v", "w", "u"):
            if s[k]["t"] != "-":
                d[k] = text(untree(s[k]), 1)
        r = {"kind": "parse", "sec": s, "key": "%s.%d" % (c["key"], n), "o": NONE, "v": NONE, "w": NONE, "u": NONE}
        if n == len(c["hist"]) - 1 or c.get("all"):
            r["hist"] = [h["op"] + str(h["k"]) for h in c["hist"]]
        try:
            with quiet():
                last = secs[op["k"] - 1].parse(d)
            r["out"] = "ok"
            for k in ("o", "v", "w", "u"):
                r[k] = NONE if last[k] is None else tree(last[k])
        except Exception as e:
            r["out"] = err_class(e)
            last = None
        out.append(r)
    return out
