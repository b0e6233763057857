import re

from drvlib import err_class, quiet

Option = Section = None


def setup():
    global Option, Section
    import hyvrload
    hyvrload.load()
    from hyvr.input.option_parsing import Option, Section


TYPES = {"int": int, "float": float, "str": str, "bool": bool, "list": list}


def canon(v):
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bT" if v else "bF"
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "f%r" % v
    if isinstance(v, str):
        return "s" + v
    if isinstance(v, list):
        return "l%r" % v
    return "?%r" % (v,)


def default(d):
    return {"none": None, "i42": 42, "f42.5": 42.5, "sdefault": "default", "bT": True,
            "l[[4, 2]]": [[4, 2]]}[d]


RULES = {"all": lambda x: True, "le5": lambda x: x <= 5, "word": lambda x: x in ["abc", "true", "3"]}


def run(c, scratch):
    d = c["decl"]
    kw = dict(optional=d["opt"], default=default(d["def"]), validation_func=RULES[d["valid"]])
    if d["alts"]:
        kw["alternatives"] = d["alts"][0] if len(d["alts"]) == 1 and c["n"] % 2 else list(d["alts"])
    if d["type"] == "list":
        kw.update(shape=-1, datatype=int)
    first = Option("opt", TYPES[d["type"]], **kw)
    second = Option("second", int)
    opts = [first, second] if c["n"] % 3 else [second, first]
    r = dict(c)
    r.update(got="", second="")
    with quiet() as (out, err):
        try:
            got = Section("sec", opts).parse(dict(c["sec"]))
            r["out"] = "ok"
            r["got"] = canon(got["opt"]) if "opt" in got else "absent"
            r["second"] = canon(got["second"])
        except Exception as e:
            r["out"] = err_class(e)
    txt = err.getvalue()
    r["warned"] = sorted(n for n in list(c["sec"]) + ["opt", "second"]
                         if re.search(r"(?<![\w])%s(?![\w])" % re.escape(n), txt))
    return r
