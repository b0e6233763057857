from drvlib import err_class, quiet, tree, untree

Option = Section = None


def setup():
    global Option, Section
    import hyvrload
    hyvrload.load()
    from hyvr.input.option_parsing import Option, Section


REFLEN = -9


def py_shape(s, n):
    if s["k"] == "any":
        return -1
    if s["k"] == "ref":
        return "o"
    d = ["o" if (x["t"] == "n" and x["v"] == REFLEN) else untree(x) for x in s["d"]]
    if len(d) == 1 and isinstance(d[0], int) and d[0] >= 0 and n % 2:
        return d[0]
    return d


TYPES = [int, str, float]


def numbers(v, t):
    """The entries as numbers, if they have the type t."""
    if isinstance(v, list):
        return [numbers(x, t) for x in v]
    return int(v) if type(v) is t and str(v) in (str(int(float(v))), str(float(v))) else None


SPACES = ["", " ", "  ", "\n ", "\t"]


def text(v, n, key=[0]):
    def sp():
        key[0] = (key[0] * 1103515245 + 12345 + n) % 2147483648
        return SPACES[(key[0] >> 16) % (5 if n % 3 == 0 else 2)]
    if isinstance(v, list):
        return "[" + sp() + (sp() + "," + sp()).join(text(x, n) for x in v) + sp() + "]"
    return str(v)


def run(c, scratch):
    to, tv = TYPES[c["n"] // 3 % 3], TYPES[c["n"] // 9 % 3]
    opts = [Option("o", list, shape=-1, datatype=to),
            Option("v", list, shape=py_shape(c["shape"], c["n"]), datatype=tv)]
    r = dict(c)
    r["result"] = tree(0)
    try:
        with quiet():
            got = Section("s", opts).parse({"o": text(untree(c["other"]), 1),
                                            "v": text(untree(c["value"]), c["n"])})
        r["result"] = tree(numbers(got["v"], tv))
        r["out"] = "ok"
    except Exception as e:
        r["out"] = err_class(e)
    return r
