"""Histories of runs, runs of their backups and copies of their directories."""
import os
import pickle
import random
import shutil
import zlib

import ini
import numpy as np
import world
from drivers.c19 import RAW, SECT, norm
from drvlib import err_class, quiet, scratch_dir


def setup():
    world.load()


def styled(conf, style, rnd):
    """The same file, written in different ways."""
    conf = {s: dict(o) for s, o in conf.items()}
    if "ref" in style:                                  # values that refer to others
        for a, b in (("dy", "dx"), ("y0", "x0"), ("ly", "lx")):
            if b in conf["model"] and conf["model"].get(a) == conf["model"][b]:
                conf["model"][a] = "%%(%s)s" % b
    if "key" in style:
        conf = {s: {k.title() if rnd.random() < .5 else k.upper(): v for k, v in o.items()} for s, o in conf.items()}
    if "percent" in style:
        for s in conf:
            for k, v in conf[s].items():
                if isinstance(v, list):
                    conf[s][k] = name(v)
                elif v == "A":
                    conf[s][k] = "\u00c4%%B"
    t = ini.text(conf)
    if "lines" in style:
        t = t.replace(", ", ",\n        ")
    if "colon" in style:
        t = t.replace(" = ", ": ")
    if "tight" in style:
        t = t.replace(" = ", "=").replace(", ", ",")
    if "comment" in style:
        t = "# first\n" + "".join(x + "\n" + rnd.choice(("", "# remark = 1\n", "; [x]\n", "")) for x in t.split("\n"))
    if "crlf" in style:
        t = t.replace("\n", "\r\n")
    return ("\ufeff" if "bom" in style else "") + t


def name(v):
    return [name(x) for x in v] if isinstance(v, list) else "\u00c4%%B" if v == "A" else v


def settings(path):
    with quiet():
        p = world.P.parameters(str(path))
    out, rundir = [], ""
    for n, v in list(zip(SECT, p[:5])) + sorted(p[5].items()):
        for k, x in v.items():
            if k == "rundir":
                rundir = str(x)
            elif k != "modeldir":
                out.append("%s.%s=%s" % (n, k, norm(x)))
    return sorted(out), rundir


def content(p, d):
    if p.suffix == ".npz":
        with np.load(str(p)) as z:
            return arrays({k: z[k] for k in z.files})
    if p.suffix == ".pickle":
        with open(str(p), "rb") as f:
            return arrays(pickle.load(f))
    if p.suffix in (".mat", ".h5", ".hdf5"):            # contain the time of writing
        return "-"
    b = b"\n".join(x for x in p.read_bytes().split(b"\n") if not x.startswith(b"#")).replace(str(d).encode(), b"")
    return str(zlib.crc32(b))


def arrays(d):
    if not isinstance(d, dict):
        return "-"
    return str(zlib.crc32(b"".join(k.encode() + np.ascontiguousarray(d[k]).tobytes() for k in sorted(d))))


def look(d, root, where):
    b = [p for p in d.iterdir() if p.name.endswith("_autogenerated_backup.ini")]
    try:
        sets, rundir = settings(b[0]) if len(b) == 1 else (["%d backups" % len(b)], "")
    except Exception as e:
        sets, rundir = [repr(e)[:200]], ""
    return {"settings": sets, "rundir": where.get(rundir, rundir),
            "files": [{"n": str(p.relative_to(d)), "c": content(p, d)} for p in sorted(d.rglob("*")) if p.is_file() and p not in b]}


def run(c, scratch):
    recs, cwd = [], os.getcwd()
    rnd = random.Random(c["seed"])
    with scratch_dir(scratch) as root:
        root = root.resolve()
        places = {"W": root / "m" / "r", "Y": root / "y" / "copy"}
        where = {str(v): k for k, v in places.items()}
        files = {}
        for f, x in zip((1, 2), c["files"]):
            conf = x["conf"]
            rn = dict(conf["run"])
            # the run is called r: by option or by the file's name; it lies in m: by option or by the file's place
            if x["named"]:
                rn["runname"] = "r"
            else:
                rn.pop("runname", None)
            d = root / "m"
            if x["placed"]:
                rn["modeldir"] = str(root / "m")
                d = root / ("f%d" % f)
            if not x["named"]:
                stem = "r"
                if f == 2 and not x["placed"] and not c["files"][0]["named"] and not c["files"][0]["placed"]:
                    stem, rn["runname"] = "second", "r"
            else:
                stem = "file%d" % f
            conf = dict(conf, run=rn)
            d.mkdir(exist_ok=True)
            files[f] = d / (stem + ".ini")
            files[f].write_bytes(styled(conf, x["style"], rnd).encode("utf-8"))
        try:
            for k, op in enumerate(c["hist"], 1):
                r = {"key": "%s.%d" % (c["key"], k), "hist": c["key"], "k": k, "op": op, "out": "ok", "own": [], "at": {}}
                recs.append(r)
                try:
                    if op["op"] == "copy":
                        if places["Y"].exists():
                            shutil.rmtree(str(places["Y"]))
                        shutil.copytree(str(places["W"]), str(places["Y"]))
                    else:
                        src = files[op["f"]] if op["op"] == "run" else places[op["p"]] / "r_autogenerated_backup.ini"
                        if op["op"] == "run":
                            r["own"] = settings(src)[0]
                        np.random.seed(c["seed"] % 100000 + 7 * op["s"])
                        random.seed(c["seed"] % 100000 + 7 * op["s"])
                        os.chdir(str(src.parent))
                        with quiet():
                            world.hyvr.run(src.name if c["rel"] else str(src), True)
                except Exception as e:
                    r.update(out=err_class(e), msg=repr(e)[:300])
                finally:
                    os.chdir(cwd)
                if r["out"] != "ok":
                    break
                r["at"] = {p: look(d, root, where) for p, d in places.items() if d.exists()}
        finally:
            os.chdir(cwd)
    return recs
