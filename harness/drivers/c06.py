"""Histories of runs in a scratch world; also used for the command line (C21)."""
import configparser
import io
import os
import pathlib
import re
import resource
import runpy
import sys

import ini
from drvlib import err_class, quiet, scratch_dir

hyvr = None


def setup():
    global hyvr
    import hyvrload
    hyvr = hyvrload.load()


def config(name, root):
    run = {"a": {"outputs": ["npz"]},
           "b": {"runname": "a", "overwrite_old_output": True, "numsim": 2, "outputs": ["npz", "py"]},
           "c": {"runname": "a", "modeldir": str(root / "X"), "outputs": ["py"]},
           "bad": {"runname": "a", "overwrite_old_output": True, "outputs": ["npz"]},
           "fail": {"runname": "f", "overwrite_old_output": True, "outputs": ["npz"]},
           "late": {"runname": "f", "overwrite_old_output": True, "outputs": ["npz", "mf"]},
           "full": {"runname": "f", "overwrite_old_output": True, "numsim": 2, "outputs": ["py", "npz"]},
           "fulz": {"runname": "f", "overwrite_old_output": True, "outputs": ["npz"]}}[name]
    big = name in ("full", "fulz")
    e = ini.element("sheet", facies={"bad": ["nosuchfacies"], "fail": []}.get(name, ["A"]))
    return {"run": run,
            "model": {"dx": 1, "lx": 12 if big else 2, "ly": 12 if big else 2, "lz": 12 if big else 2, "heterogeneity": big},
            "strata": {"strata": ["s"], "strata_contact_models": [], "ae": ["e"],
                       "ae_in_strata": [["e"]], "ae_prob": [[1]], "ae_z_mean": [[9]],
                       "avul_prob": [[0]], "avul": [[0, 0]], "bg_facies": ["A"], "bg_azim": 0, "bg_dip": 0},
            "e": e, "hydraulics": ini.hydraulics(["A", "B\u00fc" + name], **({"sig_y": 1, "sig_n": 0.01} if big else {})),
            **({"flowtrans": {"q_in": 0}} if name == "late" else {})}


def settings(text):
    p = configparser.ConfigParser()
    try:
        p.read_string(text.lstrip('\ufeff'))
        return {s: dict(p[s]) for s in p.sections()}
    except configparser.Error:
        return None


def walk(root):
    """path -> identity of the file as it is now."""
    res = {}
    for dp, dns, fns in os.walk(root, followlinks=False):
        for n in fns + [x for x in dns if os.path.islink(os.path.join(dp, x))]:
            p = pathlib.Path(dp) / n
            st = p.lstat()
            body = os.readlink(p) if p.is_symlink() else p.read_bytes()
            res[str(p.relative_to(root))] = (st.st_ino, st.st_mtime_ns, st.st_ctime_ns, body)
        rel = os.path.relpath(dp, root)
        if rel in ("W/a", "X/a"):
            res[rel + "/./"] = ()
        elif rel.startswith(("W/a/", "X/a/")) and not fns and not dns:
            res[rel + "/"] = ()
    return res


def split(path):
    for d in ("W/a", "W/f", "X/a", "W", "X", "O"):
        if path.startswith(d + "/"):
            return d, path[len(d) + 1:]
    return "?", path


def run(c, scratch):
    recs = []
    with scratch_dir(scratch) as root:
        root = root.resolve()
        for d in ("W", "O", "O/sub", "W/b"):
            (root / d).mkdir()
        texts = {}
        for n in ("a", "b", "c", "bad", "fail", "late", "full", "fulz"):
            texts[n] = ini.text(config(n, root))
            if n == "b":           # lists over several lines
                texts[n] = texts[n].replace(", ", ",\n        ")
            if n == "c":           # an escaped character
                texts[n] = texts[n].replace("B\u00fcc", "B%%\u00fcc")
            (root / "W" / (n + ".ini")).write_text(texts[n], encoding="utf-8-sig" if n == "b" else "utf-8")     # b: with a byte order mark
        for f in ("W/other.txt", "W/b/keep.txt", "O/precious.txt", "O/sub/precious.txt"):
            (root / f).write_text("precious " + f)
        parsed = {n: settings(t) for n, t in texts.items()}
        ident = walk(root)
        tags = {p: "ini" if p.endswith(".ini") else "foreign@0" for p in ident}
        for k, op in enumerate(c["hist"], 1):
            rec = {"key": "%s.%d" % (c["key"], k), "hist": c["key"], "k": k, "op": op, "out": "ok",
                   "cli": c["cli"], "status": 0, "stderr": False}
            if op["op"] == "foreign":
                d = root / op["d"]
                d.mkdir(parents=True, exist_ok=True)
                if op["kind"] == "file":
                    (d / "notes.txt").write_text("mine %d" % k)
                elif op["kind"] == "subdir":
                    (d / "more" / "deep").mkdir(parents=True, exist_ok=True)
                    (d / "more" / "deep" / "notes.txt").write_text("mine %d" % k)
                elif op["kind"] == "ini":
                    (d / "notes.txt.ini").write_text("mine %d" % k)
                elif op["kind"] == "alike":
                    (d / "real_007").mkdir(exist_ok=True)
                    (d / "a.notes.txt.npz").write_text("mine %d" % k)
                    (d / "real_007" / "a.notes.txt").write_text("mine %d" % k)
                elif op["kind"] == "void":
                    (d / "void").mkdir(exist_ok=True)
                elif op["kind"] == "hidden":
                    (d / ".more").mkdir(exist_ok=True)
                    for f in (".notes.txt", ".more/.notes.txt"):
                        (d / f).write_text("mine %d" % k)
                elif op["kind"] == "linkdir" and not (d / "to_O").is_symlink():
                    (d / "to_O").symlink_to(root / "O")
                elif op["kind"] == "dangling" and not (d / "to_nothing").is_symlink():
                    (d / "to_nothing").symlink_to(root / "nothing")
            else:
                f = root / op["d"] / "a_autogenerated_backup.ini" if op["op"] == "backup" \
                    else root / "W" / "missing.ini" if op["op"] == "missing" else root / "W" / (op["i"] + ".ini")
                flag = {"none": None, "yes": True, "no": False}[op["flag"]]
                limit = resource.getrlimit(resource.RLIMIT_FSIZE)
                if op["i"] in ("full", "fulz"):     # the backup fits, the results do not
                    resource.setrlimit(resource.RLIMIT_FSIZE, (8000, limit[1]))
                with quiet() as (out, err):
                    if c["cli"]:
                        argv = sys.argv
                        sys.argv = ["hyvr"] + (["--overwrite"] if flag else []) + [str(f)]
                        if int(c["key"].split("-")[-1]) % 2:
                            sys.argv[1:] = sys.argv[:0:-1]
                        try:
                            runpy.run_module("hyvr", run_name="__main__", alter_sys=False)
                        except SystemExit as e:
                            rec["status"] = 0 if e.code in (None, 0) else int(e.code) if isinstance(e.code, int) else 1
                        except BaseException as e:     # the interpreter would report it and end with 1
                            rec["status"] = 1
                            print(repr(e), file=sys.stderr)
                        sys.argv = argv
                        rec["stderr"] = bool(err.getvalue().strip())
                        rec["out"] = "ok" if rec["status"] == 0 else "fails"
                    else:
                        try:
                            hyvr.run(str(f), flag)
                        except Exception as e:
                            rec["out"] = err_class(e)
                resource.setrlimit(resource.RLIMIT_FSIZE, limit)
            now = walk(root)
            newtags = {}
            for p, i in now.items():
                if ident.get(p) == i:
                    newtags[p] = tags[p]
                    continue
                name = p.rsplit("/", 1)[-1]
                if p.endswith("/"):
                    t = "dir"
                elif (root / p).is_symlink():
                    t = "link"
                elif "notes.txt" in name:
                    t = "foreign@%d" % k if op["op"] == "foreign" else "changed@%d" % k
                elif name.endswith("_autogenerated_backup.ini"):
                    s = settings((root / p).read_text(encoding="utf-8", errors="replace"))
                    who = [n for n in parsed if parsed[n] == s]
                    t = "cfg-%s@%d" % (who[0] if who else "?", k)
                elif re.search(r"\.(npz|pickle)$", name) and (root / p).stat().st_size > 0:
                    t = "out@%d" % k
                else:
                    t = "changed@%d" % k
                newtags[p] = t
            ident, tags = now, newtags
            rec["fs"] = [dict(zip("dpt", split(p) + (t,))) for p, t in sorted(tags.items())]
            recs.append(rec)
    return recs
