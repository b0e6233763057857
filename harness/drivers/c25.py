"""The built-in test case: runs without a parameter file, with a copy of the package that holds made.ini."""
import io
import os
import pathlib
import pickle
import random
import runpy
import shutil
import sys
import tempfile

import ini
import numpy as np
from drvlib import err_class, quiet, scratch_dir

hyvr = None
PKG = None
watch = None        # [root of temporary files, {path: content}] while a run is observed


def audit(event, args):
    if watch and event in ("shutil.rmtree", "os.remove", "os.rmdir", "subprocess.Popen", "os.system", "os.posix_spawn"):
        root, seen = watch
        for dp, _, fns in os.walk(root):
            for f in fns:
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                seen.setdefault(rel, None)
                if seen[rel] is None:
                    with io.open(p, "rb") as h:
                        seen[rel] = h.read()


def setup():
    global hyvr, PKG
    import hyvrload
    PKG = pathlib.Path.cwd().resolve() / "package"
    shutil.copytree(hyvrload.REPO / "hyvr", PKG / "hyvr", ignore=shutil.ignore_patterns("__pycache__", "made.ini", "small", "*.so"))
    hyvrload.REPO = PKG
    hyvr = hyvrload.load()
    import warnings
    warnings.simplefilter("ignore")
    sys.addaudithook(audit)


def config(name, root):
    run = {"one": {"runname": "small", "overwrite_old_output": True, "outputs": ["npz"]},
           "many": {"runname": "small", "numsim": 3, "outputs": ["npz", "py"]},
           "plain": {"outputs": ["py"]},
           "else": {"runname": "small", "modeldir": str(root / "M"), "numsim": 2, "overwrite_old_output": True, "outputs": ["npz"]},
           "nodir": {"runname": "small", "modeldir": str(root / "N"), "outputs": ["npz", "py"]},
           "none": {"runname": "small", "numsim": 2, "outputs": []},
           "own": {"runname": "own", "outputs": ["npz"]},
           "bad": {"runname": "small", "overwrite_old_output": True, "outputs": ["npz"]},
           "fail": {"runname": "small", "numsim": 2, "outputs": ["npz"]},
           "late": {"runname": "small", "numsim": 2, "outputs": ["npz", "mf"]}}[name]
    e = ini.element("sheet", facies={"bad": ["nosuchfacies"], "fail": []}.get(name, ["A", "B"]), lens_thickness=1)
    return {"run": run, "model": {"dx": 1, "lx": 3, "ly": 2, "lz": 4, "heterogeneity": True},
            "strata": {"strata": ["s"], "strata_contact_models": [], "ae": ["e"],
                       "ae_in_strata": [["e"]], "ae_prob": [[1]], "ae_z_mean": [[2]],
                       "avul_prob": [[0]], "avul": [[0, 0]], "bg_facies": ["A"], "bg_azim": 0, "bg_dip": 0},
            "e": e, "hydraulics": ini.hydraulics(["A", "B"], sig_y=1, sig_n=0.01),
            **({"flowtrans": {"q_in": 0}} if name == "late" else {})}


def walk(dirs):
    res = {}
    for d, root in dirs.items():
        for dp, dns, fns in os.walk(root):
            dns[:] = [x for x in dns if x != "__pycache__"]
            for n in fns:
                p = pathlib.Path(dp) / n
                st = p.lstat()
                res[d, str(p.relative_to(root))] = (st.st_ino, st.st_mtime_ns, st.st_ctime_ns, st.st_size)
            if dp != str(root):
                res[d, os.path.relpath(dp, root) + "/"] = ()
        if not root.exists():
            res[d, "./"] = "missing"
    return res


def seed(s):
    np.random.seed(s)
    random.seed(s)


def content(name, body):
    if name.endswith(".npz"):
        z = np.load(io.BytesIO(body), allow_pickle=True)
        return {k: np.asarray(z[k]) for k in z.files}
    return {k: np.asarray(v) for k, v in pickle.loads(body).items()}


def same(name, a, b):
    try:
        a, b = content(name, a), content(name, b)
        return sorted(a) == sorted(b) and all(a[k].shape == b[k].shape and bool(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == "f")) for k in a)
    except Exception:
        return False


def reference(text, scratch, s):
    """What an ordinary run of the file gives: path -> content."""
    with scratch_dir(scratch) as d:
        (d / "made.ini").write_text("\n".join(l for l in text.splitlines() if not l.startswith("modeldir")))
        with quiet():
            seed(s)
            try:
                hyvr.run(str(d / "made.ini"), True)
            except Exception:
                pass
        rd = [x for x in d.iterdir() if x.is_dir()]
        return {str(p.relative_to(rd[0])): p.read_bytes() for p in rd[0].rglob("*") if p.is_file()} if rd else {}


def run(c, scratch):
    global watch
    recs = []
    made = PKG / "hyvr" / "made.ini"
    cwd, tmp = os.getcwd(), tempfile.tempdir
    with scratch_dir(scratch) as root:
        root = root.resolve()
        for d in ("W", "M", "T"):
            (root / d).mkdir()
        dirs = {"P": PKG, "W": root / "W", "M": root / "M", "N": root / "N"}
        extra = [root / "W/mine.txt", root / "M/mine.txt"]
        if c["nb"]:
            extra += [PKG / "hyvr/small/mine.txt", PKG / "hyvr/made/mine.txt", root / "M/small/mine.txt", root / "W/small/mine.txt"]
        for f in extra:
            f.parent.mkdir(exist_ok=True)
            f.write_text("mine")
        (root / "W/own.ini").write_text(ini.text(config("own", root)))
        try:
            os.chdir(root / "W")
            tempfile.tempdir = str(root / "T")
            for k, op in enumerate(c["hist"], 1):
                rec = {"key": "%s.%d" % (c["key"], k), "hist": c["key"], "k": k, "nb": c["nb"], "op": op, "out": "ok", "status": 0, "stderr": False}
                text = ini.text(config(op["f"] if op["op"] == "test" else "one", root))
                made.write_text(text)
                shutil.rmtree(root / "T")
                (root / "T").mkdir()
                before = walk(dirs)
                flag = {"none": None, "yes": True, "no": False}[op["flag"]]
                seed(c["seed"] + k)
                seen = {}
                watch = (str(root / "T"), seen)
                with quiet() as (out, err):
                    if op["via"] == "cli":
                        argv = sys.argv
                        sys.argv = ["hyvr"] + (["--overwrite"] if flag else []) + ([str(root / "W/own.ini")] if op["op"] == "own" else [])
                        try:
                            runpy.run_module("hyvr", run_name="__main__", alter_sys=False)
                        except SystemExit as e:
                            rec["status"] = 0 if e.code in (None, 0) else int(e.code) if isinstance(e.code, int) else 1
                        except BaseException as e:
                            rec["status"] = 1
                            print(repr(e), file=sys.stderr)
                        sys.argv = argv
                        rec["out"] = "ok" if rec["status"] == 0 else "fails"
                    else:
                        try:
                            hyvr.run(0 if op["op"] == "test" else str(root / "W/own.ini"), flag)
                        except Exception as e:
                            rec["out"] = err_class(e)
                watch = None
                rec["stderr"] = bool(err.getvalue().strip())
                after = walk(dirs)
                rec["changed"] = sorted([d, p] for d, p in set(before) | set(after) if before.get((d, p), 0) != after.get((d, p), 0))
                rec["kept"] = sorted(p for d, p in after if d == "W" and p.startswith("own/") and not p.endswith("/"))
                rec["left"] = sorted(os.listdir(root / "T"))
                ref = reference(text, scratch, c["seed"] + k) if op["op"] == "test" and rec["out"] == "ok" else {}
                rec["seen"] = []
                for p, body in sorted(seen.items()):
                    q = p.split("/", 1)[-1]
                    bak = q.endswith("_autogenerated_backup.ini")
                    rec["seen"].append({"p": q, "backup": bak, "same": bak or rec["out"] != "ok" or (q in ref and same(q, body, ref[q]))})
                recs.append(rec)
        finally:
            watch = None
            os.chdir(cwd)
            tempfile.tempdir = tmp
            if c["nb"]:
                for x in ("small", "made"):
                    shutil.rmtree(PKG / "hyvr" / x, True)
    return recs
