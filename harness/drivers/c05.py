import builtins
import os
import pathlib

import ini
from drvlib import err_class, quiet, scratch_dir

P = None


def setup():
    global P
    import hyvrload
    hyvrload.load()
    import hyvr.input.parameters as P_
    P = P_


def comps(root, p):
    try:
        return list(pathlib.Path(p).resolve().relative_to(root).parts)
    except (ValueError, TypeError):
        return ["?", str(p)]


def files(root):
    return {p for p in root.rglob("*") if p.is_file()}


def run(c, scratch):
    f, cfg = c["file"], c["cfg"]
    r = dict(c)
    n = int(c["key"])
    with scratch_dir(scratch) as root:
        root = root.resolve()
        d = root.joinpath(*f["dir"])
        cwd = root.joinpath(*c["cwd"])
        for x in (d, cwd):
            x.mkdir(parents=True, exist_ok=True)
        name = f["stem"] + ("_autogenerated_backup.ini" if f["backup"] else f["ext"])
        md = None
        if cfg["kind"] == "abs":
            md = str(root.joinpath(*cfg["dir"]))
        elif cfg["kind"] == "rel":
            md = "/".join(cfg["dir"])
        elif cfg["kind"].startswith("ask"):
            md = "select"
        secs = {"run": {"runname": cfg["name"] or None, "modeldir": md},
                "model": {"dx": 1, "lx": 2, "ly": 2, "lz": 2},
                "strata": {"strata": ["s"], "strata_contact_models": [], "ae": ["e"], "ae_in_strata": [["e"]],
                           "ae_prob": [[1]], "ae_z_mean": [[9]], "avul_prob": [[0]], "avul": [[0, 0]],
                           "bg_facies": ["A"], "bg_azim": 0, "bg_dip": 0},
                "hydraulics": ini.hydraulics(["A"]), "e": ini.element("sheet")}
        p = d / name
        p.write_text(ini.text(secs))
        before = files(root)
        old, old_input = os.getcwd(), builtins.input
        builtins.input = lambda *a: "" if cfg["kind"] == "ask-empty" else "/".join(cfg["dir"])
        os.chdir(cwd)
        arg = str(p) if n % 3 == 0 else p if n % 3 == 1 else os.path.relpath(p)
        with quiet():
            try:
                res = P.parameters(arg)
                r["name"] = str(res[0]["runname"])
                r["modeldir"] = comps(root, res[0]["modeldir"])
                r["rundir"] = comps(root, res[0]["rundir"])
                # a backup lies in the run directory, which then exists
                P.setup_from_inifile(arg, True if f["backup"] else None)
                r["out"] = "ok"
            except Exception as e:
                r["out"] = err_class(e)
        builtins.input = old_input
        os.chdir(old)
        after = files(root)
        new = after - before
        if f["backup"]:
            # whatever is in the run directory now was written by the run
            new = {x for x in after if x not in before or x.parent == d}
        r["newfiles"] = sorted(comps(root, x) for x in new)
        r["newdirs"] = sorted(comps(root, x) for x in {y.parent for y in new})
    return r
