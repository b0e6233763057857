"""Whole runs of files with arbitrary combinations of features; only the written results are looked at."""
import os
import zlib

import ini
import numpy as np
import world
from drvlib import err_class, fx, i32, quiet, scratch_dir

INT = ("strata", "ae", "ha", "hat", "facies")


def setup():
    world.load()


def run(c, scratch):
    r = {"key": c["key"], **c["decl"]}
    hy = c["conf"]["hydraulics"]
    r.update(kl=[fx(v, 100000) for v in hy["k_h"]], nl=[fx(v, 100000) for v in hy["n"]], al=[fx(v, 10000) for v in hy["k_ratio"]])
    cwd = os.getcwd()
    try:
        with scratch_dir(scratch) as d:
            (d / "x.ini").write_text(ini.text(c["conf"]))
            np.random.seed(c["seed"] % 2 ** 32)
            os.chdir(str(d))
            with quiet():
                world.hyvr.run(str(d / "x.ini"), None)
            r["reals"] = [real(p, d) for p in sorted(d.rglob("*.npz"))]
        r["out"] = "ok"
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
    finally:
        os.chdir(cwd)
    return r


def real(p, d):
    name = p.parent.name
    q = {"dir": int(name.split("_")[-1]) if "_" in name else 1}
    with np.load(str(p)) as z:
        D = {k: z[k] for k in z.files}
    q["keys"] = sorted(D)
    q["shapes"] = [list(s) for s in sorted({a.shape[:3] for a in D.values()})]
    kinds, cols = {}, []
    for x, y in np.ndindex(*D["facies"].shape[:2]):
        col = []
        for k in range(D["facies"].shape[2] - 1, -1, -1):
            v = tuple(i32(D[a][x, y, k]) for a in ("strata", "ae", "ha", "hat", "facies")) + (fx(D["azim"][x, y, k]), fx(D["dip"][x, y, k]))
            col.append(kinds.setdefault(v, len(kinds) + 1))
        cols.append(col)
    q["kinds"] = [list(v) for v in kinds]
    q["cols"] = [list(c) for c in sorted({tuple(c) for c in cols})]
    if "k_iso" in D:
        k, n, f = D["k_iso"], D["poros"], D["facies"]
        q["pos"] = bool(np.isfinite(k).all() and (k > 0).all() and np.isfinite(n).all())
        kn = sorted({(i32(a), fx(b, 100000), fx(e, 100000)) for a, b, e in zip(f.ravel(), k.ravel(), n.ravel())}) if q["pos"] else []
        q["kn"] = [list(v) for v in kn[:200]]
        if "ktensors" in D and "anirat" in D and q["pos"]:
            tr = np.trace(D["ktensors"], axis1=3, axis2=4) / k
            q["fat"] = [list(v) for v in sorted({(i32(a), fx(b, 10000), fx(t, 10000)) for a, b, t in zip(f.ravel(), D["anirat"].ravel(), tr.ravel())})]
    q["sum"] = str(zlib.crc32(b"".join(np.ascontiguousarray(D[a]).tobytes() for a in sorted(D))))
    return q
