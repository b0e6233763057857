import hashlib
import math
import random

import ini
import numpy as np
import world
from drvlib import err_class, quiet, scratch_dir

SECT = ("run", "model", "strata", "hydraulics", "flowtrans")
RAW = {"lag", "strata_contact_models", "rundir", "modeldir"}       # not settings of the model


def setup():
    world.load()


def norm(v):
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(norm(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join("%s:%s" % (k, norm(v[k])) for k in sorted(v)) + "}"
    if isinstance(v, (bool, np.bool_)) or v is None:
        return str(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return "nan" if math.isnan(v) else "%.9g" % v
    return str(v)


def read(secs, scratch, seed):
    """Settings from a file and the model they give."""
    r, S = {"out": "ok", "gen": "", "model": [], "sections": []}, {}
    with scratch_dir(scratch) as d:
        (d / "x.ini").write_text(ini.text(secs))
        with quiet():
            try:
                p = world.P.parameters(str(d / "x.ini"))
            except Exception as e:
                r.update(out=err_class(e), msg=repr(e)[:300])
                return r, S
            for n, v in list(zip(SECT, p[:5])) + sorted(p[5].items()):
                for k, x in v.items():
                    if k not in RAW:
                        S[n + "." + k] = norm(sorted(x) if k == "outputs" else x)
            r["sections"] = sorted(p[5])
            try:
                run, model, hyd = world.P.setup_from_inifile(str(d / "x.ini"), None)
                np.random.seed(seed)
                random.seed(seed)
                model.generate_model()
                world.AP(model)
                if model.generate_hydraulics is True:
                    model.generate_hydraulic_parameters(hyd)
                r["model"] = ["%s %s" % (k, hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:16]) for k, a in sorted(model.data.items())]
                r["gen"] = "ok"
            except Exception as e:
                r["gen"] = repr(e)[:200]
    return r, S


def run(c, scratch):
    old, so = read(c["old"], scratch, c["seed"])
    new, sn = read(c["new"], scratch, c["seed"])
    both = set(so) & set(sn)
    old["settings"] = ["%s=%s" % (k, so[k]) for k in sorted(both)]
    new["settings"] = ["%s=%s" % (k, sn[k]) for k in sorted(both)]
    return {"key": c["key"], "refused": c["refused"], "old": old, "new": new, "dev": c["dev"]}
