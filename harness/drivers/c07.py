import hashlib
import pathlib
import random

import ini
import models
import numpy as np
from drvlib import quiet, scratch_dir

hyvr = P = AP = OUT = None


def setup():
    global hyvr, P, AP, OUT
    import hyvrload
    hyvr = hyvrload.load()
    import hyvr.input.parameters as P_
    from hyvr.assign_points import assign_points
    from hyvr.postprocess.output import create_outputs
    P, AP, OUT = P_, assign_points, create_outputs


def state():
    return hashlib.sha1(repr((np.random.get_state()[1].tobytes(), np.random.get_state()[2:], random.getstate())).encode()).hexdigest()[:12]


def seed(s):
    np.random.seed(s)
    random.seed(s)


def digest(arrays):
    h = hashlib.sha1()
    for k in sorted(arrays):
        a = np.ascontiguousarray(arrays[k])
        h.update(k.encode() + str(a.shape).encode() + str(a.dtype).encode())
        h.update(repr(a.tolist()).encode() if a.dtype == object else a.tobytes())
    return h.hexdigest()[:12]


def npz(f):
    with np.load(str(f), allow_pickle=True) as z:
        return digest({k: z[k] for k in z.files})


def live(model):
    return digest({k: v for k, v in model.data.items() if isinstance(v, np.ndarray)})


def geometry(model):
    return digest({k: model.data[k] for k in ("facies", "azim", "dip", "strata", "ae", "ha", "hat")})


def run(c, scratch):
    recs = []

    def rec(**kw):
        kw["key"] = "%s.%d" % (c["key"], len(recs) + 1)
        recs.append(kw)
    with scratch_dir(scratch) as root, quiet():
        cur = None
        for k, op in enumerate(c["hist"]):
            try:
                if op["op"] in ("fresh", "reuse"):
                    seed(op["seed"])
                    if op["op"] == "fresh" or cur is None or cur[0] != op["file"]:
                        d = root / ("d%d" % k)
                        d.mkdir()
                        (d / "x.ini").write_text(ini.text(models.mix(op["file"])))
                        _, m, hyd = P.setup_from_inifile(str(d / "x.ini"), None)
                        seed(op["seed"])
                        cur = [op["file"], m, hyd, d]
                    f, m, hyd, d = cur
                    for i in range(op["num"]):
                        st = state()
                        m.generate_model()
                        AP(m)
                        if m.generate_hydraulics is True:
                            m.generate_hydraulic_parameters(hyd)
                        nxt = state()
                        o = d / ("o%d_%d" % (k, i))
                        o.mkdir()
                        OUT(m, o, "r", ["npz"])
                        rec(op="gen", file=f, st=st, content=npz(o / "r.npz"), next=nxt)
                elif cur is None and op["op"] != "run":
                    continue
                elif op["op"] == "reassign":
                    f, m, hyd, d = cur
                    a = geometry(m)
                    AP(m)
                    if op["num"] > 1:
                        AP(m)
                    rec(op="same", content=a, again=geometry(m))
                elif op["op"] == "output":
                    f, m, hyd, d = cur
                    a = live(m)
                    o = d / ("p%d" % k)
                    o.mkdir()
                    OUT(m, o, "r", ["npz", "py", "mat", "h5", "vtr"])
                    b = npz(o / "r.npz")
                    rec(op="same", content=a, again=live(m))
                    OUT(m, o, "r", ["npz"])
                    rec(op="same", content=b, again=npz(o / "r.npz"))
                elif op["op"] == "hydraulics":
                    f, m, hyd, d = cur
                    if m.generate_hydraulics is True:
                        g = geometry(m)
                        seed(op["seed"])
                        st = state()
                        m.generate_hydraulic_parameters(hyd)
                        rec(op="hyd", file=f + g, st=st, content=live(m), next=state())
                        rec(op="same", content=g, again=geometry(m))
                elif op["op"] == "run":
                    d = root / ("r%d" % k)
                    d.mkdir()
                    conf = models.mix(op["file"])
                    conf["run"]["numsim"] = op["num"]
                    conf["run"]["outputs"] = ["npz", "py"]
                    (d / "x.ini").write_text(ini.text(conf))
                    seed(op["seed"])
                    st = state()
                    hyvr.run(str(d / "x.ini"), None)
                    dirs = {}
                    for p in (d / "r").rglob("*"):
                        if p.is_file() and not p.name.endswith("backup.ini"):
                            dirs.setdefault(str(p.parent.relative_to(d / "r")), []).append(p.name)
                    rec(op="run", file=op["file"], st=st, num=op["num"], want=["r.npz", "r.pickle"],
                        dirs=[{"dir": x, "files": sorted(y), "content": npz(d / "r" / x / "r.npz") if "r.npz" in y else "-"}
                              for x, y in sorted(dirs.items())])
            except Exception as e:
                rec(op="bad", what=repr(e)[:300], at=op)
                break
    return recs
