import ini
import models
import numpy as np
import world
from drvlib import err_class, fx, i32

S = 10000


def setup():
    world.load()


def run(c, scratch):
    ax = c["axes"]
    o, d, n = ([a[k] for a in ax] for k in ("o", "d", "n"))
    # a marker object in the centre of one cell, small enough to hold only that cell
    mark = [(o[j] + (c["mark"][j] + .5) * d[j]) / S for j in range(3)]
    size = 0.8 * min(d[0], d[1]) / S
    conf = {"run": {"runname": "r", "outputs": ["npz"]},
            "model": models.model(n, [v / S for v in d], [v / S for v in o], heterogeneity_level=c["level"]),
            "strata": models.strata(ae=("t",)),
            "t": ini.element("trough", te_xyz=[[mark[0], mark[1], mark[2] + 0.05 * d[2] / S]], facies=["B"],
                             length=size, width=size, depth=0.2 * d[2] / S),
            "hydraulics": ini.hydraulics(models.FAC)}
    # extents in the decimal notation a user writes
    for j, k in enumerate(("lx", "ly", "lz")):
        conf["model"][k] = repr(n[j] * d[j] / S)
    r = {"key": c["key"], "axes": ax, "mark": c["mark"]}
    try:
        w = world.build(conf, scratch, 1)
        g = w.grid
        r.update(out="ok", n=[i32(v) for v in (g.nx, g.ny, g.nz)],
                 xs=[[fx(v, S) for v in a] for a in (g.x, g.y, g.z)],
                 meshshape=[list(np.shape(a)) for a in (g.X, g.Y, g.Z)],
                 mesh=[np.vectorize(lambda v: fx(v, S))(np.asarray(a)).tolist() for a in (g.X, g.Y, g.Z)],
                 shapes={k: list(v.shape) for k, v in w.data.items() if isinstance(v, np.ndarray)},
                 hits=[[int(v) for v in t] for t in np.argwhere(w.data["ha"] >= 0)][:20])
    except Exception as e:
        r.update(out=err_class(e), msg=str(e)[:300])
    return r
