"""Cross-section plots of a field in which every cell has its own number."""
import os
import warnings

import ini
import models
import numpy as np
import world
from drvlib import err_class, fx, quiet, scratch_dir

S = 10000
plt = None


def setup():
    global plt
    os.environ["MPLBACKEND"] = "Agg"
    world.load()
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt_
    plt = plt_


def request(q):
    if not q["given"]:
        return None
    at = [v / S for v in q["at"]]
    return at[0] if q["single"] else at


def corners(col):
    """Centres of the cells of a mesh, each (rows, columns, 2)."""
    co = np.asarray(col.get_coordinates(), float)
    return (co[:-1, :-1] + co[1:, :-1] + co[:-1, 1:] + co[1:, 1:]) / 4


def panel(fig, c):
    ax = fig.axes[0]
    col = ax.collections[0]
    mid = corners(col)
    n = mid.shape[:2]
    v = np.asarray(col.get_array()).reshape(n)
    other = 0 if ax.get_xlabel() == "x" else 1
    lim = [list(ax.get_xlim()), list(ax.get_ylim())]
    want = c["xl"] if other == 0 else c["yl"]
    return {"vals": [[fx(x) for x in row] for row in v], "us": [[fx(x, S) for x in row] for row in mid[..., 0]],
            "ws": [[fx(x, S) for x in row] for row in mid[..., 1]], "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
            "cmap": col.get_cmap().name, "limok": bool(np.allclose(lim, want))}


def run(c, scratch):
    from hyvr.postprocess.plotting import cross_section_pcolor
    ax = c["axes"]
    o, d, n = ([a[k] for a in ax] for k in ("o", "d", "n"))
    r = {k: c[k] for k in ("key", "axes", "x", "y", "log", "lims", "cmap")}
    conf = {"run": {"runname": "r"}, "model": models.model(n, [v / S for v in d], [v / S for v in o]),
            "strata": models.strata(ae=("t",)), "t": ini.element("sheet"), "hydraulics": ini.hydraulics(models.FAC)}
    with scratch_dir(scratch) as dd:
        (dd / "x.ini").write_text(ini.text(conf))
        with quiet():
            run_, model, hyd = world.P.setup_from_inifile(str(dd / "x.ini"), None)
    i, j, k = np.meshgrid(*(np.arange(m) for m in n), indexing="ij")
    ids = 25. * i + 5 * j + k + 1
    field = 10. ** (ids - 60) if c["log"] else ids
    model.data = {"k_iso": field, "facies": np.zeros(n)}
    before = field.copy()
    # limits for the panels across y (horizontal axis x) and across x (horizontal axis y)
    z = [(o[2] - d[2]) / S, (o[2] + 1.5 * n[2] * d[2]) / S]
    xl = [[(o[0] - 2 * d[0]) / S, (o[0] + n[0] * d[0] * .75) / S], z]
    yl = [[(o[1] - 1.5 * d[1]) / S, (o[1] + n[1] * d[1] * 1.25) / S], [z[0] - 1, z[1] + 2]]
    kw = {}
    if c["lims"]:
        kw = dict(xlim_y=xl[0], ylim_y=xl[1], xlim_x=yl[0], ylim_x=yl[1])
    if c["cmap"]:
        kw["cmap"] = c["cmap"]
    if c["log"]:
        kw["log"] = True
    if c["x"]["given"]:
        kw["x"] = request(c["x"])
    if c["y"]["given"]:
        kw["y"] = request(c["y"])
    plt.close("all")
    shown, figs, real = set(), [], plt.show

    def show(*a, **k):
        for num in plt.get_fignums():
            if num not in shown:
                shown.add(num)
                figs.append(plt.figure(num))
        return real(*a, **k)
    plt.show = show
    try:
        with quiet() as (out, err), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cross_section_pcolor(model, "k_iso", **kw)
            for num in plt.get_fignums():
                if num not in shown:
                    figs.append(plt.figure(num))
        r.update(out="ok", panels=[panel(f, {"xl": xl, "yl": yl}) for f in figs], shown=len(figs) == len(shown),
                 kept=model.data["k_iso"] is field and bool((field == before).all()),
                 warnings=sum("not in model domain" in x for x in err.getvalue().splitlines()))
    except Exception as e:
        r.update(out=err_class(e), msg=str(e)[:300])
    finally:
        plt.show = real
        plt.close("all")
    return r
