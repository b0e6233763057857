import models
import numpy as np
import world
from drvlib import err_class, fx

ho = None


def setup():
    global ho
    world.load()
    import hyvr.optimized as ho_
    ho = ho_


def run(c, scratch):
    r = {"key": c["key"]}
    try:
        {"direct": direct, "model": model}[c["op"]](c, r, scratch)
        r["out"] = "ok"
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
    return r


def cell(az, dp, a, k, t):
    return {"az": fx(az), "dp": fx(dp), "a": fx(a, 10000), "zero": bool(k == 0),
            "t": [[fx(t[i][j] / (k if k else 1), 10000) for j in range(3)] for i in range(3)]}


def direct(c, r, scratch):
    """The tensors of all cells of a grid, one case per cell."""
    n = c["n"]
    q = c["cases"]
    az, dp, an, k = (np.zeros(n) for _ in range(4))
    ks = [1, 1e-9, 0.003, 250., 1e4, 0, 7.5e-5]
    pos = [(x, y, z) for x in range(n[0]) for y in range(n[1]) for z in range(n[2])]
    for i, p in enumerate(pos):
        az[p], dp[p], an[p] = q[i]["az"] / 1000, q[i]["dp"] / 1000, q[i]["a"] / 10000
        k[p] = ks[i % 7]
    T = np.full(tuple(n) + (3, 3), 77.)
    ho.set_anisotropic_ktensor(T, k, az * np.pi / 180, dp * np.pi / 180, an)
    r.update(grid=list(n), shape=list(T.shape), cells=[cell(az[p], dp[p], an[p], k[p], T[p]) for p in pos])


def model(c, r, scratch):
    conf = models.mix(c["mix"])
    conf["hydraulics"]["k_ratio"] = c["ratios"]
    for k, v in conf.items():
        if "geometry" in v:
            v.update(azimuth=c["az"], dip=c["dp"])
            if v["geometry"] != "sheet":
                v.update(bg_facies="B", bg_azim=c["bg"][0], bg_dip=c["bg"][1])
    conf["model"]["heterogeneity_level"] = c["level"]
    w = world.build(conf, scratch, c["seed"])
    D = w.data
    n = D["facies"].shape
    cells = [cell(D["azim"][p], D["dip"][p], D["anirat"][p], D["k_iso"][p], D["ktensors"][p]) for p in np.ndindex(*n)]
    seen, out = set(), []
    for x in cells:
        if str(x) not in seen:
            seen.add(str(x))
            out.append(x)
    r.update(grid=list(n), shape=list(D["ktensors"].shape), cells=out)
