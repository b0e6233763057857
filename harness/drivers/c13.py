import ini
import models
import world
from drvlib import dyadic, err_class, fx, i32

F = world.FACIES[:7]


def setup():
    world.load()


def run(c, scratch):
    r = {"key": c["key"], "op": "trough"}
    try:
        return trough(c, r, scratch)
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
        return r


def trough(c, r, scratch):
    n, d, o = c["n"], c["d"], c["o"]
    L = [n[j] * d[j] for j in range(3)]
    layered = c["structure"] in ("dip", "bulb_sets", "random")
    fac = F if layered else [F[1], F[3], F[6]]
    az, dp = c["ang"]
    azr, dpr, alr = [az, az], [dp, dp], [c["alpha"]] * 2
    if c["wide"]:
        azr, dpr, alr = [az, az + 25], [dp, dp + 10], [-40, 60]
    top = o[2] + L[2]
    i, j, k = n[0] // 2, n[1] // 2, n[2] - 2
    cell = lambda i, j, k: [o[0] + (i + .5) * d[0], o[1] + (j + .5) * d[1], o[2] + (k + .5) * d[2]]
    frac = lambda u, v, w: [round(o[0] + u * L[0], 3), round(o[1] + v * L[1], 3), round(o[2] + w * L[2], 3)]
    if c["place"] == "patches":
        P = [[2.5 + 5 * a, 2 + 4 * b, 1.25] for a in range(8) for b in range(8)]
    else:
        P = {"cell": [cell(i, j, k), cell(i + 1, j, n[2] // 2)],
             "between": [frac(.45, .55, .9), frac(.3, .4, .55), frac(.8, .7, .71)],
             "corner": [frac(0, 0, .8), frac(1, .1, .7)],
             "outside": [frac(-.12, .5, .85), frac(.5, 1.15, .75)],
             "far": [frac(2.7, .4, .8), frac(.3, -4.2, .5), frac(-1.6, 3.1, .65)],
             "top": [cell(i, j, n[2] - 1)[:2] + [top], cell(0, j, 0)[:2] + [top - d[2]]]}[c["place"]]
    dims = [v / 1000 for v in c["dims"]]
    kw = dict(structure=c["structure"], length=dims[0], width=dims[1], depth=dims[2], facies=fac, azimuth=azr, dip=dpr, paleoflow=alr,
              te_xyz=P, dipset_dist=.3, bulbset_dist=.25, size_ztrend=[t / 1000 for t in c["trend"]])
    if c["trend"] == [1000, 1000] and c["lag"]:
        del kw["size_ztrend"]
    if layered:
        kw.update(altfacies=[[fac[(q + 1) % len(fac)]] for q in range(len(fac))])
    if c["lag"]:
        kw.update(lag_height=c["lag"] / 1000, lag_facies="H")
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model(n, d, o, hydraulics=False, periodic=c["periodic"]),
            "strata": models.strata(("s",), [], ("e",), [["e"]], bgf=["A"]), "e": ini.element("trough", **kw),
            "hydraulics": ini.hydraulics(world.FACIES)}
    w = world.build(conf, scratch, c["seed"])
    g, D = w.grid, w.data
    cells = [{"p": [fx(g.x[x]), fx(g.y[y]), fx(g.z[z])], "ha": i32(D["ha"][x, y, z]), "f": i32(D["facies"][x, y, z]),
              "az": fx(D["azim"][x, y, z]), "dp": fx(D["dip"][x, y, z])} for x in range(n[0]) for y in range(n[1]) for z in range(n[2])]
    r.update(out="ok", many=bool(c.get("many")), ex=dyadic(d[2], o[2], *[p[2] for p in P]), length=c["dims"][0], width=c["dims"][1], depth=c["dims"][2], trend=c["trend"], z0=fx(o[2]), lz=fx(L[2]),
             dom={"lx": fx(L[0]), "ly": fx(L[1]), "periodic": c["periodic"]}, structure=c["structure"], alpha=c["alpha"], alphas=alr,
             azim=azr, dip=dpr, dist=300, bdist=250, lag=c["lag"], lagf=7, facies=[world.FACIES.index(f) for f in fac],
             troughs=[[fx(v) for v in p] for p in sorted(P, key=lambda p: -p[2])], cells=cells)
    return r
