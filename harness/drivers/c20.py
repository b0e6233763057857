import math

import ini
import models
import numpy as np
import world
from drvlib import err_class, fx

F = world.FACIES[:3]
HK = [(.4, .8), (.3, .9), (.4, 1.5)]


def setup():
    world.load()


def run(c, scratch):
    r = {"key": c["key"], "op": c["op"]}
    try:
        return globals()[c["op"]](c, r, scratch)
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
        return r


def conf(c, element, n, d, o):
    kind = c.get("elements", "one")
    lz = n[2] * d[2]
    cz = [["flat", o[2] + lz * .375]] if kind == "strata" else []
    if c.get("rough") and kind == "strata":
        cz = [["random", o[2] + lz * .375, 0.15, 2, 2]]
    ns = len(cz) + 1
    e = dict(element)
    if c.get("rough"):
        e["contact_model"] = ["random", 0.02, 2, 2]
    return {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model(n, d, o, hydraulics=False),
            "strata": models.strata(["s%d" % i for i in range(ns)], cz, ("e",), [["e"]] * ns, zmean=[[2.2 if kind == "thin" else 1000]] * ns),
            "e": e, "hydraulics": ini.hydraulics(F)}


def make(c, scratch, element, n, d, o):
    w = world.build(conf(c, element, n, d, o), scratch, c["seed"], assign=False)
    w.mid = [o[0] + n[0] * d[0] / 2, o[1] + n[1] * d[1] / 2]
    w.all = [a for s in w.model.strata for a in s.aes]
    return w


def trough_objs(w, a):
    return [{"x": fx(q.x - w.mid[0]), "y": fx(q.y - w.mid[1]), "z": fx(q.z)} for q in a.object_list]


def common(r, c, w, n, d, o):
    r.update(out="ok", lx=fx(n[0] * d[0]), ly=fx(n[1] * d[1]), z0=fx(o[2]), lz=fx(n[2] * d[2]),
             tol=0 if c.get("elements", "one") != "thin" and not c.get("rough") else 3)


def edges(a):
    return {"top": fx(np.mean(a.top_surface.surface)), "bot": fx(np.max(a.bottom_surface.surface))}


def troughs(c, r, scratch):
    n, d, o = c["n"], c["d"], c["o"]
    lam = 36
    e = ini.element("trough", agg=c["agg"] / 1000, depth=1, buffer=c["buffer"] / 1000, facies=["A"], trough_density=lam / (n[0] * d[0] * n[1] * d[1]))
    mig = c.get("step")
    if mig:
        e["migrate"] = [v / 1000 for v in mig]
    w = make(c, scratch, e, n, d, o)
    common(r, c, w, n, d, o)
    r.update(agg=c["agg"], depth=1000, buffer=c["buffer"], lam=lam, step=mig or [], aes=[dict(edges(a), objs=trough_objs(w, a)) for a in w.all])
    return r


def migrate(c, r, scratch):
    return troughs(c, r, scratch)


def manual(c, r, scratch):
    n, d, o = c["n"], c["d"], c["o"]
    P = [[o[0] + .125 + .5 * i, o[1] + (i * 7 % 5) * .5, o[2] + (i * 3 % 7) * .375] for i in range(9)]
    P += [[o[0] - 1.5, o[1] + 40, o[2] + 1], [P[0][0], P[0][1], P[0][2] + .0625]]
    P.sort(key=lambda p: {"down": -p[2], "up": p[2], "mixed": math.sin(77 * p[0])}[c["order"]])
    e = ini.element("trough", agg=1, depth=1, facies=["A"], te_xyz=P, trough_density=3)
    if c["trend"]:
        e["size_ztrend"] = [.5, 1.5]
    w = make(c, scratch, e, n, d, o)
    r.update(out="ok", given=[[fx(p[0] - w.mid[0]), fx(p[1] - w.mid[1]), fx(p[2])] for p in P], objs=trough_objs(w, w.all[0]))
    return r


def bins(v, lo, hi, b):
    k = np.floor((np.asarray(v) - lo) / (hi - lo) * b).astype(int)
    k[k == b] = b - 1
    return [int((k == q).sum()) for q in range(b)], int(((k < 0) | (k >= b)).sum())


def pairs(u, v, b):
    """u, v in [0, 1): b x b bins."""
    k = np.clip((np.asarray(u) * b).astype(int), 0, b - 1) * b + np.clip((np.asarray(v) * b).astype(int), 0, b - 1)
    return [int((k == q).sum()) for q in range(b * b)]


def spread(c, r, scratch):
    n, d, o = c["n"], c["d"], c["o"]
    area = n[0] * d[0] * n[1] * d[1]
    lam = c["density"] / 1000
    lo, hi = c["flow"]
    agg = n[2] * d[2] / (c["levels"] - .5)
    e = ini.element("trough", agg=agg, depth=.01, facies=["A"], trough_density=lam / area, paleoflow=[lo, hi])
    w = make(c, scratch, e, n, d, o)
    ob = w.all[0].object_list
    z = np.array([q.z for q in ob])
    k = np.round((o[2] + n[2] * d[2] - z) / agg).astype(int)
    x, y, al = (np.array([getattr(q, f) for q in ob]) for f in ("x", "y", "alpha"))
    X, Y, A = (x - o[0]) / (n[0] * d[0]), (y - o[1]) / (n[1] * d[1]), (al - lo) / (hi - lo)
    xb, xo = bins(X, 0, 1, 8)
    yb, yo = bins(Y, 0, 1, 8)
    ab, ao = bins(A, 0, 1, 8)
    nl = c["levels"]
    r.update(out="ok", counts=[int((k == q).sum()) for q in range(nl)], lam=c["density"], disp=int(1000 * math.sqrt((2 * lam * lam + lam) * nl)),
             xbins=xb, ybins=yb, abins=ab, xybins=pairs(X, Y, 4), xabins=pairs(X, A, 3), pout=xo + yo, aout=ao)
    return r


def channel_element(c, **kw):
    e = ini.element("channel", agg=c["agg"] / 1000, depth=c["dims"][1] / 1000, width=c["dims"][0] / 1000, buffer=c.get("buffer", 0) / 1000, facies=["A"],
                    ds=c["ds"] / 1000, eps_factor=0, channel_no=c.get("number", 1), flow_angle=c["angle"])
    if c.get("mig", -1) >= 0:
        e["mig"] = c["mig"] / 1000
    if c.get("trend"):
        e["size_ztrend"] = [.5, 1.5]
    e.update(kw)
    return e


def near(pts):
    """Without the part far behind the domain."""
    k = len(pts)
    while k > 1 and abs(pts[k - 1][0]) + abs(pts[k - 1][1]) > 60000:
        k -= 1
    return pts[:k]


def channel_objs(w, a):
    return [{"z": fx(q.ztop), "w": fx(q.width), "d": fx(q.depth), "pts": near([[fx(x - w.mid[0]), fx(y - w.mid[1])] for x, y in zip(q.x_center, q.y_center)])}
            for q in a.object_list]


def channels(c, r, scratch):
    n, d, o = c["n"], c["d"], c["o"]
    w = make(c, scratch, channel_element(c), n, d, o)
    common(r, c, w, n, d, o)
    if c["trend"]:
        r["tol"] = 3
    g = w.grid
    r.update(angle=c["angle"], number=c["number"], agg=c["agg"], depth=c["dims"][1], width=c["dims"][0], buffer=c["buffer"], mig=c["mig"], ds=c["ds"],
             trend=[500, 1500] if c["trend"] else [1000, 1000], cells=[[fx(x - w.mid[0]), fx(y - w.mid[1])] for x in g.x for y in g.y],
             aes=[{"top": fx(np.mean(a.top_surface.surface)), "bot": fx(np.mean(a.bottom_surface.surface)), "objs": channel_objs(w, a)} for a in w.all])
    return r


def dirs(q, angle):
    dx, dy = np.diff(q.x_center), np.diff(q.y_center)
    return (np.arctan2(dy, dx) - math.radians(angle) + math.pi) % (2 * math.pi) - math.pi


def meanders(c, r, scratch):
    n, d, o = c["n"], c["d"], c["o"]
    c = dict(c, number=3)
    w = make(c, scratch, channel_element(c, eps_factor=c["eps"] / 1000, h=.4, k=1.5), n, d, o)
    common(r, c, w, n, d, o)
    r.update(angle=c["angle"], ds=c["ds"], spread=9 * c["eps"],
             aes=[{"objs": [dict(p, dirs=[fx(v) for v in dirs(q, c["angle"])]) for p, q in zip(channel_objs(w, a), a.object_list)]} for a in w.all])
    return r


def starts(c, r, scratch):
    n, d, o = (3, 4, 3), (.75, .375, .5), c["o"]
    c = dict(c, number=c["many"], mig=700, agg=600)
    w = make(c, scratch, channel_element(c), n, d, o)
    t = math.radians(c["angle"])
    W = abs(n[0] * d[0] * math.sin(t)) + abs(n[1] * d[1] * math.cos(t))
    ob = w.all[0].object_list
    off = [(-(q.x_center[0] - w.mid[0]) * math.sin(t) + (q.y_center[0] - w.mid[1]) * math.cos(t)) if len(q.x_center) else math.nan for q in ob]
    m = c["many"]
    one, two = np.array(off[:m]), np.array(off[m:2 * m])
    ok = ~np.isnan(one) & ~np.isnan(two)
    A, B = (one / W + .5)[ok], ((two - one) / 1.4 + .5)[ok]
    s, o1 = bins(A, -1e-9, 1 + 1e-9, 8)
    v, o2 = bins(B, -1e-9, 1 + 1e-9, 8)
    r.update(out="ok", starts=s, moves=v, both=pairs(A, B, 3), order=[int((np.diff(A) > 0).sum()), int((np.diff(A) <= 0).sum())], out1=o1 + int((~ok).sum()), out2=o2)
    return r


def ferguson(c, r, scratch):
    # flow across a wide domain: no part of a centreline is cut off
    n, d, o = (100, 8, 1), (1, 1, 1), c["o"]
    h, k = HK[c["hk"] - 1]
    c = dict(c, agg=600, dims=[1000, 300], ds=200, angle=90, number=c["many"])
    w = make(c, scratch, channel_element(c, eps_factor=c["eps"] / 1000, h=h, k=k), n, d, o)
    D = [dirs(q, 90) for q in w.all[0].object_list]
    A = np.concatenate(D)
    r.update(out="ok", hk=c["hk"], eps=c["eps"], n=len(A), var=int(1e6 * np.mean(A ** 2)), len=min(len(v) for v in D), means=[fx(np.mean(v), 100000) for v in D])
    return r
