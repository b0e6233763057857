import ini
import models
import world
from drvlib import dyadic, err_class, fx, i32

F = world.FACIES[:7]
GRIDS = {"fine": ((24, 18, 6), (.35, .3, .4)), "coarse": ((9, 8, 10), (1, 1, .25)), "small": ((12, 10, 6), (.35, .4, .4)), "flat": ((16, 5, 8), (.5, 2, .3))}


def setup():
    world.load()


def run(c, scratch):
    r = {"key": c["key"], "op": "channel"}
    try:
        return channel(c, r, scratch)
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
        return r


def channel(c, r, scratch):
    n, d = GRIDS["small" if c["angle"] in (90, -90) and c["grid"] == "fine" else c["grid"]]
    o = (-12, 30, 5) if c["shift"] else (0, 0, 0)
    L = [round(n[j] * d[j], 9) for j in range(3)]
    dip = c["structure"] == "dip"
    fac = F if dip else [F[1], F[3], F[6]]
    dpr = [c["dip"], c["dip"] + 8] if c["wide"] and not dip else [c["dip"]] * 2
    az = [c["azim"], c["azim"] + (25 if c["wide"] else 0)]
    kw = dict(azimuth=az, structure=c["structure"], width=c["dims"][0] / 1000, depth=c["dims"][1] / 1000, facies=fac, dip=dpr, dipset_dist=.4, agg=.625 if c["grid"] == "coarse" and c["shift"] else .7,
              ds=.6, h=.4, k=.8, eps_factor=c["eps"] / 1000, channel_no=c["no"], flow_angle=c["angle"], buffer=.2,
              size_ztrend=[t / 1000 for t in c["trend"]])
    if c["trend"] == [1000, 1000] and c["lag"]:
        del kw["size_ztrend"]
    if dip:
        kw.update(altfacies=[[fac[(q + 1) % len(fac)]] for q in range(len(fac))])
    if c["lag"]:
        kw.update(lag_height=c["lag"] / 1000, lag_facies="H")
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model(n, d, o, hydraulics=False, lx=L[0], ly=L[1], lz=L[2]),
            "strata": models.strata(("s",), [], ("e",), [["e"]], bgf=["A"]), "e": ini.element("channel", **kw),
            "hydraulics": ini.hydraulics(world.FACIES)}
    w = world.build(conf, scratch, c["seed"])
    if c["again"]:
        world.AP(w.model)
    g, D = w.grid, w.model.data
    obs = w.model.strata[0].aes[0].object_list
    cols = [{"p": [fx(g.x[x]), fx(g.y[y])],
             "cells": [[i32(D["ha"][x, y, z]), i32(D["facies"][x, y, z]), fx(D["azim"][x, y, z]), fx(D["dip"][x, y, z])] for z in range(n[2])]}
            for x in range(n[0]) for y in range(n[1])]
    r.update(out="ok", width=c["dims"][0], depth=c["dims"][1], trend=c["trend"], z0=fx(o[2]), lz=fx(L[2]), structure=c["structure"],
             azim=az, dip=dpr, dist=400, ds=600, lag=c["lag"], lagf=7, facies=[world.FACIES.index(f) for f in fac], zs=[fx(v) for v in g.z],
             chans=[{"pts": [[fx(x), fx(y)] for x, y in zip(ob.x_center, ob.y_center)], "ztop": fx(ob.ztop), "ex": dyadic(ob.ztop, *g.z)} for ob in obs], cols=cols)
    return r
