"""Centrelines of channels in very wide domains, and the directions at the steps of their model."""
import ini
import models
import numpy as np
import world
from drvlib import err_class, fx


def setup():
    world.load()


def run(c, scratch):
    r = {"key": c["key"], "row": c["row"], "eps": c["eps"], "ds": c["ds"]}
    try:
        a = objects(c, scratch, c["eps"] * 1e-6)
        b = objects(c, scratch, c["loud"] / 1000) if c["loud"] else []
        r["channels"] = [channel(o, c["eps"] * 1e-6) for o in a]
        r["louder"] = [turns(o, c["loud"] / 1000) for o in b]
        r["out"] = "ok"
    except Exception as x:
        r.update(out=err_class(x), msg=repr(x)[:300])
    return r


def objects(c, scratch, eps):
    ds = c["ds"] / 10
    ly = c["steps"] * ds / 2
    e = ini.element("channel", agg=1, width=2, depth=1, h=c["h"] / 10, k=c["k"] / 10, ds=ds, eps_factor=eps, channel_no=c["number"],
                    flow_angle=c["angle"])
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model((2, 4, 4), (1e6, ly / 4, .5), (-7, 3, 0), hydraulics=False),
            "strata": models.strata(("s",), [], ("e",), [["e"]]), "e": e, "hydraulics": ini.hydraulics(world.FACIES)}
    w = world.build(conf, scratch, c["seed"], assign=False)
    return [o for a in w.model.strata[0].aes for o in a.object_list if len(o.x_center) > 20]


def turns(o, eps):
    """Directions at which a centreline begins to turn the other way."""
    if np.abs(np.asarray(o.x_center) - 1e6).max() > 8e5:     # may be cut off by the domain
        return []
    th = np.unwrap(np.arctan2(np.asarray(o.vy, float), np.asarray(o.vx, float)))
    th = th[np.concatenate(([True], np.diff(th) != 0))]
    q = np.diff(th)
    return [fx((th[i + 1] - th[0]) / eps, 100) for i in np.nonzero(q[:-1] * q[1:] < 0)[0]]


def channel(o, eps):
    x, y, vx, vy = (np.asarray(v, float) for v in (o.x_center, o.y_center, o.vx, o.vy))
    dx, dy = np.diff(x), np.diff(y)
    step, speed = np.hypot(dx, dy), np.hypot(vx, vy)
    sin = np.abs(dx * vy[:-1] - dy * vx[:-1]) / (step * speed[:-1])
    ahead = (dx * vx[:-1] + dy * vy[:-1] > 0).all()
    th = np.unwrap(np.arctan2(vy, vx))
    t, uneven = nodes((th - th[0]) / eps)
    return {"tangent": fx(sin.max(), 1000000) if ahead else 1000000, "step": fx(step.max() / step.min() - 1, 1000000),
            "uneven": uneven, "th": [fx(v, 100) for v in t]}


def nodes(th):
    """Between the steps of the model the direction is interpolated linearly: its values at the kinks."""
    d = np.diff(th)
    tol = 1e-6 * np.abs(d).max()
    seg, i = [], 0                    # stretches of constant slope
    while i < len(d):
        j = i
        while j + 1 < len(d) and abs(d[j + 1] - d[i]) <= tol:
            j += 1
        if j > i:
            seg.append((i, (th[j + 1] - th[i]) / (j + 1 - i)))
        i = j + 1
    if len(seg) < 4:
        return [0], True
    t, u = [0.], [0.]
    for (i, a), (j, b) in zip(seg, seg[1:]):
        p = (th[j] - th[i] + a * i - b * j) / (a - b)
        u.append(p)
        t.append(th[i] + a * (p - i))
    t, u = t[:-2], u[:-2]             # the end is not looked at
    m = np.median(np.diff(u))
    for i in range(len(u) - 1, 0, -1):                # a step at which the slope did not change
        if abs(u[i] - u[i - 1] - 2 * m) < .2 * m:
            u.insert(i, (u[i] + u[i - 1]) / 2)
            t.insert(i, (t[i] + t[i - 1]) / 2)
    g = np.diff(u)
    return t, bool((np.abs(g - np.median(g)) > .2 * np.median(g)).any())
