import ini
import models
import numpy as np
import world
from drvlib import err_class, fx, i32

hu = None


def setup():
    global hu
    world.load()
    import hyvr.utils as hu_
    hu = hu_


def run(c, scratch):
    r = {"key": c["key"], "op": c["op"]}
    try:
        return globals()[c["op"]](c, r, scratch)
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
        return r


def grid_of(n, d, o):
    from hyvr.geo.grid import Grid
    return Grid(o[0], o[1], o[2], d[0], d[1], d[2], n[0] * d[0], n[1] * d[1], n[2] * d[2], 0)


def field(g, seed, var, corl, mask, two, model):
    np.random.seed(seed)
    return np.asarray(hu.specsim(g, var, corl, selection_mask=mask, two_dim=two, covmod=model))


def mask_of(kind, n, two, seed):
    sh = tuple(n[:2]) if two else tuple(n)
    if kind == "none":
        return None
    m = np.zeros(sh, dtype=bool)
    if kind == "all":
        m[:] = True
    elif kind == "single":
        m[tuple(k // 2 for k in sh)] = True
    elif kind == "corners":
        m[tuple(0 for _ in sh)] = True
        m[tuple(k - 1 for k in sh)] = True
    else:
        b = tuple(slice(1 if k > 2 else 0, k - 1 if k > 3 else k) for k in sh)
        m[b] = True
        if kind == "ragged":
            rs = np.random.RandomState(seed)
            keep = rs.rand(*sh) < .5
            m &= keep
            m[tuple(s.start for s in b)] = True
            m[tuple(s.stop - 1 for s in b)] = True
    return m


def box_of(m):
    ix = np.where(m)
    return tuple(slice(a.min(), a.max() + 1) for a in ix)


def support(c, r, scratch):
    n, two, model = c["n"], c["two"], c["model"]
    g = grid_of(n, c["d"], c["o"])
    corl = [1.5 * c["d"][0], 2 * c["d"][1]] + ([] if two else [1.2 * c["d"][2]])
    m = mask_of(c["mask"], n, two, c["seed"])
    Y = field(g, c["seed"], 2.5, corl, m, two, model)
    sh = tuple(n[:2]) if two else tuple(n)
    if m is None:
        b = tuple(slice(0, k) for k in sh)
        full = Y if Y.shape == sh else np.zeros(sh)
        agree = Y.shape == sh
        shape, mk = list(Y.shape), []
    else:
        b = box_of(m)
        bm = np.zeros(sh, dtype=bool)
        bm[b] = True
        whole = field(g, c["seed"], 2.5, corl, bm, two, model)
        full = np.zeros(sh)
        if whole.shape == (bm.sum(),):
            full[bm] = whole
        full = full[b]
        agree = Y.shape == (m.sum(),) and whole.shape == (bm.sum(),) and bool(np.allclose(full[m[b]], Y, rtol=0, atol=1e-9))
        shape, mk = list(Y.shape), [int(m.sum())]
    Z = field(g, c["seed"], 10, corl, m, two, model)
    null = field(g, c["seed"], 0, corl, m, two, model)
    fresh = field(g, c["seed"] + 1, 2.5, corl, m, two, model)
    bx = full.reshape(full.shape + (1,)) if two else full
    r.update(out="ok", n=n, two=two, mask=mk, shape=shape, box=list(bx.shape), finite=bool(np.isfinite(Y).all()), boxsum=fx(bx.mean(), 1000000),
             null=fx(np.abs(null).max(), 1000000), twice=fx(np.abs(Z - 2 * Y).max(), 1000000) if Z.shape == Y.shape else 999, agree=agree,
             varies=[bool(np.abs(np.diff(bx, axis=a)).max(initial=0) > 1e-9) for a in range(3)],
             lines=[fx(np.abs(bx.mean(axis=a)).max(), 1000000) for a in range(3)], fresh=bool(fresh.shape == Y.shape and np.abs(fresh - Y).max() > 1e-6))
    return r


def cov(c, r, scratch):
    two, model, a = c["two"], c["model"], c["axis"] - 1
    d = c["d"]
    odd = 1 if c["odd"] else 0
    # cells per half correlation length
    k = [1, 1, 1]
    k[min(a, 1) if two else a] = 2
    size = [(28, 24, 2), (14, 14, 16)][0 if two else 1]
    n = [s * q + odd for s, q in zip(size, k)]
    corl = [2 * k[q] * d[q] for q in range(2 if two else 3)]
    if c["mask"] == "none":
        g, m, sh = grid_of(n, d, c["o"]), None, tuple(n[:2]) if two else tuple(n)
    else:
        big = [q + 3 for q in n]
        g = grid_of(big, d, c["o"])
        s2 = tuple(big[:2]) if two else tuple(big)
        m = np.zeros(s2, dtype=bool)
        sh = tuple(n[:2]) if two else tuple(n)
        m[tuple(slice(1 + q % 2, 1 + q % 2 + n[q]) for q in range(len(sh)))] = True
    var, skew, mean, tot = 0., 0., 0., 0
    ax = len(sh)
    cc = np.zeros((ax, 3))
    v = 1.7
    for i in range(c["fields"]):
        Y = field(g, c["seed"] * 1000 + i, v, corl, m, two, model).reshape(sh) / np.sqrt(v)
        var += np.mean(Y ** 2)
        skew += np.mean(Y ** 3)
        mean = max(mean, abs(Y.mean()))
        for b in range(ax):
            for q in range(3):
                lag = (q + 1) * k[b]
                A = np.moveaxis(Y, b, 0)
                cc[b, q] += np.mean(A[:-lag] * A[lag:])
    f = c["fields"]
    r.update(out="ok", model=model, var=fx(var / f), skew=fx(skew / f), mean=fx(mean), corr=[[fx(x / f) for x in row] for row in cc])
    return r


def unknown(c, r, scratch):
    n = (5, 4, 3)
    g = grid_of(n, (1, 1, 1), (0, 0, 0))
    field(g, 1, 1, [1, 1] if c["two"] else [1, 1, 1], mask_of(c["mask"], n, c["two"], 1), c["two"], c["model"])
    r.update(out="ok")
    return r


def surface(c, r, scratch):
    n = [24 + c["odd"], 26 + c["odd"], 4]
    n[c["axis"] - 1] *= 2
    d = c["d"]
    corl = [1.5 * d[0], 1.5 * d[1]]
    corl[c["axis"] - 1] *= 4
    s2 = .01
    lz = n[2] * d[2]
    cm = ["random", c["o"][2] + lz / 2, s2, corl[0], corl[1]]
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model(n, d, c["o"], hydraulics=False),
            "strata": models.strata(["a", "b"], [cm if c["what"] == "stratum" else ["flat", c["o"][2] + lz / 8]], ("e",), [["e"], ["e"]],
                                    zmean=[[1000 if c["what"] == "stratum" else lz / 3]] * 2),
            "e": ini.element("sheet", facies=["A"], contact_model=["flat"] if c["what"] == "stratum" else ["random", s2, corl[0], corl[1]]),
            "hydraulics": ini.hydraulics(["A"])}
    D, V, mean, got = np.zeros(2), 0., 0., 0
    i = 0
    while got < c["fields"] // 2 and i < 400:
        w = world.build(conf, scratch, c["seed"] * 1000 + i, assign=False)
        i += 1
        if c["what"] == "stratum":
            S = [w.model.strata[0].bottom_surface.surface]
        else:
            # boundaries between elements that are free of their neighbours
            A = w.model.strata[0].aes
            S = [a.bottom_surface.surface for a, b in zip(A, A[1:])
                 if np.all(a.bottom_surface.surface < a.top_surface.surface) and np.all(a.bottom_surface.surface > b.bottom_surface.surface)]
        for s in S:
            y = np.asarray(s)
            if c["what"] == "stratum":
                mean = max(mean, abs(y.mean() - c["o"][2] - lz / 2))
            y = (y - y.mean()) / np.sqrt(s2)
            V += np.mean(y ** 2)
            D += [np.mean(np.diff(y, axis=a) ** 2) for a in (0, 1)]
            got += 1
    got = max(got, 1)
    r.update(out="ok", axis=c["axis"], mean=fx(mean), var=fx(V / got), diff=[fx(x / got) for x in D], surfaces=got)
    return r
