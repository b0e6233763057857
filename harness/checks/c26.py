import random

import ini
import models

FAC = ["A", "B", "C", "D", "E", "F", "G"]
NONE = -999999


def pick(rnd, *v):
    return rnd.choice(v)


def rng(rnd, lo, hi, step=1):
    a, b = rnd.randrange(lo, hi + 1, step), rnd.randrange(lo, hi + 1, step)
    return [min(a, b), max(a, b)]


def element(e, rnd, o, lz):
    """Features of an element -> its section and its declaration (see Model.tla)."""
    fs = rnd.sample(range(len(FAC) - 1), rnd.randint(1, 4))
    kw = {"structure": e["str"], "facies": [FAC[f] for f in fs],
          "contact_model": ["random", pick(rnd, .01, .05), pick(rnd, 1, 3), pick(rnd, 2, 3)] if e["rough"] else ["flat"]}
    bulb = e["str"] in ("bulb", "bulb_sets", "random")
    t = {"geo": e["geo"], "str": e["str"], "facies": fs, "lag": -1, "bg": [NONE] * 3, "azim": [0, 0], "dip": [0, 0], "flow": [0, 0]}
    if rnd.random() < .8:
        kw["dip"] = rng(rnd, 0 if bulb else -30, 35)
        t["dip"] = [1000 * v for v in kw["dip"]]
    if rnd.random() < .7:
        kw["azimuth"] = rng(rnd, -80, 170, 5)
        t["azim"] = [1000 * v for v in kw["azimuth"]]
    if e["str"] in ("dip", "random"):
        kw["dipset_dist"] = pick(rnd, .2, .45, 1.3)
    if e["str"] in ("bulb_sets", "random"):
        kw["bulbset_dist"] = pick(rnd, .1, .25, .7)
    if e["alt"]:
        kw["altfacies"] = [[FAC[f] for f in rnd.sample(fs, rnd.randint(1, len(fs)))] for _ in fs]
    if e["trend"]:
        kw["size_ztrend"] = [pick(rnd, .6, 1, 1.4), pick(rnd, .5, 1, 1.5)]
    if e["hyt"]:
        for q in rnd.sample(("k_ztrend", "k_xtrend", "n_ztrend", "n_xtrend"), rnd.randint(1, 4)):
            kw[q] = [pick(rnd, .5, 1, 1.25), pick(rnd, .75, 1.5)]
    if e["own"]:
        own = rnd.sample(range(3), rnd.randint(1, 3))
        v = [rnd.randrange(len(FAC)), rnd.randrange(-40, 90), rnd.randrange(-10, 20)]
        for j in own:
            kw[("bg_facies", "bg_azim", "bg_dip")[j]] = FAC[v[0]] if j == 0 else v[j]
            t["bg"][j] = v[j] * (1000 if j else 1)
    if e["lag"]:
        kw.update(lag_height=pick(rnd, .15, .3, .5), lag_facies=FAC[-1])
        t["lag"] = len(FAC) - 1
    if e["buf"]:
        kw["buffer"] = pick(rnd, .2, .5, 1)
    if e["geo"] == "sheet":
        kw["lens_thickness"] = pick(rnd, .4, .7, 1.1, 5) if e["lens"] else -1
    elif e["geo"] == "trough":
        kw.update(agg=pick(rnd, .4, .7, 1.2), depth=pick(rnd, .5, .9, 1.6, 2.5), length=pick(rnd, 1.2, 2.5, 5, 12), width=pick(rnd, 1.5, 3, 5),
                  trough_density=pick(rnd, .02, .05, .15), paleoflow=rng(rnd, -90, 200, 10))
        t["flow"] = [1000 * v for v in kw["paleoflow"]]
        if rnd.random() < .1:
            kw["te_xyz"] = [[o[0] + rnd.randrange(-3, 12), o[1] + rnd.randrange(-3, 12), o[2] + lz * rnd.randrange(17) / 16] for _ in range(rnd.randint(1, 5))]
        if e["mig"]:
            kw["migrate"] = [pick(rnd, 0, 1.5, -3), pick(rnd, 0, .5), pick(rnd, 0, 1, 12), pick(rnd, 0, .3)]
    else:
        kw.update(agg=pick(rnd, .5, .8, 1.2), depth=pick(rnd, .5, .9, 1.4), width=pick(rnd, 1.5, 3), h=pick(rnd, .3, .6), k=pick(rnd, .3, .9),
                  ds=pick(rnd, .5, 1), eps_factor=pick(rnd, 0, .05, .3), channel_no=rnd.randint(1, 3))
        if e["mig"]:
            kw["mig"] = pick(rnd, .5, 2)
        if rnd.random() < .7:
            kw["flow_angle"] = rnd.randrange(-80, 81, 10)
    return ini.element(e["geo"], **kw), t


def world(h, es, rnd):
    n = pick(rnd, (7, 6, 10), (8, 5, 12), (5, 9, 8), (4, 4, 16), (12, 1, 9), (1, 7, 6), (6, 5, 2), (1, 1, 5), (9, 8, 1)) if rnd.random() < .6 else (7, 6, 10)
    d = pick(rnd, (1, 1, .5), (1.5, 1, .375), (.75, 2, .5))
    o = pick(rnd, (0, 0, 0), (-4, 15, -2), (100, -30, 7))
    lz, ns = n[2] * d[2], h["strata"]
    names = ["el%d" % i for i in range(len(es))]
    secs, types = zip(*(element(e, rnd, o, lz) for e in es))
    cz, ins = [], []
    for i in range(ns - 1):
        z = round(o[2] + lz * (i + 1) / ns + pick(rnd, 0, .1, -.2), 3)
        cz.append(["random", z, pick(rnd, .02, .2), pick(rnd, 1.5, 3), 2] if h["rough"] and rnd.random() < .7 else ["flat", z])
    for i in range(ns):
        ins.append(rnd.sample(names, rnd.randint(1, len(names))))
    prob = [[pick(rnd, .1, .5, 1) for _ in x] for x in ins]
    for p in prob:                                # some elements never occur
        if len(p) > 1 and rnd.random() < .2:
            p[rnd.randrange(len(p))] = 0
    zm = [[round(lz * pick(rnd, .15, .3, .6, 3), 3) for _ in x] for x in ins]
    bg = [[rnd.randrange(len(FAC)), rnd.randrange(-60, 60), rnd.randrange(0, 20)] for _ in range(ns)]
    av = h["avul"] / 1000
    conf = {"run": {"runname": "r", "outputs": ["npz"], "numsim": h["numsim"]},
            "model": models.model(n, d, o, periodic=h["periodic"], hydraulics=h["hyd"], anisotropy=h["ani"], heterogeneity=h["het"] != "off",
                                  heterogeneity_level="facies" if h["het"] == "facies" else "internal"),
            "strata": models.strata(["s%d" % i for i in range(ns)], cz, names, ins, prob=prob, zmean=zm, avul_prob=[[av]] * ns,
                                    avul=[[round(f * min(map(min, zm)), 4) for f in (.1, .5)]] * ns if av else None, bgf=[FAC[b[0]] for b in bg], bga=[b[1] for b in bg], bgd=[b[2] for b in bg]),
            "hydraulics": ini.hydraulics(FAC, sig_y=[pick(rnd, .2, 1, 0) for _ in FAC], sig_n=[pick(rnd, .001, 0) for _ in FAC],
                                         k_h=[.05 * (i + 1) for i in range(len(FAC))], ycorlengths=[[pick(rnd, .5, 3), 2, pick(rnd, .25, 1)] for _ in FAC],
                                         ncorlengths=pick(rnd, 1, 2.5))}
    if rnd.random() < .5:
        conf["hydraulics"]["sig_y"] = [.5] * len(FAC)
    for nm, s in zip(names, secs):
        conf[nm] = s
    if h["trends"]:
        for q in rnd.sample(("k_ztrend", "k_xtrend", "n_ztrend", "n_xtrend"), rnd.randint(1, 4)):
            conf["hydraulics"][q] = [pick(rnd, .5, 1), pick(rnd, .75, 1.5)]
    used = [e for e, nm in zip(es, names) if any(nm in x for x in ins)]
    decl = {"file": {"strata": [{"types": [names.index(x) for x, p in zip(ins[i], prob[i]) if p > 0], "bg": [bg[i][0], bg[i][1] * 1000, bg[i][2] * 1000]}
                                for i in range(ns)][::-1], "types": list(types)},
            "flat": not any("te_xyz" in s for s in secs) and not any(c[0] == "random" for c in cz) and not any(e["rough"] for e in used), "n": list(n), "hyd": h["hyd"], "ani": h["ani"],
            "het": h["het"], "trends": h["trends"] or any(e["hyt"] for e in used), "numsim": h["numsim"], "vary": min(conf["hydraulics"]["sig_y"]) > 0}
    return conf, decl


def check(c):
    all_ = c.gen("MCModel", "MCModelBig.cfg" if c.thorough else "MCModel.cfg", workers=8, timeout=3000)
    heads = sorted((x for x in all_ if x["op"] == "head"), key=str)
    by = {g: sorted((x for x in all_ if x["op"] == "element" and x["geo"] == g), key=str) for g in ("sheet", "trough", "channel")}
    rnd = random.Random(c.seed)
    cases = []
    for n in range(6000 if c.thorough else 400):
        h = rnd.choice(heads)
        es = [rnd.choice(by[rnd.choice(("sheet", "trough", "trough", "channel"))]) for _ in range(rnd.randint(1, 4))]
        conf, decl = world(h, es, rnd)
        cases.append({"key": "m%d" % n, "seed": c.seed * 10000 + n, "conf": conf, "decl": decl})
    # more realizations than one has fingers
    for n, k in enumerate((11, 23, 104)):
        h = dict(rnd.choice(heads), strata=1, numsim=k, het="facies", avul=0)
        es = [rnd.choice(by[("sheet", "trough", "sheet")[n]])]
        conf, decl = world(h, es, rnd)
        cases.append({"key": "many%d" % k, "seed": c.seed * 10000 + 9000 + n, "conf": conf, "decl": decl})
    recs = c.drive("c26", cases)
    c.traces = len(recs)
    c.cover["files"] = len(recs)
    c.cover["realizations"] = sum(len(r.get("reals", [])) for r in recs)
    c.cover["distinct cells"] = sum(len(q["kinds"]) for r in recs for q in r.get("reals", []))
    c.assumptions = ["alternating facies are facies of the element, the maximal dip of bulbs is not negative, avulsions are thinner than elements"]
    c.judge("TraceModel", recs)
