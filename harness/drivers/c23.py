"""Parameter files that differ from a base file in some options."""
import math
import operator

import ini
from drvlib import BAD, quiet, scratch_dir

P = None
UNSET, NOVALUE = -7777777, -8888888
HYD = ["A", "B", "C", "D"]

TREND = {"size_ztrend": [0.5, 1.5], "k_ztrend": [0.25, 1.25], "k_xtrend": [0.75, 1.75], "n_ztrend": [0.8, 1.2],
         "n_xtrend": [0.9, 1.1]}
ANGLES = {"dip": [3, 7], "azimuth": [-20, 45], "bg_azim": 33, "bg_dip": 11}
LAG = {"buffer": 0.3, "lag_height": 0.2}
FULL = {
    "run": {"runname": "r", "numsim": 3, "overwrite_old_output": "yes"},
    "model": {"x0": 1.5, "y0": -2, "z0": 4, "dx": 0.5, "dy": 0.25, "dz": 0.125, "lx": 6, "ly": 5, "lz": 7, "periodic": "yes",
              "hydraulics": "no", "anisotropy": "no", "heterogeneity": "no", "heterogeneity_level": "facies"},
    "strata": {"strata": ["s0", "s1", "s2"], "strata_contact_models": [["flat", 5], ["flat", 6]], "ae": ["sh", "tr", "ch"],
               "ae_in_strata": [["sh"], ["tr", "ch"], ["ch"]], "ae_prob": [[1], [0.25, 0.75], [0.5]],
               "ae_z_mean": [[2], [3, 4], [5]], "avul_prob": [[0.1], [0.2], [0.3]], "avul": [[0, 1], [2, 3], [4, 5]],
               "bg_facies": ["A", "B", "C"], "bg_azim": [10, 20, 30], "bg_dip": [1, 2, 3]},
    "hydraulics": {"hydrofacies": HYD, "k_h": [1, 2, 3, 4], "sig_y": [5, 6, 7, 8], "k_ratio": [9, 10, 11, 12],
                   "n": [0.1, 0.2, 0.3, 0.4], "sig_n": [0.01, 0.02, 0.03, 0.04],
                   "ycorlengths": [[1, 2, 3], [4, 5, 6], [7, 8, 9], [10, 11, 12]],
                   "ncorlengths": [[21, 22, 23], [24, 25, 26], [27, 28, 29], [30, 31, 32]],
                   "k_ztrend": [0.1, 0.2], "k_xtrend": [0.3, 0.4], "n_ztrend": [0.5, 0.6], "n_xtrend": [0.7, 0.8]},
    "flowtrans": {"hin": [1, 2, 3], "hout": [4, 5, 6], "gradh": 0.001, "q_in": 0.002},
    "sh": ini.element("sheet", lens_thickness=0.4, dipset_dist=0.6, **TREND, **ANGLES),
    "tr": ini.element("trough", dipset_dist=0.7, bulbset_dist=0.35, te_xyz=[[1, 2, 3], [4, 5, 6]], migrate=[1, 2, 3, 4],
                      lag_facies="B", **TREND, **ANGLES, **LAG),
    "ch": ini.element("channel", dipset_dist=0.9, mig=1.25, flow_angle=17, lag_facies="C", **TREND, **ANGLES, **LAG),
}
LEAN = {
    "run": {"runname": "r"},
    "model": {k: FULL["model"][k] for k in ("dx", "lx", "ly", "lz")},
    "strata": FULL["strata"],
    "hydraulics": {k: v for k, v in FULL["hydraulics"].items() if "trend" not in k},
    "flowtrans": {},
    "sh": ini.element("sheet"),
    "tr": ini.element("trough", lag_facies="B"),
    "ch": ini.element("channel", lag_facies="C"),
}
OTREND = {{"size_ztrend": "geo_ztrend"}.get(k, k): v for k, v in TREND.items()}


def old_element(geometry, **kw):
    e = {"geometry": geometry, "structure": "massive", "contact": "flat", "facies": [0, 2]}
    if geometry == "sheet":
        e.update(lens_thickness=0.4)
    elif geometry == "trunc_ellip":
        e.update(agg=1, dip=[1, 2], length=4, width=3, depth=1.5, el_z=0.1, paleoflow=[3, 4], azimuth=[5, 6])
    else:
        e.update(agg=1.25, dip=[7, 8], width=2, depth=1, h=0.4, k=0.8, ds=1, eps_factor=0.2, channel_no=1)
    e.update(kw)
    return e


OBG = {"contact_model": [0.1, 2, 3], "bg": [1, 33, 11]}
OFULL = {
    "run": {"runname": "r", "dataoutputs": ["npz"], "modeloutputs": ["mf"], "numsim": 3, "flag_ow": "yes", "anisotropy": "no", "het": "no"},
    "model": {k: v for k, v in FULL["model"].items() if k in ("x0", "y0", "z0", "dx", "dy", "dz", "lx", "ly", "lz", "periodic")},
    "strata": {"ssm": ["s0", "s1", "s2"], "ssm_top": [5, 6, 7], "ssm_contact": "flat", "ssm_contact_model": [[1, 2, 3], [4, 5, 6], [7, 8, 9]],
               "ae": ["sh", "tr", "ch"], "ssm_ae": FULL["strata"]["ae_in_strata"], "bg": [3, 44, 22]},
    "hydraulics": {"gen": "no", "hydro": HYD},
    "flowtrans": FULL["flowtrans"],
    "sh": old_element("sheet", dip=[3, 7], azimuth=[-20, 45], dipset_d=0.6, **OTREND, **OBG),
    "tr": old_element("trunc_ellip", dipset_d=0.7, bulbset_d=0.35, te_xyz=[[1, 2, 3], [4, 5, 6]], migrate=[1, 2, 3, 4], buffer=0.3,
                      lag=[0.2, 1], **OTREND, **OBG),
    "ch": old_element("ext_par", dipset_d=0.9, buffer=0.3, lag=[0.2, 2], **OTREND, **OBG),
}
OFULL["model"]["hetlev"] = "facies"
OFULL["strata"].update({k: FULL["strata"][k] for k in ("ae_prob", "ae_z_mean", "avul_prob", "avul")})
OFULL["hydraulics"].update({k: v for k, v in FULL["hydraulics"].items() if k != "hydrofacies"})
OLEAN = {
    "run": {"runname": "r", "dataoutputs": ["npz"]},
    "model": {k: OFULL["model"][k] for k in ("dx", "lx", "ly", "lz", "hetlev")},
    "strata": {k: v for k, v in OFULL["strata"].items() if "contact" not in k},
    "hydraulics": {k: v for k, v in OFULL["hydraulics"].items() if "trend" not in k and k != "gen"},
    "flowtrans": {},
    "sh": old_element("sheet"), "tr": old_element("trunc_ellip"), "ch": old_element("ext_par"),
}
BASES = {"full": FULL, "lean": LEAN, "ofull": OFULL, "olean": OLEAN}
READ = {}
ALTS = set()


def setup():
    global P
    import hyvrload
    hyvrload.load()
    import hyvr.input.parameters as P_
    P = P_


def read(secs, d):
    p = d / "in.ini"
    p.write_text(ini.text(secs))
    with quiet():
        run, model, strata, hydraulics, flowtrans, elements = P.parameters(str(p))
    res = {"run": run, "model": model, "strata": strata, "hydraulics": hydraulics, "flowtrans": flowtrans}
    res.update(elements)
    return res


def plain(v):
    """Comparable copy (NaN equals itself)."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, float) and math.isnan(v):
        return "nan"
    return v


def leaf(v):
    """(thousandths, kind)"""
    if v is None:
        return UNSET, "none"
    if isinstance(v, str):
        return {"facies": 1000, "internal": 2000}.get(v, BAD), "str"
    if isinstance(v, bool) or type(v).__name__ in ("bool_", "bool"):
        return 1000 * bool(v), "bool"
    try:
        k = "int"
        operator.index(v)
    except TypeError:
        k = "float"
    try:
        v = float(v)
    except (TypeError, ValueError):
        return BAD, "other"
    if math.isnan(v):
        return NOVALUE, k
    x = v * 1000
    return (int(round(x)) if math.isfinite(x) and abs(x) < 2e9 and abs(x - round(x)) < 1e-6 else BAD), k


def tree(v, kinds):
    if isinstance(v, (list, tuple)):
        return {"t": "l", "v": 0, "c": [tree(x, kinds) for x in v]}
    x, k = leaf(v)
    if k not in kinds:
        kinds.append(k)
    return {"t": "n", "v": x, "c": []}


def strip(res, skip):
    out = {}
    for s, d in res.items():
        out[s] = {k: plain(v) for k, v in d.items() if (s, k) not in skip and k not in ALTS and k not in ("modeldir", "rundir")}
    return out


def run(c, scratch):
    base = BASES[c["base"]]
    ALTS.update(o["as"] for o in c["opts"] if o["as"] != o["name"])
    with scratch_dir(scratch) as d:
        if c["base"] not in READ:
            try:
                READ[c["base"]] = read(base, d)
            except Exception:
                READ[c["base"]] = None
        if READ[c["base"]] is None:            # a valid file is not read at all
            return {"key": c["key"], "base": c["base"], "ok": False, "dx": 500, "others": True, "err": "base", "opts": []}
        secs = {s: dict(o) for s, o in base.items()}
        for o in c["opts"]:
            if o["absent"]:
                secs[o["sec"]].pop(o["name"], None)
            else:
                secs[o["sec"]].pop(o["name"], None)
                secs[o["sec"]][o["as"]] = o["text"]
        for s in c.get("order", []):
            secs[s] = dict(reversed(list(secs[s].items())))
        try:
            res, ok = read(secs, d), True
        except Exception as e:
            res, ok, err = None, False, type(e).__name__
    r = {"key": c["key"], "base": c["base"], "ok": ok, "dx": 500, "others": True, "err": "" if ok else err, "opts": []}
    skip = {(o["sec"], o["name"]) for o in c["opts"]} | {tuple(o["at"]) for o in c["opts"] if o["at"]}
    skip |= {tuple(x) for o in c["opts"] for x in o["deps"] if (x[1] not in ("dy", "dz") or c["base"].endswith("lean"))}
    for o in c["opts"]:
        e = {k: o[k] for k in ("fmt", "sec", "name", "absent", "form", "text")}
        kinds = []
        e["val"] = tree(res[o["at"][0]].get(o["at"][1], "?") if ok and o["at"] else None, kinds)
        e["kinds"] = kinds
        r["opts"].append(e)
    if ok:
        a, b = strip(res, skip), strip(READ[c["base"]], skip)
        if a != b:
            r["others"] = False
            r["changed"] = [[s, k] for s in b for k in b[s] if a.get(s, {}).get(k, "?") != b[s][k]][:5]
    return r
