import math
import os

import ini
from drvlib import BAD, err_class, fx, i32, quiet, scratch_dir

P = None


def setup():
    global P
    import hyvrload
    hyvrload.load()
    import hyvr.input.parameters as P_
    P = P_


def build(f, key):
    n = f["n"]
    hyd = ini.hydraulics(f["hyd"])
    geo = f["geo"]
    g = geo if geo in ("sheet", "trough", "channel") else "sheet"
    e = ini.element(g, geometry=geo, structure=f["struct"], contact_model=f["ecm"], facies=f["fac"])
    if f["dd"]:
        e["dipset_dist"] = 0.5
    if f["bd"]:
        e["bulbset_dist"] = 0.25
    if f["alt"]:
        e["altfacies"] = f["alt"]
    if f["ebg"]:
        e.update(bg_facies=f["ebg"], bg_azim=12, bg_dip=34)
    if f["lagh"]:
        e["lag_height"] = f["lagh"]
    if f["lagf"]:
        e["lag_facies"] = f["lagf"]
    other = ini.element("sheet", facies=[f["hyd"][-1]], structure="dip", dipset_dist=0.75)
    run = {"runname": "r", "outputs": f["outs"] or None}
    model = {"dx": f["dx"] or None, "dy": f["dy"] or None, "dz": f["dz"] or None, "lx": 4, "ly": 4, "lz": 4}
    names = ["s%d" % i for i in range(n)]
    ins = (f["ins"] + [["e", "other"]] * n)[:n]
    strata = {"strata": names, "strata_contact_models": f["cms"], "ae": f["ae"],
              "ae_in_strata": ins, "ae_prob": [[1 / len(x)] * len(x) for x in ins], "ae_z_mean": [[1] * len(x) for x in ins],
              "avul_prob": [[0]] * n, "avul": [[0, 0]] * n, "bg_facies": f["bgf"], "bg_azim": 0, "bg_dip": 0}
    d = f["drop"]
    if d:
        for s in (hyd, model, strata) if d in hyd or d in model or d in strata else (e,):
            if d in s:
                del s[d]
                break
    secs = {"run": run, "model": model, "strata": strata, "hydraulics": hyd}
    if f["flow"]:
        secs["flowtrans"] = {"hin": [1, 0, 0], "hout": [0, 0, 0]}
    els = [("e", e), ("other", other)]
    if key % 2:
        els.reverse()
    secs.update(els)
    if key % 3 == 0:
        secs = dict(reversed(list(secs.items())))
    for s in ("run", "model", "strata", "hydraulics"):
        if s not in f["secs"]:
            del secs[s]
    return ini.text(secs)


def project(f, res):
    run, model, strata, hydraulics, flowtrans, elements = res
    e, o = elements["e"], elements["other"]

    def cm(c, depth):
        out = [c["mode"]]
        for k in (["z"] if depth else []) + (["var", "corlx", "corly"] if c["mode"] == "random" else []):
            out.append(fx(c[k]))
        return out
    want = [12.0, 34.0] if f["ebg"] else None
    got = [e["bg_azim"], e["bg_dip"]]
    return {
        "fac": [i32(x) for x in e["facies"]],
        "alt": [[i32(x) for x in y] for y in e["altfacies"]] if e["altfacies"] is not None else [],
        "bgf": [i32(x) for x in strata["bg_facies"]],
        "ebg": i32(e["bg_facies"]),
        "nanbg": got == want if want else all(math.isnan(x) for x in got),
        "lagf": i32(e["lag_facies"]) if "lag_facies" in e else BAD,
        "d": [fx(model[k]) for k in ("dx", "dy", "dz")],
        "cms": [cm(c, True) for c in strata["contact_models"]],
        "ecm": cm(e["contact_model"], False),
        "other": [i32(x) for x in o["facies"]] == [len(f["hyd"]) - 1] and o["altfacies"] is None
        and o["structure"] == "dip" and o["dipset_dist"] == 0.75 and o["contact_model"] == {"mode": "flat"},
    }


def run(c, scratch):
    f = c["file"]
    r = {"key": c["key"], "file": f, "written": False}
    with scratch_dir(scratch) as d:
        p = d / "in.ini"
        p.write_text(build(f, int(c["key"])))
        with quiet():
            try:
                res = P.parameters(str(p) if int(c["key"]) % 2 else p)
                r["out"] = "ok"
            except Exception as e:
                r["out"] = err_class(e)
        if r["out"] == "ok":
            r["got"] = project(f, res)
        cwd = os.getcwd()
        os.chdir(d)
        with quiet():
            try:
                P.setup_from_inifile(str(p), True)
                if r["out"] != "ok":          # refused by one reader, not by the other
                    r.update(out="ok", got={})
            except Exception as e:
                r["out"] = err_class(e)
        os.chdir(cwd)
        r["written"] = sorted(x.name for x in d.iterdir()) != ["in.ini"]
    return r
