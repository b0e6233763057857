import random

from checks.c26 import world

STYLES = ("ref", "key", "percent", "lines", "colon", "tight", "comment", "crlf", "bom")


def outputs(rnd, flow):
    o = rnd.sample(["npz", "py", "vtr", "mat", "h5"] + (["mf", "mf6", "hgs"] if flow else []), rnd.randint(1, 3))
    return o if {"npz", "py"} & set(o) else o + ["npz"]


def check(c):
    hists = sorted((x["hist"] for x in c.gen("MCBackup", "MCBackupBig.cfg" if c.thorough else None, workers=8)), key=str)
    heads = c.gen("MCModel", workers=8)
    rnd = random.Random(c.seed)
    by = {g: sorted((x for x in heads if x["op"] == "element" and x["geo"] == g), key=str) for g in ("sheet", "trough", "channel")}
    heads = sorted((x for x in heads if x["op"] == "head"), key=str)
    old = sorted((x for x in c.gen("MCOldFormat", workers=8) if not x["refused"] and not x["channelmig"]
                  and not ("model" in x["dev"] and {"gen", "ani"} & set(x["dev"]))),      # flow models need tensors
                  key=str)

    def new_file():
        h = rnd.choice(heads)
        conf, decl = world(h, [rnd.choice(by[rnd.choice(("sheet", "trough", "channel"))]) for _ in range(rnd.randint(1, 3))], rnd)
        flow = decl["hyd"] and decl["ani"] and rnd.random() < .3
        conf["run"]["outputs"] = outputs(rnd, flow)
        if flow:
            conf["flowtrans"] = {"hin": [1, 0, 0], "hout": [.5, 0, 0]}
        if rnd.random() < .3:
            conf["run"]["overwrite_old_output"] = rnd.random() < .5
        return conf
    cases = []
    few = [h for h in hists if len(h) <= 3]
    for n in range(2500 if c.thorough else 160):
        hist = rnd.choice(few if rnd.random() < .4 else hists)
        files = []
        for _ in (1, 2):
            o = rnd.random() < .2
            files.append({"conf": rnd.choice(old)["old"] if o else new_file(), "style": [s for s in STYLES if rnd.random() < .2],
                          "named": o or rnd.random() < .6, "placed": not o and rnd.random() < .3, "oldformat": o})
            files[-1]["style"] = [s for s in files[-1]["style"] if not (o and s == "ref")]
        cases.append({"key": "h%d" % n, "hist": hist, "files": files, "seed": c.seed * 10000 + n, "rel": rnd.random() < .3})
    recs = c.drive("c27", cases)
    c.traces = len(cases)
    c.cover["operations"] = len(recs)
    c.cover["runs of backups"] = sum(r["op"]["op"] == "again" for r in recs)
    c.cover["files written"] = sum(len(p["files"]) for r in recs for p in r["at"].values())
    c.assumptions = ["the run directory is overwritten by the caller's flag", "contents of mat and hdf5 files are not compared (they contain the time)"]
    c.judge("TraceBackup", recs, group=lambda r: r["hist"])
