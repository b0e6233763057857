import os
import pickle
import re
import struct
import warnings
import xml.etree.ElementTree as ET

import ini
import models
import numpy as np
import world
from drvlib import err_class, fx, i32, quiet, scratch_dir

CO = None
INT = ("facies", "strata", "ae", "ha", "hat")
SC = {"azim": 1000, "dip": 1000, "k_iso": 100000, "poros": 10000, "anirat": 10000, "k33": 100000}


def setup():
    global CO
    world.load()
    from hyvr.postprocess.output import create_outputs
    CO = create_outputs


def run(c, scratch):
    r = {"key": c["key"], "op": c["op"], "formats": c["formats"]}
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            {"read": synthetic, "one": synthetic, "unknown": unknown, "run": real}[c["op"]](c, r, scratch)
        r["out"] = "ok"
    except Exception as e:
        r.update(out=err_class(e), msg=repr(e)[:300])
    finally:
        os.chdir(cwd)
    return r


def scaled(name, a):
    s = SC.get(name, 100000 if name[0] == "K" else 1)
    return [fx(v, s) if s > 1 else i32(v) for v in np.asarray(a).ravel()]


def split(D):
    """Named 3d arrays; the tensors by components."""
    out = {}
    for k, a in D.items():
        if k == "ktensors":
            out.update({"K%d%d" % (i + 1, j + 1): np.asarray(a)[..., i, j] for i in range(3) for j in range(3)})
        else:
            out[k] = np.asarray(a)
    return out


def entry(D):
    return {k: {"shape": list(a.shape), "v": scaled(k, a)} for k, a in split(D).items()}


# configured heads (at inflow and outflow), gradient, inflow
HV = [(3.25, -1.5, .125, .375), (-2, 4.5, -.25, -.125), (0, 0, 0, 0), (0, 2, .5, 8), (-1.75, 0, .0625, -3)]


def conf_of(n, d, o, hyd, heads, hv=0, ani=True):
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": models.model(n, d, o, hydraulics=hyd, anisotropy=ani),
            "strata": models.strata(("s",), [], ("p",), [["p"]], zmean=[[1]]), "p": ini.element("sheet", facies=["A", "B"], lens_thickness=.5),
            "hydraulics": ini.hydraulics(["A", "B"])}
    hi, ho, gr, q = HV[hv]
    conf["flowtrans"] = {"hin": {"hin": [hi, 2, 1], "hout": [ho, 1.25, 7]}, "gradh": {"gradh": gr}, "q": {"q_in": q}}[heads]
    return conf


def describe(r, n, d, o, heads, ref, hv=0, ani=True):
    r["ani"] = ani
    r.update(n=list(n), d=[fx(v) for v in d], o=[fx(v) for v in o], heads=heads, hin=fx(HV[hv][0]), hout=fx(HV[hv][1]), q=fx(HV[hv][3]))
    if heads == "gradh":
        r.update(hin=1000 + fx(n[0] * d[0] * HV[hv][2]), hout=1000)
    if "k_iso" in ref:
        if not ani:                    # the same in all directions
            ref["anirat"] = np.ones_like(ref["k_iso"])
            ref.update({"K%d%d" % (i + 1, j + 1): ref["k_iso"] * (i == j) for i in range(3) for j in range(3)})
        ref["k33"] = ref["k_iso"] / ref["anirat"]
    r["ref"] = {k: scaled(k, a) for k, a in ref.items()}


def synthetic(c, r, scratch):
    """Outputs of a model in which every cell has values of its own."""
    n, d, o = c["n"], c["d"], c["o"]
    w = world.build(conf_of(n, d, o, c["hyd"], c["heads"], c["hv"], c["ani"]), scratch, c["seed"])
    D = w.data
    code = np.array([[[100. * (x + 1) + 10 * (y + 1) + z + 1 for z in range(n[2])] for y in range(n[1])] for x in range(n[0])])
    val = {"facies": code, "strata": code + 1000, "ae": code + 2000, "ha": code + 3000, "hat": code + 4000, "azim": code / 10, "dip": code / 20,
           "k_iso": code / 1000, "poros": code / 1000, "anirat": 1 + code / 500}
    for k in D:
        if k == "ktensors":
            for i in range(3):
                for j in range(3):
                    D[k][..., i, j] = (code + 1000 * (1 + min(i, j) * 2 + max(i, j))) / 1000
        else:
            D[k][...] = val[k]
    before = {k: np.array(a) for k, a in D.items()}
    describe(r, n, d, o, c["heads"], split({k: np.array(a) for k, a in D.items()}), c["hv"], c["ani"])
    r["name"] = c["name"]
    with scratch_dir(scratch) as t:
        if c["rel"]:
            os.chdir(str(t.parent))
            t = type(t)(t.name)
        with quiet():
            CO(w.model, t if c["rel"] else str(t), c["name"], c["formats"])
        D = w.model.data
        r["same"] = sorted(before) == sorted(D) and all(np.array_equal(before[k], D[k]) for k in before)
        read_all(t, r)


def real(c, r, scratch):
    n, d, o = {"sheets": ((6, 5, 8), (1, 1, .5), (0, 0, 0)), "troughs": ((8, 8, 6), (1, 1, .5), (-3, 2, 10)),
               "channels": ((10, 6, 12), (1, 1, .25), (0, 0, 0)), "plain": ((4, 4, 4), (1, 1, 1), (0, 0, 0))}[c["which"]]
    conf = models.mix(c["which"])
    conf["run"].update(outputs=c["formats"], runname="x1")
    conf["hydraulics"]["k_h"] = [.5, 1, .25, 2, .75]
    conf["flowtrans"] = {"hin": [3.25, 2, 1], "hout": [-1.5, 1.25, 7]}
    r["name"] = "x1"
    with scratch_dir(scratch) as t:
        (t / "x.ini").write_text(ini.text(conf))
        np.random.seed(c["seed"])
        os.chdir(str(t))
        with quiet():
            world.hyvr.run(str(t / "x.ini"), None)
        with np.load(str(t / "x1" / "x1.npz")) as z:
            D = {k: z[k] for k in z.files}
        describe(r, n, d, o, "hin", split(D))
        r["same"] = True
        for p in (t / "x1").glob("*_autogenerated_backup.ini"):
            p.unlink()
        read_all(t / "x1", r)


def unknown(c, r, scratch):
    w = world.build(conf_of((2, 2, 2), (1, 1, 1), (0, 0, 0), True, "hin"), scratch, 1)
    with scratch_dir(scratch) as t:
        with quiet():
            CO(w.model, str(t), "r", c["formats"])


# ------------------------------------------------------------------ readers
def read_all(t, r):
    r["entries"] = sorted(p.name for p in t.iterdir())
    r["files"] = []
    for f in sorted(set(r["formats"])):
        g = {"fmt": f, "inside": [], "tshape": [], "uid": []}
        globals()["read_" + f](t, r["name"], g, r)
        r["files"].append(g)


def arrays(g, D):
    D = {k: a for k, a in D.items() if not k.startswith("__")}
    g["arrays"] = entry(D)
    g["tshape"] = list(np.shape(D["ktensors"])) if "ktensors" in D else []


def read_npz(t, name, g, r):
    with np.load(str(t / (name + ".npz"))) as z:
        arrays(g, {k: z[k] for k in z.files})


def read_py(t, name, g, r):
    with open(str(t / (name + ".pickle")), "rb") as f:
        arrays(g, pickle.load(f))


def read_mat(t, name, g, r):
    import scipy.io
    arrays(g, scipy.io.loadmat(str(t / (name + ".mat"))))


def read_h5(t, name, g, r):
    import h5py
    with h5py.File(str(t / (name + ".h5")), "r") as f:
        arrays(g, {k: f[k][...] for k in f})


def read_vtr(t, name, g, r):
    raw = (t / (name + ".vtr")).read_bytes()
    i = raw.index(b"<AppendedData")
    j = raw.index(b"_", i) + 1
    root = ET.fromstring(raw[:i].decode() + "</VTKFile>")
    typ = {"Float64": "<f8", "Int32": "<i4", "Int64": "<i8", "Float32": "<f4"}

    def get(e):
        off = j + int(e.get("offset"))
        size, = struct.unpack("<Q", raw[off:off + 8])
        return np.frombuffer(raw[off + 8:off + 8 + size], typ[e.get("type")])
    piece = root.find("RectilinearGrid/Piece")
    ext = [int(v) for v in piece.get("Extent").split()]
    if ext != [int(v) for v in root.find("RectilinearGrid").get("WholeExtent").split()]:
        ext = [0] * 6
    shape = [ext[5] - ext[4], ext[3] - ext[2], ext[1] - ext[0]]
    for a, e in zip("xyz", piece.find("Coordinates")):
        g[a] = [fx(v) for v in get(e)]
    g["arrays"] = {e.get("Name"): {"shape": shape, "v": scaled(e.get("Name"), get(e))} for e in piece.find("CellData")}


def read_mf(t, name, g, r):
    import flopy
    p = t / "MODFLOW"
    g["inside"] = sorted(q.name for q in p.iterdir())
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = flopy.modflow.Modflow.load(name + ".nam", model_ws=str(p.resolve()), check=False)
    hk, vka = m.lpf.hk.array, m.lpf.vka.array
    if not (np.asarray(m.lpf.layvka.array) == 1).all():
        vka = np.full_like(vka, -1)                          # not ratios
    three = lambda k, a: {"shape": list(a.shape), "v": scaled(k, a)}
    g["arrays"] = {"k_iso": three("k_iso", hk), "anirat": three("anirat", vka)}
    g.update(delr=[fx(v) for v in m.dis.delr.array], delc=[fx(v) for v in m.dis.delc.array], top=[fx(v) for v in m.dis.top.array.ravel()],
             bot=[[fx(v) for v in b.ravel()] for b in m.dis.botm.array])
    ib, st = m.bas6.ibound.array, m.bas6.strt.array
    g["fixed"] = [[int(k), int(i), int(j), fx(st[k, i, j])] for k, i, j in zip(*np.where(ib < 0))]
    g["inactive"] = int((ib == 0).sum())


def read_mf6(t, name, g, r):
    import flopy
    p = t / "mf6"
    g["inside"] = sorted(q.name for q in p.iterdir())
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = flopy.mf6.MFSimulation.load(sim_ws=str(p.resolve()), verbosity_level=0).get_model()
    three = lambda k, a: {"shape": list(a.shape), "v": scaled(k, a)}
    k, k33 = m.npf.k.array, m.npf.k33.array
    g["arrays"] = {"k_iso": three("k_iso", k), "k33": three("k33", k if k33 is None else k33)}
    g["arrays"].update({a: three(a, v.array) for a, v in (("azim", m.npf.angle1), ("dip", m.npf.angle2)) if v.array is not None})
    g.update(delr=[fx(v) for v in m.dis.delr.array], delc=[fx(v) for v in m.dis.delc.array], top=[fx(v) for v in m.dis.top.array.ravel()],
             bot=[[fx(v) for v in b.ravel()] for b in m.dis.botm.array])
    rows = lambda q: [list(map(int, e[0])) + [fx(e[1])] for e in q.stress_period_data.data[0]] if q is not None else []
    g["start"] = [fx(v) for v in np.broadcast_to(m.get_package("ic").strt.array, k.shape).ravel()]
    g.update(fixed=rows(m.get_package("chd")), wells=rows(m.get_package("wel")))


def read_hgs(t, name, g, r):
    p = t / "HGS"
    g["inside"] = sorted(q.name for q in p.iterdir())
    K, P = np.loadtxt(str(p / "ktensors.txt"), ndmin=2), np.loadtxt(str(p / "porosity.txt"), ndmin=2)
    g["uid"] = [[i32(v) for v in K[:, 0]], [i32(v) for v in P[:, 0]]]
    g["arrays"] = {"poros": {"shape": r["n"], "v": scaled("poros", P[:, 1])}}
    for i, k in enumerate(("K11", "K22", "K33", "K12", "K13", "K23")):
        g["arrays"][k] = {"shape": r["n"], "v": scaled(k, K[:, 1 + i])}
