"""Builds models with the code under test from configuration dictionaries."""
import random

import ini
import numpy as np
from drvlib import dyadic, fx, i32, quiet, scratch_dir

P = AP = hyvr = None


def load():
    global P, AP, hyvr
    import hyvrload
    hyvr = hyvrload.load()
    import hyvr.input.parameters as P_
    from hyvr.assign_points import assign_points
    P, AP = P_, assign_points


class World:
    pass


def build(conf, scratch, seed, assign=True, hyd=True, before=None):
    """Parameter file -> generated (and assigned) model.  Exceptions of the code pass through."""
    w = World()
    with scratch_dir(scratch) as d:
        (d / "x.ini").write_text(ini.text(conf))
        with quiet():
            w.run, w.model, w.hyd = P.setup_from_inifile(str(d / "x.ini"), None)
            np.random.seed(seed)
            random.seed(seed)
            w.model.generate_model()
            if before:
                before(w)
            if assign:
                AP(w.model)
                if hyd and w.model.generate_hydraulics is True:
                    w.model.generate_hydraulic_parameters(w.hyd)
    w.data = w.model.data
    w.grid = w.model.grid
    return w


# ------------------------------------------------------------------ small worlds (spec/Worlds.tla)
FACIES = ["A", "B", "C", "D", "E", "F", "G", "H"]


def conf_of(c, n=(7, 6, 10), d=(1.0, 1.0, 0.5), o=(0, 0, 0), angle=30, hyd=None, model=None, extra=None):
    """Configuration of a world of Worlds.tla: element type i (0..2) has object facies i, own background facies 3+i
    for i = 1 (the others use their stratum's, 6 and 7)."""
    import models
    names = ["el%d" % i for i in range(3)]
    lz = n[2] * d[2]
    cz = {"one": [], "two-flat": [["flat", o[2] + lz * .5]], "two-rough": [["random", o[2] + lz * .5, 0.1, 2, 2]],
          "three": [["flat", o[2] + lz * .25], ["random", o[2] + lz * .625, 0.05, 3, 2]]}[c["layout"]]
    ns = len(cz) + 1
    ins = [names if i % 2 == 0 else names[::-1] for i in range(ns)]
    zm = 1.1 if c["thick"] == "thin" else 2.6
    m = models.model(n, d, o, periodic=c["periodic"])
    m.update(model or {})
    conf = {"run": {"runname": "r", "outputs": ["npz"]}, "model": m,
            "strata": models.strata(["s%d" % i for i in range(ns)], cz, names, ins, zmean=[[zm] * 3] * ns,
                                    bgf=[FACIES[6 + i % 2] for i in range(ns)], bga=[5 * i for i in range(ns)], bgd=[2 * i for i in range(ns)]),
            "hydraulics": hyd or ini.hydraulics(FACIES)}
    for i, k in enumerate(c["kinds"]):
        cm = ["random", 0.02, 2, 2] if c["rough"] == "all" or (c["rough"] == "some" and i == 1) else ["flat"]
        kw = {"contact_model": cm, "facies": [FACIES[i]]}
        if i == 1:
            kw.update(bg_facies=FACIES[4], bg_azim=17, bg_dip=8)
        if k in ("sheet", "lenses"):
            conf[names[i]] = ini.element("sheet", lens_thickness=-1 if k == "sheet" else 0.6, **kw)
        elif k == "trough":
            conf[names[i]] = ini.element("trough", agg=0.4, length=4.4, width=2.6, depth=0.9, trough_density=0.05, buffer=0.1 * i,
                                         paleoflow=[angle + 40 * i] * 2, **kw)
        else:
            conf[names[i]] = ini.element("channel", agg=0.5, width=2.2, depth=0.8, ds=0.7, eps_factor=0.05, channel_no=1 + i % 2,
                                         flow_angle=(angle + 25 * i) % 60 - 30, **kw)
        if extra:
            conf[names[i]].update(extra(i, k))
    return conf


def surf(a, S=1000):
    return [[fx(v, S) for v in row] for row in np.asarray(a)]


def record(w, S=1000):
    """Projection of a generated model: its units from the top."""
    out = []
    for si, s in enumerate(w.model.strata):
        aes = []
        for a in s.aes:
            objs = []
            for ob in a.object_list:
                r = {"num": i32(ob.num_ha)}
                if hasattr(ob, "top_surface"):
                    r.update(k="sheet", top=surf(ob.top_surface.surface, S), bot=surf(ob.bottom_surface.surface, S))
                elif hasattr(ob, "x_center"):
                    r.update(k="channel", pts=[[fx(x, S), fx(y, S)] for x, y in zip(ob.x_center, ob.y_center)],
                             width=fx(ob.width, S), depth=fx(ob.depth, S), ztop=fx(ob.ztop, S), ex=dyadic(ob.ztop, *w.grid.z))
                else:
                    r.update(k="trough", x=fx(ob.x, S), y=fx(ob.y, S), z=fx(ob.z, S), a=fx(ob.a, S), b=fx(ob.b, S), c=fx(ob.c, S),
                             alpha=i32(round(float(ob.alpha), 6)), ex=dyadic(ob.z, *w.grid.z))
                objs.append(r)
            aes.append({"num": i32(a.num), "type": a.type_name, "top": surf(a.top_surface.surface, S),
                        "bot": surf(a.bottom_surface.surface, S), "objs": objs})
        out.append({"name": s.name, "aes": aes})
    return out


def axes(g, S=1000):
    return [[fx(v, S) for v in a] for a in (g.x, g.y, g.z)]


def cells(w, names, f=i32):
    """[x][y][z] -> list of values of the named arrays."""
    A = [w.data[k] for k in names]
    nx, ny, nz = A[0].shape
    return [[[[f(a[x, y, z]) for a in A] for z in range(nz)] for y in range(ny)] for x in range(nx)]
