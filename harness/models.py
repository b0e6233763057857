"""Small complete parameter files used by several drivers."""
import ini

FAC = ["A", "B", "C", "D", "E"]


def strata(names=("s",), contacts=(), ae=("e",), in_strata=None, prob=None, zmean=None, avul_prob=None, avul=None,
           bgf=None, bga=None, bgd=None):
    n = len(names)
    in_strata = in_strata or [list(ae)] * n
    return {"strata": list(names), "strata_contact_models": [list(c) for c in contacts], "ae": list(ae),
            "ae_in_strata": in_strata, "ae_prob": prob or [[1.0 / len(x)] * len(x) for x in in_strata],
            "ae_z_mean": zmean or [[1000.0] * len(x) for x in in_strata],
            "avul_prob": avul_prob or [[0]] * n, "avul": avul or [[0, 0]] * n,
            "bg_facies": bgf or [FAC[0]] * n, "bg_azim": bga or [0] * n, "bg_dip": bgd or [0] * n}


def model(n=(6, 5, 4), d=(1, 1, 1), o=(0, 0, 0), **kw):
    m = {"x0": o[0], "y0": o[1], "z0": o[2], "dx": d[0], "dy": d[1], "dz": d[2],
         "lx": n[0] * d[0], "ly": n[1] * d[1], "lz": n[2] * d[2]}
    m.update(kw)
    return m


def mix(which):
    """A few very different complete files."""
    hyd = ini.hydraulics(FAC, sig_y=[0.5] * 5, sig_n=[0.01] * 5, ycorlengths=[[2, 2, 1]] * 5, ncorlengths=[[2, 2, 1]] * 5)
    run = {"runname": "r", "outputs": ["npz"]}
    if which == "sheets":
        return {"run": run, "model": model((6, 5, 8), (1, 1, .5)),
                "strata": strata(("lo", "hi"), [["random", 2, 0.1, 3, 3]], ("p", "q"),
                                 [["p"], ["p", "q"]], zmean=[[1], [1, 0.7]], avul_prob=[[0.5], [0]], avul=[[0.1, 0.3], [0, 0]]),
                "p": ini.element("sheet", structure="dip", dipset_dist=0.4, lens_thickness=0.6, facies=["A", "B", "C"],
                                 altfacies=[["B"], ["C", "A"], ["A"]], dip=[5, 30], azimuth=[0, 90], k_ztrend=[1, 1.5]),
                "q": ini.element("sheet", lens_thickness=0.3, facies=["C", "D"], contact_model=["random", 0.05, 2, 2]),
                "hydraulics": dict(hyd, k_xtrend=[0.5, 1.5])}
    if which == "troughs":
        return {"run": run, "model": model((8, 8, 6), (1, 1, .5), (-3, 2, 10), periodic=True),
                "strata": strata(("lo",), [], ("t", "u"), [["t", "u"]], zmean=[[1.2, 0.8]]),
                "t": ini.element("trough", structure="random", dipset_dist=0.3, bulbset_dist=0.2, agg=0.4, depth=0.8, trough_density=0.2,
                                 paleoflow=[-40, 40], facies=["B", "C"], lag_height=0.1, lag_facies="E", dip=[5, 20], azimuth=[0, 40],
                                 size_ztrend=[0.8, 1.2]),
                "u": ini.element("trough", structure="bulb_sets", bulbset_dist=0.15, agg=0.3, trough_density=0.1, migrate=[1, 0.2, 0.5, 0.1],
                                 facies=["D", "E"], bg_facies="B", bg_azim=3, bg_dip=4, contact_model=["random", 0.05, 2, 2], dip=[10, 30]),
                "hydraulics": hyd}
    if which == "channels":
        return {"run": run, "model": model((10, 6, 12), (1, 1, .25)),
                "strata": strata(("lo", "hi"), [["flat", 1.5]], ("c", "d"), [["c"], ["d", "c"]], zmean=[[2], [1, 1]]),
                "c": ini.element("channel", structure="dip", dipset_dist=0.7, agg=0.5, depth=0.8, width=4, eps_factor=0.3, channel_no=2, mig=0.5,
                                 facies=["A", "B", "C"], dip=[0, 20], lag_height=0.1, lag_facies="D"),
                "d": ini.element("channel", agg=0.5, depth=0.7, width=2.5, eps_factor=0.1, flow_angle=30, facies=["E"], size_ztrend=[0.5, 1]),
                "hydraulics": dict(hyd, n_ztrend=[1, 1.2])}
    if which == "plain":
        return {"run": run, "model": model((4, 4, 4), heterogeneity=False),
                "strata": strata(ae=("p",), zmean=[[2]]), "p": ini.element("sheet", facies=["A", "B", "C"], lens_thickness=0.5),
                "hydraulics": hyd}
    if which == "nohyd":
        return {"run": run, "model": model((5, 4, 4), hydraulics=False),
                "strata": strata(ae=("t",), zmean=[[1]]),
                "t": ini.element("trough", agg=0.5, trough_density=0.2, paleoflow=[0, 90], facies=["C", "D"]), "hydraulics": hyd}
    if which == "many":
        return {"run": run, "model": model((5, 6, 12), (1, 1, .5), (4, -3, -2)),
                "strata": strata(("a", "b", "c", "d"), [["flat", -1], ["random", 1, 0.05, 3, 3], ["flat", 2]], ("p", "t", "c"),
                                 [["p", "t"], ["c"], ["t", "c", "p"], ["p"]], prob=[[0.3, 0.7], [1], [0.2, 0.3, 0.5], [1]],
                                 zmean=[[0.7, 0.5], [0.6], [0.8, 0.9, 0.7], [1]], avul_prob=[[0.3], [0], [1], [0.5]],
                                 avul=[[0.1, 0.2], [0, 0], [0.1, 0.3], [0.2, 0.2]], bgf=["A", "B", "C", "D"], bga=[1, 2, 3, 4], bgd=[4, 3, 2, 1]),
                "p": ini.element("sheet", structure="dip", dipset_dist=0.3, lens_thickness=0.5, facies=["A", "B", "C", "D"],
                                 altfacies=[["B", "C", "D"], ["C", "A", "D", "B"], ["A", "D", "B"], ["A"]], dip=[5, 30], azimuth=[0, 90],
                                 size_ztrend=[0.5, 1.5], k_xtrend=[1, 2], n_ztrend=[1, 1.5]),
                "t": ini.element("trough", te_xyz=[[5, -1, -1.2], [7, 1, 3.4], [6, 2, 1.1], [8, 0, 2.2]], structure="dip", dipset_dist=0.2,
                                 facies=["C", "D", "E"], altfacies=[["D", "E", "C"], ["E", "C", "D"], ["C"]], paleoflow=[-30, 30],
                                 dip=[5, 20], azimuth=[0, 40], n_xtrend=[1, 1.2], k_ztrend=[1, 1.3]),
                "c": ini.element("channel", agg=0.4, depth=0.6, width=2, eps_factor=0.2, channel_no=3, mig=0.4, flow_angle=-20,
                                 facies=["B", "D"], contact_model=["random", 0.02, 2, 3], lag_height=0.1, lag_facies="A"),
                "hydraulics": dict(hyd, n_xtrend=[1, 1.1], k_ztrend=[0.8, 1.2])}
    if which == "level":
        return {"run": run, "model": model((5, 4, 6), (1, 1, .5), heterogeneity_level="facies", periodic=True),
                "strata": strata(("a", "b"), [["flat", 1.2]], ("t",), [["t"], ["t"]], zmean=[[0.8], [1]]),
                "t": ini.element("trough", agg=0.5, trough_density=0.1, structure="bulb", dip=[5, 15], paleoflow=[0, 90], facies=["C", "D"]),
                "hydraulics": hyd}
    raise KeyError(which)


ALL = ["sheets", "troughs", "channels", "plain", "nohyd", "many", "level"]
