"""Writes parameter files from nested dictionaries."""


def lst(v):
    """Python list -> list text."""
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(lst(x) for x in v) + "]"
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    return str(v)


def text(secs):
    out = []
    for s, opts in secs.items():
        out.append("[%s]" % s)
        for k, v in opts.items():
            if v is not None:
                out.append("%s = %s" % (k, lst(v)))
        out.append("")
    return "\n".join(out)


def element(geometry, /, **kw):
    """A complete element section of the given geometry."""
    base = {"geometry": geometry, "structure": "massive", "contact_model": ["flat"], "facies": ["A"]}
    if geometry == "sheet":
        base.update(lens_thickness=-1)
    elif geometry == "trough":
        base.update(agg=1, length=4, width=3, depth=1, trough_density=0.1, paleoflow=[0, 0])
    elif geometry == "channel":
        base.update(agg=1, width=2, depth=1, h=0.4, k=0.8, ds=1, eps_factor=0, channel_no=1)
    base.update(kw)
    return base


def hydraulics(facies, **kw):
    n = len(facies)
    base = {"hydrofacies": list(facies), "k_h": [0.001 * (i + 1) for i in range(n)], "sig_y": 0,
            "k_ratio": [1 + 0.5 * i for i in range(n)], "n": [0.1 + 0.05 * i for i in range(n)], "sig_n": 0,
            "ycorlengths": 1, "ncorlengths": 1}
    base.update(kw)
    return base
