"""Projection helpers for drivers: everything recorded is a 32-bit integer, a
string, a boolean, or a list/record of those."""
import contextlib
import io
import math
import os
import pathlib
import shutil
import sys
import tempfile

BAD = -2000000000        # stands for NaN, infinities, None and out-of-range numbers


def fx(v, scale=1000):
    """Fixed point: round(v*scale)."""
    try:
        v = float(v)
    except (TypeError, ValueError):
        return BAD
    if not math.isfinite(v) or abs(v * scale) > 1999999999:
        return BAD
    return int(round(v * scale))


def dyadic(*vs):
    """The numbers are multiples of 1/1024, so that sums of them are exact."""
    return all(math.isfinite(float(v)) and abs(v) < 1e6 and float(v) * 1024 == int(float(v) * 1024) for v in vs)


def i32(v):
    try:
        if v != int(v):
            return BAD
        v = int(v)
    except (TypeError, ValueError, OverflowError):
        return BAD
    return v if abs(v) < 2000000000 else BAD


def err_class(e):
    """Name of the exception class that the specification speaks about."""
    names = [c.__name__ for c in type(e).__mro__]
    for n in ("ShapeError", "MissingOptionError", "MissingSectionError", "FileNotFoundError",
              "FileExistsError", "NotImplementedError", "ValueError"):
        if n in names:
            return n
    return type(e).__name__


@contextlib.contextmanager
def quiet():
    """Swallow stdout and stderr of the code under test; yields (out, err)."""
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o, e


@contextlib.contextmanager
def scratch_dir(base):
    d = pathlib.Path(tempfile.mkdtemp(dir=str(base)))
    try:
        yield d
    finally:
        shutil.rmtree(str(d), True)


def tree(v):
    """Nested list -> tagged tree {t,v,c}."""
    if isinstance(v, (list, tuple)):
        return {"t": "l", "v": 0, "c": [tree(x) for x in v]}
    if isinstance(v, bool) or not isinstance(v, int):
        return {"t": "?", "v": 0, "c": []}
    return {"t": "n", "v": v, "c": []}


def untree(t):
    return [untree(x) for x in t["c"]] if t["t"] == "l" else t["v"]
