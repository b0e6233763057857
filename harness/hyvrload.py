"""Loads the code under test from /repo's working tree.

`hyvr` is imported straight from /repo.  The four geometry modules that exist
only as Cython sources are translated and compiled, from /repo's current files,
into a scratch directory; a meta-path finder serves them.  If a plain Python
module of the same name ever appears in /repo it wins, as it would for a user
who has not built the extensions.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import pathlib
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = pathlib.Path(os.environ.get("HYVR_REPO", "/repo"))
PYX = ["channel", "channel_ae", "trough", "trough_ae"]
sys.dont_write_bytecode = True


class BuildError(Exception):
    """The working tree does not build (reported as a violation by the caller)."""


def build_ext(outdir):
    """Compile the .pyx modules of /repo in parallel into outdir."""
    import numpy
    procs = []
    inc = ["-I" + sysconfig.get_path("include"), "-I" + numpy.get_include()]
    for m in PYX:
        src = REPO / "hyvr" / "geo" / (m + ".pyx")
        if not src.exists() or (REPO / "hyvr" / "geo" / (m + ".py")).exists():
            continue
        c = outdir / (m + ".c")
        so = outdir / (m + ".so")
        gcc = " ".join(["gcc", "-O0", "-w", "-fPIC", "-shared"] + inc + [str(c), "-o", str(so)])
        cmd = "%s -m cython -3 -o %s %s && %s" % (sys.executable, c, src, gcc)
        procs.append((m, subprocess.Popen(["bash", "-c", cmd], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, cwd=str(REPO))))
    bad = []
    for m, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            bad.append("%s: %s" % (m, out.decode(errors="replace")[-1500:]))
    if bad:
        raise BuildError("\n".join(bad))


def ext_dir():
    """Directory with the compiled modules for the current tree (HYVR_EXT, or a fresh build)."""
    d = os.environ.get("HYVR_EXT")
    if d:
        return pathlib.Path(d)
    d = pathlib.Path(tempfile.mkdtemp(prefix="hyvr-ext-"))
    import atexit
    atexit.register(shutil.rmtree, str(d), True)
    build_ext(d)
    return d


class _Finder:
    def __init__(self, d):
        self.d = d

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("hyvr.geo."):
            return None
        m = name.split(".")[-1]
        if m not in PYX or (REPO / "hyvr" / "geo" / (m + ".py")).exists():
            return None
        so = self.d / (m + ".so")
        if not so.exists():
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, str(so))
        return importlib.util.spec_from_file_location(name, str(so), loader=loader)


_loaded = False


def load():
    """Import hyvr from /repo with its extension modules available."""
    global _loaded
    if _loaded:
        import hyvr
        return hyvr
    sys.meta_path.insert(0, _Finder(ext_dir()))
    sys.path.insert(0, str(REPO))
    import hyvr
    assert pathlib.Path(hyvr.__file__).resolve().parent == (REPO / "hyvr").resolve(), hyvr.__file__
    _loaded = True
    return hyvr
