"""setup_cmd: the toolchain is there and every specification module parses."""
import os
import pathlib
import subprocess
import sys

V = pathlib.Path(__file__).resolve().parent.parent
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
(V / "evidence").mkdir(exist_ok=True)
mods = sorted(p.name for p in (V / "spec").glob("*.tla"))
r = subprocess.run(["java", "-cp", JAR, "tla2sany.SANY"] + mods, cwd=str(V / "spec"),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
out = r.stdout.decode(errors="replace")
bad = r.returncode != 0 or "*** Errors" in out or "Fatal errors" in out
if bad:
    print(out[-5000:])
r2 = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, h5py, flopy, Cython"])
print("%d specification modules parsed" % len(mods))
sys.exit(1 if bad or r2.returncode else 0)
