"""check.py Cxx: runs the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True
import vh  # noqa: E402

pid = sys.argv[1]
vh.main(pid, importlib.import_module("checks." + pid.lower()).check)
