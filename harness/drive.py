"""Driver process: drive.py <driver> <dir>; reads dir/in.ndjson, writes dir/out.ndjson."""
import importlib
import json
import os
import pathlib
import sys
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
sys.dont_write_bytecode = True


def main():
    name, d = sys.argv[1], pathlib.Path(sys.argv[2])
    try:
        import drvlib  # noqa: F401
        mod = importlib.import_module("drivers." + name)
    except Exception:
        traceback.print_exc()
        # a driver only imports the code under test inside setup(); anything
        # failing here is the machinery's fault
        sys.exit(77)
    setup = getattr(mod, "setup", None)
    if setup:
        setup()                      # imports the code under test: failure = crash
    with open(d / "in.ndjson") as f:
        cases = [json.loads(l) for l in f]
    with open(d / "out.ndjson", "w") as out:
        for c in cases:
            (d / "current").write_text(json.dumps(c))
            r = mod.run(c, d / "scratch")
            for x in (r if isinstance(r, list) else [r]):
                if x is not None:
                    out.write(json.dumps(x) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
