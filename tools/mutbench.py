#!/usr/bin/env python3
"""Runs checks against small changes of the code, each in its own copy of /repo.

mutbench.py FILE [-j N] [-k WORD]: FILE has blocks
    @@ C01,C02 path/in/repo   (comment)
    old text
    ====
    new text
Reports for every block and property whether the check found a violation.  Works on copies in a
temporary directory; /repo and /verif are only read.
"""
import argparse, os, pathlib, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

a = argparse.ArgumentParser()
a.add_argument("file")
a.add_argument("-j", type=int, default=4)
a.add_argument("-k", default="")
a.add_argument("--tier", default="quick")
a = a.parse_args()
VERIF = pathlib.Path(__file__).resolve().parent.parent


def one(block):
    head, body = block.split("\n", 1)
    props, path = head.split()[:2]
    body = body.rstrip("\n")
    old, new = body.split("\n====\n") if "\n====\n" in body else (body[:-5] if body.endswith("\n====") else body, "")
    d = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
    out = []
    try:
        subprocess.check_call(["cp", "-a", "/repo", str(d / "repo")])
        subprocess.check_call(["git", "-C", str(d / "repo"), "checkout", "-q", "--", "."])
        (d / "verif").mkdir()
        for x in ("harness", "spec", "MANIFEST.json", "properties.jsonl", "known_findings.txt", "tools"):
            subprocess.check_call(["cp", "-a", str(VERIF / x), str(d / "verif" / x)])
        p = d / "repo" / path
        b = p.read_bytes().decode()
        t = b.replace("\r\n", "\n")
        if t.count(old) != 1:
            return "?? %s: %d occurrences of %r" % (head, t.count(old), old[:60])
        t = t.replace(old, new)
        p.write_bytes((t.replace("\n", "\r\n") if "\r\n" in b else t).encode())
        x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors"],
                           cwd=str(d / "repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout
        if b"5 passed" not in x:
            out.append("(tests fail)")
        for pr in props.split(","):
            r = subprocess.run(["python3", "harness/check.py", pr], cwd=str(d / "verif"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, HYVR_REPO=str(d / "repo"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=a.tier))
            o = r.stdout.decode()
            cl = [l.split()[1] + "x" + l.split()[4] for l in o.splitlines() if l.startswith("clause")]
            out.append("%s %s %s" % (pr, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc%d %s" % (r.returncode, o[-400:])), " ".join(cl[:4])))
    finally:
        shutil.rmtree(str(d), True)
    return "%s | %s\n      %s" % (head, new.strip()[:110].replace("\n", " / "), "; ".join(out))


blocks = [b for b in re.split(r"(?m)^@@ ", open(a.file).read())[1:] if a.k in b]
with ThreadPoolExecutor(a.j) as ex:
    for s in ex.map(one, blocks):
        print(s, flush=True)
