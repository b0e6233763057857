"""Shared machinery of the checks: TLC runs, driver runs, verdicts, evidence.

A check
  1. runs TLC on the specification's exhaustive configuration (`mc`),
  2. obtains cases: behaviours written out by TLC (`gen`) and/or cases drawn by
     the check (seeded with VERIF_SEED),
  3. plays them into the code of /repo (`drive`, separate processes),
  4. lets TLC judge every recorded outcome against the specification (`judge`),
  5. reports: `VIOLATION property=... replay=...` and exit 1, or exit 0.
"""
import atexit
import concurrent.futures
import json
import os
import pathlib
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
PY = "/opt/venv/bin/python"
NCPU = max(2, min(8, os.cpu_count() or 2))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Machinery(Exception):
    """The check itself failed (never caused by the code under test)."""


class Check:
    def __init__(self, pid, level="model_checking", timeout=800):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.deadline = self.t0 + (timeout if not self.thorough else 20 * timeout)
        self.work = pathlib.Path(tempfile.mkdtemp(prefix="verif-%s-" % pid))
        atexit.register(shutil.rmtree, str(self.work), True)
        self.viol = []          # (clause, key, detail)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cover = {}
        self.assumptions = []
        self.known_hit = []
        self._ext = None

    # ------------------------------------------------------------------ build
    def ext(self):
        """Compile the extension modules of the current tree once per check."""
        if self._ext is None:
            d = self.work / "ext"
            d.mkdir()
            code = ("import sys,pathlib;sys.path.insert(0,%r);import hyvrload;"
                    "hyvrload.build_ext(pathlib.Path(%r))" % (str(VERIF / "harness"), str(d)))
            r = subprocess.run([PY, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                self.violation("build", "build", {"log": r.stdout.decode(errors="replace")[-4000:]})
                self.finish()
            self._ext = d
        return self._ext

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=NCPU, timeout=None, heap="6g", extra=()):
        meta = tempfile.mkdtemp(dir=self.work, prefix="tlc-")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC",
               "-config", cfg, "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
               "-nowarning"] + list(extra) + [module]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=str(SPEC), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timeout: %s %s" % (module, cfg))
        finally:
            shutil.rmtree(meta, True)
        out = r.stdout.decode(errors="replace")
        if os.environ.get("VERIF_DEBUG"):
            print("[%s %.1f s]" % (module, time.time() - t0))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return r.returncode, out, gen, dist

    def mc(self, module, cfg=None, env=None, timeout=600, workers=NCPU, extra=("-deadlock",)):
        """Exhaustive check of the specification; counts its states."""
        cfg = cfg or module + ".cfg"
        rc, out, gen, dist = self.tlc(module, cfg, env, workers, timeout, extra=extra)
        if rc != 0:
            raise Machinery("specification check failed: %s %s\n%s" % (module, cfg, out[-4000:]))
        self.states += dist
        self.transitions += gen
        self.cover.setdefault("model_runs", []).append(
            {"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen})
        return out

    def gen(self, module, cfg=None, env=None, timeout=600, extra=("-deadlock",), workers=1):
        """Run a configuration that writes cases (ndjson, file named by OUT)."""
        out = self.work / ("gen-%s-%d.ndjson" % (module, len(os.listdir(self.work))))
        e = {"OUT": out}
        e.update(env or {})
        rc, log, g, d = self.tlc(module, cfg or module + ".cfg", e, workers, timeout, extra=extra)
        if rc != 0 or not out.exists():
            raise Machinery("case generation failed: %s\n%s" % (module, log[-4000:]))
        self.states += d
        self.transitions += g
        self.cover.setdefault("model_runs", []).append(
            {"module": module, "config": cfg or module + ".cfg", "distinct_states": d, "states_generated": g})
        with open(out) as f:
            return [json.loads(l) for l in f if l.strip()]

    def judge(self, module, records, cfg=None, chunks=NCPU, timeout=None, env=None, group=None):
        """Let TLC judge every record; rejected ones become violations.

        `group`: records of one trace stay together (key function).
        """
        cfg = cfg or module + ".cfg"
        if not records:
            return
        if group is None:
            big = sorted(records, key=lambda r: -len(json.dumps(r)))       # balanced parts
            parts = [big[i::chunks] for i in range(chunks)]
        else:
            order = {}
            for r in records:
                order.setdefault(group(r), []).append(r)
            parts = [[] for _ in range(chunks)]
            for i, k in enumerate(order):
                parts[i % chunks].extend(order[k])
        parts = [p for p in parts if p]

        def one(i):
            f = tempfile.mktemp(dir=self.work, prefix="trace-", suffix=".ndjson")
            with open(f, "w") as h:
                for r in parts[i]:
                    h.write(json.dumps(r) + "\n")
            e = {"TRACE": f}
            e.update(env or {})
            rc, out, g, d = self.tlc(module, cfg, e, 1, timeout or max(60, self.deadline - time.time()),
                                     heap="3g", extra=("-deadlock",))
            if rc != 0:
                if re.search(r"Attempted to|evaluating the nested|was evaluating", out):
                    # an outcome the specification's operators are not even defined on
                    # (never the case on a conforming tree): a violation, not a verdict gap
                    n = re.findall(r"/\\\\ l = (\d+)|\bl = (\d+)", out)
                    idx = int([x for t in n for x in t if x][-1]) if n else 1
                    rec = parts[i][min(idx, len(parts[i])) - 1]
                    if os.environ.get("VERIF_DEBUG"):
                        print(out[-6000:])
                    return out + '\n<<"REJECT", %d, {"outside-the-domain"}>>\n' % min(idx, len(parts[i])), g, d
                raise Machinery("judging failed: %s\n%s\n%s" % (
                    module, out[-5000:], "trace kept: " + f))
            os.unlink(f)
            return out, g, d

        with concurrent.futures.ThreadPoolExecutor(len(parts)) as ex:
            res = list(ex.map(one, range(len(parts))))
        for i, (out, g, d) in enumerate(res):
            self.states += d
            self.transitions += g
            # TLC prints an action's values once per evaluation; take them as a set
            # (long values are wrapped over several lines)
            seen = set()
            flat = re.sub(r"\s*\n\s*", " ", out)
            for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*\{(.*?)\}\s*>>', flat):
                idx = int(m.group(1))
                for c in re.findall(r'"([^"]*)"', m.group(2)):
                    if (idx, c) not in seen:
                        seen.add((idx, c))
                        rec = parts[i][idx - 1]
                        self.violation(c, str(rec.get("key", rec.get("id", idx))), rec)
        self.cover.setdefault("judge_runs", []).append(
            {"module": module, "records": len(records)})
        for r in records[:: max(1, len(records) // 3)][:3]:
            if len(json.dumps(r)) < 3000:
                self.samples.append(r)

    # ---------------------------------------------------------------- drivers
    def drive(self, driver, cases, procs=NCPU, timeout=None, ext=True, group=None, extra_env=None):
        """Play cases into the code under test; returns the records.

        A driver process that dies or does not end is a violation: the code
        under test crashed the interpreter, did not import, or hangs.
        """
        env = dict(os.environ)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["VERIF_SEED"] = str(self.seed)
        env["VERIF_TIER"] = self.tier
        env["PYTHONHASHSEED"] = "0"
        for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
            env[v] = "1"
        env.update(extra_env or {})
        if ext:
            env["HYVR_EXT"] = str(self.ext())
        cases = list(cases)
        if not cases:
            return []
        procs = min(procs, len(cases))
        parts = [cases[i::procs] for i in range(procs)]
        timeout = timeout or max(60, min(500, self.deadline - time.time() - 100))

        def one(i):
            d = pathlib.Path(tempfile.mkdtemp(dir=self.work, prefix="drv-"))
            (d / "scratch").mkdir()
            with open(d / "in.ndjson", "w") as h:
                for c in parts[i]:
                    h.write(json.dumps(c) + "\n")
            with open(d / "log", "wb") as log:
                p = subprocess.Popen([PY, str(VERIF / "harness" / "drive.py"), driver, str(d)],
                                     stdout=log, stderr=subprocess.STDOUT, env=env, cwd=str(d / "scratch"),
                                     stdin=subprocess.DEVNULL, start_new_session=True)
                hung = False
                try:
                    p.wait(timeout)
                except subprocess.TimeoutExpired:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            recs = []
            if (d / "out.ndjson").exists():
                with open(d / "out.ndjson") as f:
                    for l in f:
                        try:
                            recs.append(json.loads(l))
                        except ValueError:
                            pass
            cur = {}
            if (d / "current").exists():
                try:
                    cur = json.loads((d / "current").read_text())
                except ValueError:
                    pass
            tail = (d / "log").read_bytes()[-3000:].decode(errors="replace")
            shutil.rmtree(d, True)
            return p.returncode, hung, recs, cur, tail

        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(one, range(procs)))
        recs = []
        for rc, hung, rs, cur, tail in res:
            recs += rs
            if hung or rc != 0:
                if rc == 77:
                    raise Machinery("driver %s failed\n%s" % (driver, tail))
                self.violation("does-not-terminate" if hung else "crash",
                               "%s:%s" % (driver, "hang" if hung else rc), {"case": cur, "log": tail})
        return recs

    # ---------------------------------------------------------------- verdict
    def violation(self, clause, key, detail):
        self.viol.append((clause, key, detail))

    def known(self):
        res = []
        f = VERIF / "known_findings.txt"
        if f.exists():
            for l in f.read_text().splitlines():
                m = re.match(r"known: property=(\S+) clause=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid:
                    res.append((m.group(2), m.group(3), m.group(4)))
        return res

    def finish(self):
        known = self.known()
        real, hits = [], {}
        for c, k, d in self.viol:
            for kc, kk, text in known:
                if kc == c and kk == k:
                    hits[(kc, kk)] = text
                    break
            else:
                real.append((c, k, d))
        for (c, k), text in hits.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:4] or ["none"]}
        cov.update(self.cover)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        tmp = VERIF / "evidence" / (".%s.tmp" % self.pid)
        tmp.write_text(json.dumps(ev, indent=1))
        tmp.replace(VERIF / "evidence" / (self.pid + ".json"))
        if real:
            rd = VERIF / "replays"
            rd.mkdir(exist_ok=True)
            by = {}
            for c, k, d in real:
                by.setdefault(c, []).append((k, d))
            for n, c in enumerate(sorted(by)):
                path = rd / ("%s-%d.json" % (self.pid, n))
                path.write_text(json.dumps({"property": self.pid, "clause": c, "count": len(by[c]),
                                            "keys": [k for k, _ in by[c]][:50],
                                            "first": [d for _, d in by[c]][:3]}, indent=1, default=str))
                print("clause %s fails on %d record(s), first key %s" % (c, len(by[c]), by[c][0][0]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            sys.stdout.flush()
            os._exit_code = 1
            self._leave(1)
        print("%s: held on everything explored (%d states, %d records judged, %.1f s)" % (
            self.pid, self.states, self.traces, time.time() - self.t0))
        self._leave(0)

    def _leave(self, rc):
        shutil.rmtree(str(self.work), True)
        sys.stdout.flush()
        os._exit(rc)


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
        c.finish()
    except Machinery as e:
        if c.viol:
            c.finish()
        print("MACHINERY FAILURE: %s" % e)
        c._leave(3)
    except Exception:
        traceback.print_exc()
        if c.viol:
            c.finish()
        c._leave(3)
