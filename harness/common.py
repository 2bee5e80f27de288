"""Shared machinery: TLC runs, workers that execute the code under test, verdicts, evidence."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree for experiments; the registered checks never set it
PY = "/opt/venv/bin/python"
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


# what problems are made with: total time, stabilisation of data, dual, primal and its jumps
SETUPS = [{"T": [3, 2], "g": [[7, 1], [3, 1], [5, 1], [11, 1]]},
          {"T": [2, 5], "g": [[1, 2], [5, 3], [2, 3], [1, 4]]},
          {"T": [8, 1], "g": [[10000, 1], [1, 1], [1, 1000], [1, 1]]},
          {"T": [1, 1], "g": [[3, 1], [1, 50000], [1, 1000], [2, 1]]},
          {"T": [1, 20], "g": [[1, 2000], [2, 1], [3, 1], [1, 5000]]},
          {"T": [1, 600], "g": [[2, 1], [3, 2], [5, 2], [1, 1]]},
          {"T": [50, 1], "g": [[1, 1], [2, 3], [1, 2], [4, 1]]}]


class MachineryError(Exception):
    """The check itself failed: neither holds nor violated."""


def code_env(dolfinx="06", **extra):
    env = dict(os.environ)
    env.update(
        PETSC_DIR=env.get("PETSC_DIR", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real"),
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        PYTHONPATH=":".join([os.path.join(VERIF, "standin", "common"),
                             os.path.join(VERIF, "standin", "v" + dolfinx), REPO + "/src", VERIF]),
        PETSC_OPTIONS="",
    )
    env.pop("PYTHONSTARTUP", None)
    env.update({k: str(v) for k, v in extra.items()})
    return env


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "No error has been found" in out

    def error(self):
        m = re.search(r"(?m)^Error:.*(?:\n.*){0,12}", self.out)
        return m.group(0) if m else self.out[-1500:]


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"dxss-{prop}-")
        self.violations, self.known = [], []
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.cov, self.assumptions = [], {}, []
        self.thorough = tier == "thorough"
        self._known = load_known(prop)

    # ---- TLC -------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, out=None, args=(), expect_ok=True, timeout=600,
            consts=None, workers="4", count=True):
        """Run TLC on spec/<module>.tla.  `out`: name of a JSON file the model writes (IOEnv.OUT)."""
        cfgpath = os.path.join(SPEC, cfg or module + ".cfg")
        if consts:
            with open(cfgpath) as f:
                txt = f.read()
            for k, v in consts.items():
                txt, n = re.subn(rf"(?m)^(\s*(?:CONSTANTS?\s+)?{k}\s*(?:=|<-)\s*).*$", rf"\g<1>{v}", txt)
                if n != 1:
                    msg = f"constant {k} not in {cfgpath}"
                    raise MachineryError(msg)
            fd, cfgpath = tempfile.mkstemp(suffix=".cfg", dir=self.scratch)
            with os.fdopen(fd, "w") as f:
                f.write(txt)
        e = dict(os.environ)
        e["SETUPS"] = os.path.join(self.scratch, "setups.json")
        if not os.path.exists(e["SETUPS"]):
            with open(e["SETUPS"], "w") as f:
                json.dump(SETUPS, f)
        e.update({k: str(v) for k, v in (env or {}).items()})
        outp = None
        if out:
            outp = os.path.join(self.scratch, out)
            e["OUT"] = outp
        meta = tempfile.mkdtemp(prefix="tlc", dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx4g", f"-Djava.io.tmpdir={self.scratch}", "-cp", TLA_CP,
               "tlc2.TLC", "-workers", workers, "-noGenerateSpecTE", "-metadir", meta,
               "-config", cfgpath, *args, os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=self.scratch, env=e, capture_output=True, text=True, timeout=timeout, check=False)
        except subprocess.TimeoutExpired as ex:
            msg = f"TLC on {module} ran out of time"
            raise MachineryError(msg) from ex
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = TLCResult(p.stdout + p.stderr, p.returncode)
        if expect_ok and not r.ok:
            msg = f"TLC on {module}: {r.error()}\n{r.out[-600:]}"
            raise MachineryError(msg)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        if outp and r.ok:
            with open(outp) as f:
                r.data = json.load(f)
        return r

    def trace_check(self, module, trace, cfg=None, name=None, env=None, consts=None):
        """Validate a recorded trace (list of records) with a trace specification.

        The trace specification writes {"accepted": bool, "reached": n, "clause": ...} to IOEnv.OUT.
        """
        name = name or "trace"
        path = os.path.join(self.scratch, f"{name}-{self.traces}.json")
        with open(path, "w") as f:
            json.dump(trace, f)
        r = self.tlc(module, cfg=cfg, env={"TRACE": path, **(env or {})}, out=f"{name}-{self.traces}-verdict.json",
                     consts=consts, workers="1")
        self.traces += 1
        return r

    # ---- code under test ---------------------------------------------------
    def run(self, job, args=None, timeout=500, dolfinx="06", cwd=None, **env):
        """Run harness.<mod>:<fn>(args) in its own process; returns its JSON result or a failure dict."""
        d = tempfile.mkdtemp(prefix="w", dir=self.scratch)
        argf, outf = os.path.join(d, "args.json"), os.path.join(d, "out.json")
        with open(argf, "w") as f:
            json.dump({**(args or {}), "seed": self.seed, "tier": self.tier, "dir": d}, f)
        log = os.path.join(d, "log.txt")
        with open(log, "w") as lf:
            p = subprocess.Popen([PY, "-m", "harness.worker", job, argf, outf], cwd=cwd or d, env=code_env(dolfinx, **env),
                                 stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                import signal

                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return {"failed": "no answer", "detail": f"{job} did not finish within {timeout} s", "args": args}
        if os.path.exists(outf):
            with open(outf) as f:
                return json.load(f)
        with open(log, errors="replace") as f:
            tail = f.read()[-2500:]
        return {"failed": f"process ended with {rc}", "detail": tail, "args": args}

    def run_many(self, jobs, par=7, **kw):
        """jobs: list of (job, args, env) ; results in order."""
        with ThreadPoolExecutor(par) as ex:
            fs = [ex.submit(self.run, j, a, **{**kw, **(e or {})}) for j, a, e in jobs]
            return [f.result() for f in fs]

    def answer(self, res, what):
        """The data of a worker's result, or None after reporting that the code failed."""
        if "failed" in res:
            self.violation("runs", {"what": what, **res})
            return None
        return res["data"]

    # ---- verdict -----------------------------------------------------------
    def violation(self, clause, detail, key=None):
        v = {"property": self.prop, "clause": clause, "key": key or clause, "detail": detail}
        if v["key"] in self._known:
            if v["key"] not in {k["key"] for k in self.known}:
                self.known.append(v)
            return
        self.violations.append(v)

    def expect(self, cond, clause, detail, key=None):
        self.evals += 1
        if not cond:
            self.violation(clause, detail, key)
        return bool(cond)

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "comparisons_with_impl": self.evals,
               "samples": self.samples or ["none"], **self.cov}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {self._known[k['key']]}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            path = os.path.join(VERIF, "evidence", "replay", f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                           "rerun": f"VERIF_SEED={self.seed} ./check {self.prop} {self.tier}",
                           "violations": self.violations[:50]}, f, indent=1, default=str)
            for v in self.violations[:8]:
                print(f"  {self.prop} {v['clause']}: {str(v['detail'])[:400]}")
            print(f"VIOLATION property={self.prop} replay={os.path.relpath(path, VERIF)}")
            return 1
        print(f"OK property={self.prop} tier={self.tier} states={self.states} traces={self.traces} "
              f"comparisons={self.evals} wall={ev['wall_s']}s")
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip().startswith("{"):
                    d = json.loads(line)
                    if d["property"] == prop:
                        out[d["key"]] = d["what"]
    return out


def frac(r):
    return Fraction(r[0], r[1])


def close(a, b, rel=1e-9, ab=1e-11):
    a, b = float(a), float(b)
    return a == a and abs(a - b) <= ab + rel * max(abs(a), abs(b))
