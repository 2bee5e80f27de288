"""P01, P02: behaviours of spec/MCGmres.tla and spec/MCGmresLarge.tla replayed on dxss.gmres.get_gmres_solution."""
from __future__ import annotations

import os
import random
import re
from fractions import Fraction

import numpy as np

from harness.common import frac


# ---- in the worker ----------------------------------------------------------
class Op:
    """The caller's operator: a matrix nobody else may change."""

    def __init__(self, mat, fail_at=None):
        self.m = np.array(mat, dtype=float)
        self.keep = self.m.copy()
        self.n, self.fail_at, self.inputs_kept = 0, fail_at, True

    def mult(self, _mat, x, y):
        self.n += 1
        if self.fail_at is not None and self.n >= self.fail_at:
            msg = "operator failed"
            raise RuntimeError(msg)
        before = x.array_r.copy()
        y.array[:] = self.m @ before
        self.inputs_kept &= np.array_equal(before, x.array_r, equal_nan=True)


class Pre:
    def __init__(self, mat):
        self.m = np.array(mat, dtype=float)
        self.keep = self.m.copy()
        self.n = 0

    def setUp(self, pc):  # noqa: N802
        pass

    def apply(self, _pc, x, y):
        self.n += 1
        y.array[:] = self.m @ x.array_r


class Shift:
    def __init__(self, n):
        self.n_unknowns = n

    def mult(self, _mat, x, y):
        y.array[:] = np.roll(x.array_r, 1)


class Identity:
    def setUp(self, pc):  # noqa: N802
        pass

    def apply(self, _pc, x, y):
        x.copy(y)


class Captured:
    """Everything the process writes to its standard output."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        import sys

        sys.stdout.flush()
        self.old = os.dup(1)
        fd = os.open(self.path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.close(fd)
        return self

    def __exit__(self, *_):
        import ctypes
        import sys

        sys.stdout.flush()
        ctypes.CDLL(None).fflush(None)
        os.dup2(self.old, 1)
        os.close(self.old)
        with open(self.path, errors="replace") as f:
            self.text = f.read()


KEPT = {"uses": 0}


def one(run, path):
    from petsc4py import PETSc

    from dxss.gmres import get_gmres_solution

    def vec(a):
        v = PETSc.Vec().createSeq(len(a))
        v.array[:] = a
        return v

    if run["fam"] == "exact":
        a, pre, rhs = Op(run["A"], run.get("fail_at")), Pre(run["B"]), np.array(run["b"], dtype=float)
    elif run["fam"] == "shift":
        a, pre, rhs = Shift(run["n"]), Identity(), np.zeros(run["n"])
        rhs[0] = 1.0
    elif run["fam"] == "spiral":
        a, pre, rhs = Op(run["A"]), Identity(), np.array(run["b"])
    else:
        a, pre = Op(np.diag([1.0, 1.0 + run["m"] * 10.0 ** -run["e"]])), Identity()
        rhs = np.full(2, 10.0 ** -run["s"])
    # callers may keep one vector for all their systems
    KEPT["uses"] += 1
    if KEPT["uses"] % 2:
        b = vec(rhs)
    else:
        b = KEPT.setdefault(len(rhs), vec(rhs))
        b.array[:] = rhs
    out = {}
    with Captured(path) as cap:
        try:
            x, r = get_gmres_solution(a, b, pre, **run["kw"])
            out = {"out": "return", "x": x.array_r.tolist(), "r": r.array_r.tolist()}
        except BaseException as e:  # noqa: BLE001
            out = {"out": "raise", "error": type(e).__name__}
    out["lines"] = [(int(m.group(1)), float(m.group(2))) for m in
                    re.finditer(r"iteration\s+(\d+)\D+?([-+0-9.e]+|nan|inf)\s*$", cap.text, re.M)]
    out["b_kept"] = bool(np.array_equal(b.array_r, rhs, equal_nan=True))
    if isinstance(a, Op):
        out["a_kept"] = bool(np.array_equal(a.m, a.keep, equal_nan=True) and a.inputs_kept)
    if isinstance(pre, Pre):
        out["pre_kept"] = bool(np.array_equal(pre.m, pre.keep, equal_nan=True))
    return out


def replay(args):
    path = os.path.join(args["dir"], "stdout.txt")
    return [one(r, path) for r in args["runs"]]


# ---- checks -------------------------------------------------------------------
def exact_runs(ck):
    consts = {"MaxSteps": "{0, 1, 2, 3, 4, 5, 6}", "Restarts": "{1, 2, 3, 4, 10}"} if ck.thorough else None
    t = ck.tlc("MCGmres", out="gmres.json", workers="1", consts=consts).data
    runs = []
    for r in t["runs"]:
        s = t["systems"][r["sys"] - 1]
        hist = [frac(h) for h in r["hist"]]
        rtol, atol = frac(r["rtol"]), frac(r["atol"])
        tol2 = max(rtol**2 * hist[0], atol**2)
        borderline = any(h != 0 and tol2 != 0 and abs(h / tol2 - 1) < Fraction(1, 10**6) for h in hist)
        if borderline:
            continue
        kw = {"maxsteps": r["max"], "restart": r["restart"], "tol": float(atol), "reltol": float(rtol)}
        runs.append({"fam": "exact", "A": s["A"], "B": s["B"], "b": s["b"], "kw": kw, "want": r["out"], "its": r["its"],
                     "x": [float(frac(v)) for v in r["x"]], "hist": [float(h) ** 0.5 for h in hist]})
    return runs


def spiral(r):
    n, m, d = r["n"], r["m"], r["e"]
    f = 10.0 ** (-2 / d)
    a = (f / (1 - f)) ** 0.5
    mat = np.kron(np.eye(n // 2), [[1, a], [-a, 1]])
    rhs = np.arange(1.0, n + 1)
    rhs /= np.linalg.norm(rhs)
    kw = {"tol": 0.0, "reltol": 10.0 ** (-(2 * m + 1) / (2 * d))}
    if r["max"]:
        kw["maxsteps"] = r["max"]
    if r["restart"]:
        kw["restart"] = r["restart"]
    hist = [10.0 ** (-k / d) for k in range(r["its"] + 1)]
    x = np.linalg.solve(mat, rhs)
    if r["restart"] != 1 and r["its"] == 2:
        hist[2] = 0.0
    else:
        x -= np.linalg.matrix_power(np.eye(n) - mat / (1 + a * a), r["its"]) @ x
    return {"fam": "spiral", "n": n, "m": m, "e": d, "s": 0, "A": mat.tolist(), "b": rhs.tolist(), "B": np.eye(n).tolist(), "kw": kw,
            "want": r["out"], "its": r["its"], "x": x.tolist(), "hist": hist}


def large_runs(ck):
    consts = {"Ns": "{2, 3, 5, 8, 17, 31, 64, 99, 100, 101, 150, 400}", "Spirals": "{2, 4, 6, 10, 16, 50}",
              "Steps": "{0, 1, 2, 3, 10, 29, 40, 99, 100, 150, 640, 1200, 3000}", "Rates": "{1, 2, 7, 31, 100, 400}"} if ck.thorough else None
    runs = []
    for r in ck.tlc("MCGmresLarge", out="large.json", workers="1", consts=consts).data:
        kw = {}
        if r["fam"] == "spiral":
            runs.append(spiral(r))
            continue
        if r["max"]:
            kw["maxsteps"] = r["max"]
        if r["restart"]:
            kw["restart"] = r["restart"]
        runs.append({"fam": r["fam"], "n": r["n"], "m": r["m"], "e": r["e"], "s": r["s"], "kw": kw,
                     "want": r["out"], "its": r["its"]})
    return runs


def odd_runs():
    """Systems outside the exact model; the clause is the property's own: an error, never an answer."""
    nan, i2 = float("nan"), [[1, 0], [0, 1]]
    odd = [
        {"A": i2, "B": i2, "b": [nan, 1]}, {"A": [[nan, 0], [0, 1]], "B": i2, "b": [1, 1]},
        {"A": i2, "B": [[nan, 0], [0, 1]], "b": [1, 1]}, {"A": [[1, 0], [0, 2]], "B": i2, "b": [float("inf"), 1]},
        {"A": [[1, 0], [0, 2]], "B": i2, "b": [1, 1], "fail_at": 1}, {"A": [[1, 0], [0, 2]], "B": i2, "b": [1, 1], "fail_at": 2},
        {"A": [[0, 0], [0, 0]], "B": i2, "b": [1, 1]}, {"A": [[1, 2], [1, 2]], "B": i2, "b": [1, 0]},
        {"A": i2, "B": [[0, 0], [0, 1]], "b": [1, 1], "kw": {}},
    ]
    return [{"fam": "exact", "kw": {"maxsteps": 20}, **o, "want": "odd"} for o in odd]


def residual_met(run, x):
    """Preconditioned residual against the caller's tolerances, from scratch."""
    a, b0, rhs = np.array(run["A"], float), np.array(run["B"], float), np.array(run["b"], float)
    tol = max(run["kw"].get("reltol", 1e-7) * np.linalg.norm(b0 @ rhs), run["kw"].get("tol", 1e-12))
    res = np.linalg.norm(b0 @ (rhs - a @ np.array(x)))
    return res <= tol * (1 + 1e-6) + 1e-13 * np.linalg.norm(b0 @ rhs)


def brief(run, got):
    d = {k: run[k] for k in ("fam", "A", "B", "b", "n", "m", "e", "s", "kw", "want", "its", "factor") if k in run and (run["fam"] != "spiral" or k not in "AB")}
    return {**d, "code": {k: v for k, v in got.items() if k != "lines" and (k not in ("x", "r") or len(v) < 6)}, "lines": got["lines"][:8]}


def true_residual(run, x):
    if run["fam"] in ("exact", "spiral"):
        return np.array(run["b"], float) - np.array(run["A"], float) @ x
    if run["fam"] == "shift":
        b = np.zeros(run["n"])
        b[0] = 1
        return b - np.roll(x, 1)
    return 10.0 ** -run["s"] * np.ones(2) - np.array([1, 1 + run["m"] * 10.0 ** -run["e"]]) * x


KNOWN_BREAKDOWN = "answer for A = diag(1, 0), b = (1, 1) after the Krylov space is exhausted"


def known_breakdown(run, got):
    """PETSc iterates on through the rounding errors of an exhausted Krylov space: DESIGN.md, known findings."""
    f = run.get("factor", 1)
    return (run["want"] == "raise" and run.get("A") == [[1, 0], [0, 0]] and run["b"] == [f, f] and run["its"] == 1 and run["kw"]["maxsteps"] >= 3
            and run["kw"]["restart"] >= 3 and got["out"] == "return" and abs(got["x"][1]) > 1e15 * f)


def judge_outcome(ck, run, got):
    if run["want"] == "odd":
        ok = got["out"] == "raise" or (np.all(np.isfinite(run["b"])) and residual_met(run, got["x"]))
        ck.expect(ok, "an unsolved system raises", brief(run, got))
        return
    clause = {"return": "returns when the tolerance is met in time", "raise": "raises otherwise"}[run["want"]]
    if got["out"] != run["want"] and known_breakdown(run, got):
        ck.violation(clause, brief(run, got), key=KNOWN_BREAKDOWN)
        return
    ck.expect(got["out"] == run["want"], clause, brief(run, got))
    if got["out"] == "return" and run["fam"] in ("exact", "spiral"):
        ck.expect(residual_met(run, got["x"]), "what is returned meets the tolerance", brief(run, got))


def spec_norms(run):
    if run["fam"] in ("exact", "spiral"):
        return run["hist"]
    if run["fam"] == "shift":
        return [1.0] * (run["its"] + (run["want"] == "raise"))
    r0 = 2**0.5 * 10.0 ** -run["s"]
    return [r0, r0 * run["m"] / 2 * 10.0 ** -run["e"]][: run["its"] + 1]


def judge_iterate(ck, run, got):
    """What is returned is the iterate of the specification at the iteration where it stops."""
    if run["want"] != "return" or got["out"] != "return":
        return
    x = np.array(got["x"])
    if run["fam"] in ("exact", "spiral"):
        scale = run.get("factor", 1) + np.linalg.norm(run["x"])
        ck.expect(np.linalg.norm(x - np.array(run["x"])) <= 1e-8 * scale, "iterate", brief(run, got))
    elif run["fam"] == "shift":
        e = np.zeros(run["n"])
        e[run["n"] - 1] = 1
        ck.expect(np.linalg.norm(x - e) <= 1e-8, "iterate", brief(run, got))


def judge_residual(ck, run, got):
    if got["out"] != "return" or run["want"] == "odd":
        return
    r = true_residual(run, np.array(got["x"]))
    scale = 10.0 ** -run["s"] if run["fam"] == "two" else run.get("factor", 1) + np.linalg.norm(r)
    ck.expect(np.linalg.norm(r - np.array(got["r"])) <= 1e-9 * scale, "residual returned is b - A x", brief(run, got))


def judge_untouched(ck, run, got):
    for k, what in (("b_kept", "right-hand side"), ("a_kept", "operator and its inputs"), ("pre_kept", "preconditioner")):
        if k in got:
            ck.expect(got[k], "unmodified: " + what, brief(run, got))


def judge_progress(ck, run, got, printing):
    if run["want"] == "odd":
        return
    if not printing:
        ck.expect(not got["lines"], "no progress report unless asked for", brief(run, got))
        return
    norms = spec_norms(run)
    seen = {}
    for its, rn in got["lines"]:
        seen.setdefault(its, rn)
    nums = list(seen)
    breakdown = run["want"] == "raise" and run["its"] < run["kw"].get("maxsteps", 100)
    last = nums[-1] if nums else -1
    # how many more steps are reported while a breakdown is noticed is left open
    ok = nums == list(range(last + 1)) and (last == run["its"] or (breakdown and last > run["its"]))
    if not ck.expect(ok, "one line per iteration", brief(run, got)):
        return
    for k, w in enumerate(norms):
        # three digits are printed
        ck.expect(abs(seen[k] - w) <= 0.006 * w + 1e-10 * norms[0], "norm reported", {**brief(run, got), "iteration": k, "spec": w})


def scaled(runs, every=2):
    """The same behaviours for right-hand sides and absolute tolerances of another size: everything scales exactly."""
    out = []
    for i, r in enumerate(runs):
        if i % every or r["fam"] not in ("exact", "spiral") or r["want"] == "odd" or "tol" not in r["kw"]:
            continue
        f = 2.0 ** [-70, 60, -45, -100][i // every % 4]
        out.append({**r, "b": [v * f for v in r["b"]], "x": [v * f for v in r["x"]], "hist": [v * f for v in r["hist"]],
                    "kw": {**r["kw"], "tol": r["kw"]["tol"] * f}, "factor": f})
    return out


def batches(ck, runs, n):
    return [runs[i::n] for i in range(n)]


def check_P01(ck):
    runs = exact_runs(ck) + large_runs(ck)
    runs += scaled(runs, 2 if ck.thorough else 5) + odd_runs()
    rnd = random.Random(ck.seed)
    for r in runs:
        r["kw"]["printrates"] = rnd.random() < 0.5
    parts = batches(ck, runs, 7)
    for part, res in zip(parts, ck.run_many([("c_gmres:replay", {"runs": p}, None) for p in parts])):
        data = ck.answer(res, "solve the systems of the model")
        for run, got in zip(part, data or []):
            judge_outcome(ck, run, got)
            ck.traces += 1
    ck.sample({k: runs[17][k] for k in ("A", "B", "b", "kw", "want", "its", "hist")})
    ck.cov.update(systems=len({str((r.get("A"), r.get("n"), r.get("e"), r.get("m"))) for r in runs}), exhaustive=False)


def check_P02(ck):
    runs = exact_runs(ck) + large_runs(ck)
    runs += scaled(runs, 2 if ck.thorough else 9)
    if not ck.thorough:
        rnd = random.Random(ck.seed)
        runs = [r for r in runs if r["fam"] == "shift" and r["n"] < 40] + [r for r in runs if r["fam"] != "shift"]
    # the same behaviours in different histories: forwards, backwards and shuffled, printing or not,
    # between systems that fail
    rnd = random.Random(ck.seed)
    histories = []
    for h in range(10 if ck.thorough else 4):
        seq = [dict(r, kw={**r["kw"], "printrates": (h % 2 == 0) if h < 2 else rnd.random() < 0.5}) for r in runs]
        if h == 1:
            seq.reverse()
        elif h > 1:
            rnd.shuffle(seq)
        for o in odd_runs() * (h if h < 4 else 2):
            seq.insert(rnd.randrange(len(seq)), o)
        histories.append(seq)
    parts = [(seq[i::2]) for seq in histories for i in range(2)]
    for part, res in zip(parts, ck.run_many([("c_gmres:replay", {"runs": p}, None) for p in parts])):
        data = ck.answer(res, "solve the systems of the model")
        for run, got in zip(part, data or []):
            if run["want"] != "odd" and not known_breakdown(run, got):
                ck.expect(got["out"] == run["want"], "same outcome in every history", brief(run, got))
            judge_iterate(ck, run, got)
            judge_residual(ck, run, got)
            judge_untouched(ck, run, got)
            judge_progress(ck, run, got, run["kw"].get("printrates", True))
            ck.traces += 1
    ck.sample([r["kw"] for r in histories[2][:4]])
    ck.cov.update(histories=len(parts), calls=sum(map(len, parts)), exhaustive=False)
