"""P11, P12 (and the loads of P17): time marching against spec/Marching.tla and the tables of spec/Forms.tla."""
from __future__ import annotations

import json

import numpy as np

VARIANTS = {"reference": "pre_time_marching", "improved": "pre_time_marching_improved"}


# ---- in the worker ----------------------------------------------------------
def load(args):
    with open(args["tables"]) as f:
        return json.load(f)[args["index"]]


def march_matrix(P, rows, lay_p, op):  # noqa: N803
    """Matrix from the slab solution to the load on the next slab."""
    return P.expected([[[*k[:1], 0, *k[2:4], 0, *k[5:]], v] for k, v in rows], lay_p, op)


class Setting:
    def __init__(self, args):
        from harness import problem as P

        self.P, self.case = P, args["case"]
        self.t = load(args)
        self.msh = P.mesh(args["mesh"])
        self.st = P.make(self.case, self.msh, args["ind"])
        self.st.prepare_precondition_gmres()
        self.op = P.ops(self.msh, self.case, args["ind"])
        self.N = self.case["N"]
        self.lay, self.lay_p = P.layout(self.st.fes, self.case, self.N), P.layout(self.st.fes_p, self.case, 1)
        self.size, self.size_p = sum(map(len, self.lay.values())), sum(map(len, self.lay_p.values()))
        self.march = march_matrix(P, self.t["march"], self.lay_p, self.op)
        self.start = np.concatenate([d for (c, _s, t), d in self.lay_p.items() if c <= 2 and t == 0]
                                    + ([d for (c, _s, t), d in self.lay_p.items() if c > 2 and t == 0] if self.case["jumps"] else []))
        self.rest = np.setdiff1d(np.arange(self.size_p), self.start)
        self.rng = np.random.default_rng(args["seed"])

    def slab(self, x, n):
        out = np.zeros(self.size_p)
        for (c, s, t), d in self.lay.items():
            if s == n:
                out[self.lay_p[c, 0, t]] = x[d]
        return out


def job_loads(args):
    """What the slab solvers are given, with canned answers."""
    s = Setting(args)
    P, st, N, out, n = s.P, s.st, s.N, [], 0  # noqa: N806
    log = []
    given, scaling = [s.rng.standard_normal(s.size_p) for _ in range(N + 1)], [1.0]
    st.set_solver_first_slab(P.Stub(log, "first", lambda i, b: given[min(i, N)] * scaling[0]))  # noqa: ARG005
    st.set_solver_slab(P.Stub(log, "general", lambda i, b: given[min(i, N)] * scaling[0]))  # noqa: ARG005
    for kind in args.get("variants", VARIANTS):
        # the solution of the slab before against the right-hand side, and both together: nothing may depend on size
        # (the reference marching starts its loads from 1e-20)
        for b_scale, size in ((1e-3, 1.0), (1.0, 1.0), (1.0, 1e-9 if kind == "reference" else 1e-13), (1.0, 1e12), (1e9, 1.0), (0.0, 1.0)):
            log.clear()
            b = s.rng.standard_normal(s.size) * b_scale * size
            scaling[0] = size
            bv, xv = P.vec(s.size, b), P.vec(s.size, s.rng.standard_normal(s.size))
            x0 = xv.array_r.copy()
            n += 1
            if s.case["jumps"] and kind == "improved":
                try:
                    getattr(st, VARIANTS[kind])(bv, xv)
                except Exception:  # noqa: BLE001 - refuses
                    if log or not np.array_equal(xv.array_r, x0):
                        out.append({"what": "improved marching refuses only after it has started"})
                else:
                    out.append({"what": "improved marching runs although the forward problem has jumps"})
                continue
            getattr(st, VARIANTS[kind])(bv, xv)
            if [e[0] for e in log] != ["first"] + ["general"] * (N - 1):
                out.append({"what": f"{kind} marching: order of the slab solvers", "found": [e[0] for e in log]})
                continue
            ans = [a * size for a in given]
            for k in range(N):
                want = s.slab(b, k) + (s.march @ ans[k - 1] if k else 0.0)
                scale = np.abs(want).max()
                d = np.abs(log[k][1] - want)
                tol = 1e-10 * scale + (2e-20 if kind == "reference" else 0.0)
                if not d.max() <= tol:
                    blocks = [[P.NAMES[c], t, float(d[dof].max())] for (c, _s, t), dof in s.lay_p.items() if not d[dof].max() <= tol]
                    out.append({"what": f"{kind} marching: load of slab {'0' if k == 0 else 'n > 0'}", "slab": k, "size": size, "blocks": blocks[:6]})
            for k in range(N):
                if not np.array_equal(s.slab(xv.array_r, k), ans[k]):
                    out.append({"what": f"{kind} marching: solution vector", "slab": k})
            if not np.array_equal(bv.array_r, b):
                out.append({"what": f"{kind} marching: right-hand side modified"})
    return {"bad": out[:8], "n": n}


def job_exact(args):
    """With exact slab solvers marching solves the lower triangular system; causality."""
    s = Setting(args)
    P, st, N, out, n = s.P, s.st, s.N, [], 0  # noqa: N806
    first, general = P.Exact(st.get_slab_matrix_first_slab()), P.Exact(st.get_slab_matrix())
    st.set_solver_first_slab(first)
    st.set_solver_slab(general)
    pre = P.expected(s.t["pre"], s.lay, s.op)
    asm = P.dense(st.get_spacetime_matrix(precond=True))
    from dxss.space_time import SpaceTimePETScPreconditionerWrapper

    kept = SpaceTimePETScPreconditionerWrapper(st)

    def wrapper(b, x):
        kept.apply(None, b, x)

    res = {}
    variants = {"reference": st.pre_time_marching}
    if not s.case["jumps"]:
        variants.update(improved=st.pre_time_marching_improved, wrapper=wrapper)
    bs = [s.rng.standard_normal(s.size) for _ in range(args.get("random", 3))]
    for k in range(N):
        b = np.zeros(s.size)
        for blk, d in s.lay.items():
            if blk[1] == k:
                b[d] = s.rng.standard_normal(len(d))
        bs.append(b)
    bs.append(np.zeros(s.size))
    for i, b in enumerate(bs):
        for kind, f in variants.items():
            bv, xv = P.vec(s.size, b), P.vec(s.size, s.rng.standard_normal(s.size))
            f(bv, xv)
            x = xv.array_r.copy()
            n += 1
            res[kind, i] = x
            # right-hand sides are of size one, or zero up to the 1e-20 that forms start from
            scale = max(np.abs(b).max(), 1e-8 * np.abs(pre).max() * np.abs(x).max(), 1e-6)
            for m, what in ((pre, "specified"), (asm, "assembled")):
                if s.case["jumps"]:
                    continue
                if not np.abs(m @ x - b).max() <= 1e-6 * scale:
                    rows = [[P.NAMES[blk[0]], blk[1], blk[2]] for blk, d in s.lay.items() if not np.abs((m @ x - b)[d]).max() <= 1e-6 * scale]
                    out.append({"what": f"{kind} marching does not solve the {what} block lower triangular system", "rows": rows[:6]})
            if not np.array_equal(bv.array_r, b):
                out.append({"what": f"{kind} marching: right-hand side modified"})
            if i == 0:
                for size in (-1.0, 1e-9, 1e-5, 1e8):
                    bv, xv = P.vec(s.size, b * size), P.vec(s.size, s.rng.standard_normal(s.size))
                    f(bv, xv)
                    n += 1
                    if not np.abs(xv.array_r / size - x).max() <= 1e-7 * np.abs(x).max():
                        out.append({"what": f"{kind} marching is not linear", "factor": size})
            # causality: change the right-hand side from slab k on
            if i < 2:
                for k in range(1, N):
                    b2 = b.copy()
                    for blk, d in s.lay.items():
                        if blk[1] >= k:
                            b2[d] += s.rng.standard_normal(len(d)) * 100
                    x2 = P.vec(s.size, s.rng.standard_normal(s.size))
                    f(P.vec(s.size, b2), x2)
                    n += 1
                    early = np.concatenate([d for blk, d in s.lay.items() if blk[1] < k])
                    if not np.abs(x2.array_r[early] - x[early]).max() <= 1e-12 * np.abs(x).max():
                        out.append({"what": f"{kind} marching: the solution depends on later right-hand sides", "changed from slab": k})
        for kind in variants:
            if not np.abs(res[kind, i] - res["reference", i]).max() <= 1e-8 * max(1e-6 * np.abs(res["reference", 0]).max(), np.abs(res["reference", i]).max()):
                out.append({"what": f"{kind} and reference marching differ", "relative": float(
                    np.abs(res[kind, i] - res["reference", i]).max() / max(1e-300, np.abs(res["reference", i]).max()))})
    if args.get("vectors") and not s.case["jumps"]:
        import scipy.linalg as sl

        from harness import vectors

        lu = sl.lu_factor(pre)
        ops = {"reference": (st.pre_time_marching, lambda a: sl.lu_solve(lu, a)), "improved": (st.pre_time_marching_improved, lambda a: sl.lu_solve(lu, a)),
               "wrapped": (wrapper, lambda a: sl.lu_solve(lu, a))}
        bad, m = vectors.play(P, args["vectors"], [s.size, s.size], ops, 1e-5, s.rng, "marching")
        out += bad
        n += m
    return {"bad": out[:8], "n": n}


def decompose(vec, cands, want):
    """Token list of a vector over candidate vectors, or "unknown"; the expected one first."""
    scale = max(1e-30, np.abs(vec).max())
    w = sum(cands[t] for t in want)
    if np.abs(vec - w).max() <= 1e-9 * scale:
        return [[list(t), 1] for t in want]
    keys = list(cands)
    basis = np.stack([cands[t] for t in keys], axis=1)
    sol, *_ = np.linalg.lstsq(basis, vec, rcond=None)
    if np.abs(basis @ sol - vec).max() > 1e-6 * scale or len(keys) > len(vec):
        return [[["unknown", 0, 0], 1]]
    return [[list(t), round(float(c), 4)] if abs(c - round(c)) > 1e-4 else [list(t), int(round(c))]
            for t, c in zip(keys, sol) if abs(c) > 1e-6]


def token_list(lst):
    """Coefficients that are no integers cannot be read by TLC; they are wrong in any case."""
    return [[t, c] if isinstance(c, int) else [["part of " + t[0], t[1], t[2]], 1] for t, c in lst]


def job_history(args):
    """Replays histories of calls; returns the recorded events."""
    s = Setting(args)
    P, st, N = s.P, s.st, s.N  # noqa: N806
    rhs = {i: s.rng.standard_normal(s.size) for i in (1, 2)}
    logs = []
    shared = None
    for hno, hist in enumerate(args["histories"]):
        if args["fresh"] or shared is None:
            st = P.make(s.case, s.msh, args["ind"])
            st.prepare_precondition_gmres()
            shared = st
        events, state = [], {"call": 0, "slab": 0}
        answers, bs, size = {}, {}, [1.0]

        class Solver:
            def __init__(self, name, which):
                self.name, self.which = name, which

            def solve(self, b, x, events=events, state=state, answers=answers, bs=bs, size=size):
                c, k = state["call"], state["slab"]
                arr = b.array.copy()
                cand = {("b", cc, j): s.slab(bs[cc], j) for cc in bs if cc in (c, c - 1) for j in range(N)}
                cstart = dict(cand)
                for (cc, j), a in answers.items():
                    cstart["m", cc, j] = s.march @ a
                want = [("b", c, k)]
                wants = want + ([("m", c, k - 1)] if k else [])
                ok = all(t in cstart for t in wants)
                events.append({"ev": "solve", "solver": self.name, "set": self.which,
                               "rest": token_list(decompose(arr[s.rest], {t: v[s.rest] for t, v in cand.items()}, want if ok else [])),
                               "start": token_list(decompose(arr[s.start], {t: v[s.start] for t, v in cstart.items()}, wants if ok else []))})
                answers[c, k] = s.rng.standard_normal(s.size_p) * size[0]
                state["slab"] += 1
                x.array[:] = answers[c, k]

        solvers = {i: (Solver("first", i), Solver("general", i)) for i in (1, 2)}
        current = None
        for kind, r, which in hist:
            if which != current:
                st.set_solver_first_slab(solvers[which][0])
                st.set_solver_slab(solvers[which][1])
                current = which
            state["call"] += 1
            state["slab"] = 0
            c = state["call"]
            size[0] = (1.5, 1.0, 1e-8, 1e4)[(c + hno) % 4]
            bs[c] = rhs[r] * size[0]
            events.append({"ev": "call", "kind": kind, "set": which})
            bv, xv = P.vec(s.size, bs[c]), P.vec(s.size, s.rng.standard_normal(s.size))
            if kind == "apply":
                st.apply_spacetime_matrix(bv, xv)
            else:
                getattr(st, VARIANTS[kind])(bv, xv)
            x = []
            if kind != "apply":
                for j in range(N):
                    got = s.slab(xv.array_r, j)
                    src = [t for t, a in answers.items() if np.array_equal(a, got)]
                    x.append([[["x", *src[0]], 1]] if src else [[["unknown", 0, 0], 1]])
            events.append({"ev": "return", "x": x, "b": bool(np.array_equal(bv.array_r, bs[c]))})
        logs.append({"N": N, "calls": hist, "events": events})
    return logs


# ---- checks -------------------------------------------------------------------
def run_loads(ck, cases, clause, job="c_march:job_loads", extra=None, each=None):
    from harness.c_forms import report, spec_tables

    path, order = spec_tables(ck, cases)
    jobs = [(job, {"case": c, "mesh": c["mesh"], "ind": c["ind"], "tables": path, "index": i, **(extra or {}),
                   **(each[i] if each else {})}, c["env"])
            for i, c in enumerate(cases)]
    report(ck, cases, ck.run_many(jobs), clause)
    ck.sample({"case": order[0]["case"], "load on slab 1 from the solution of slab 0": order[0]["march"]})


def march_cases(thorough):
    from harness.c_forms import INTERLEAVE, SCRAMBLE, case, varied

    cs = [case(1, 1, 3, 2, mesh="line"), case(2, 1, 4, 2, 1, mesh="line3", env=SCRAMBLE), case(1, 2, 2, 2, mesh="square", env=INTERLEAVE),
          case(3, 3, 2, 1, mesh="line", env=SCRAMBLE, ind="outer"), case(3, 0, 3, 2, 1, mesh="line3"), case(1, 1, 1, 2, mesh="line"),
          case(1, 1, 2, 1, mesh="cube", env=SCRAMBLE), case(2, 2, 3, 3, mesh="line3"), case(1, 1, 3, 2, wp=True, mesh="line", env=SCRAMBLE),
          case(2, 1, 2, 2, 1, wp=True, mesh="line3"), case(1, 1, 11, 1, mesh="line3", setup=2)]
    if thorough:
        cs += [case(q, qs, N, 1 + q % 2, ks, mesh="line3", env=SCRAMBLE, wp=(q + N) % 2 == 0)
               for q in range(1, 4) for qs in range(4) for N in (2, 5) for ks in (1, 2)]
        cs += [case(1, 1, 8, 2, mesh="line"), case(1, 1, 13, 1, mesh="line3"), case(2, 2, 2, 2, mesh="square")]
    return varied(cs, 3)


def check_P11(ck):
    from harness import vectors

    ck.tlc("MCMarchField")
    if ck.thorough:
        ck.tlc("MCMarchField", consts={"Prime": "2", "N": "4"})
    from harness.c_forms import large

    large(ck, ["marching"])
    cs = march_cases(ck.thorough)
    run_loads(ck, cs, "marching, loads")
    # exact solvers need invertible slab matrices
    solvable = [c for c in cs if c["q"] > 0]
    hs = vectors.histories(ck, "marching", 8)
    run_loads(ck, solvable, "marching", job="c_march:job_exact", extra={"random": 6 if ck.thorough else 2},
              each=[{"vectors": hs[i % 8][:: 3 if c["mesh"] in ("square", "cube") else 1]} for i, c in enumerate(solvable)])


def check_P12(ck):
    from harness import vectors
    from harness.c_forms import SCRAMBLE, case, spec_tables

    r = ck.tlc("MCMarch", out="histories.json", workers="1", consts={"Calls": "3" if ck.thorough else "2"})
    by_n = {}
    for h in r.data:
        by_n.setdefault(h["N"], []).append(h["calls"])
    cs = [case(1, 1, N, 2, mesh="line", env=[{}, SCRAMBLE][N % 2]) for N in sorted(by_n)] + [case(2, 1, 3, 2, 1, mesh="line", env=SCRAMBLE),
          case(1, 0, 2, 1, 2, mesh="square"), case(1, 1, 3, 2, wp=True, mesh="line3"), case(2, 1, 2, 1, wp=True, mesh="line")]
    path, _order = spec_tables(ck, cs)
    jobs, meta = [], []
    for i, c in enumerate(cs):
        hs = by_n[c["N"]]
        base = {"case": c, "mesh": c["mesh"], "ind": c["ind"], "tables": path, "index": i}
        # all histories one after another on one object, and some on objects of their own
        jobs.append(("c_march:job_history", {**base, "histories": hs, "fresh": False}, c["env"]))
        meta.append((c, "one object"))
        jobs.append(("c_march:job_history", {**base, "histories": hs[:: max(1, len(hs) // 10)], "fresh": True}, c["env"]))
        meta.append((c, "new objects"))
    for (c, what), res in zip(meta, ck.run_many(jobs)):
        info = {k: v for k, v in c.items() if k not in ("apply",) and v not in (None, {})}
        logs = ck.answer(res, f"histories of {info} on {what}")
        if logs is None:
            continue
        v = ck.trace_check("MarchTrace", logs, name="march").data
        ck.traces += len(logs) - 1
        ck.evals += sum(len(h["events"]) for h in logs)
        if not v["accepted"]:
            h = logs[v["history"] - 1]
            ck.violation("marching: " + v["bad"], {"case": info, "objects": what, "calls": h["calls"],
                                                   "events up to the first that is not accepted": h["events"][:v["event"]][-6:]})
        ck.sample({"history": logs[-1]["calls"], "events": logs[-1]["events"][:3]})
    # both variants on the same problems, with exact solvers
    cs = march_cases(ck.thorough)
    hs = vectors.histories(ck, "marching", 16)
    run_loads(ck, cs, "both variants", job="c_march:job_exact", extra={"random": 3},
              each=[{"vectors": [] if c["q"] == 0 else hs[(i + 5) % 16]} for i, c in enumerate(cs)])
    ck.cov.update(histories=len(r.data), exhaustive=True)
