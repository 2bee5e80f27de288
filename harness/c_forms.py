"""P07-P10, P15-P17: the tables of spec/Forms.tla against the matrices and operators of SpaceTime."""
from __future__ import annotations

import json
import os

import numpy as np


# ---- in the worker ----------------------------------------------------------
def load(args):
    with open(args["tables"]) as f:
        return json.load(f)[args["index"]]


def job_matrices(args):
    """Every matrix handed out, against its table.  args: case, mesh, ind, tables, index, what."""
    from harness import problem as P

    t, case = load(args), args["case"]
    msh = P.mesh(args["mesh"])
    st = P.make(case, msh, args["ind"], twins=[P.TWINS[i % len(P.TWINS)] for i in args["twins"]])
    op = P.ops(msh, case, args["ind"])
    lay, lay_p = P.layout(st.fes, case, case["N"]), P.layout(st.fes_p, case, 1)
    out, n = [], 0

    def check(mat, rows, where, what):
        nonlocal n
        n += 1
        r = P.compare(mat if isinstance(mat, np.ndarray) else P.dense(mat), rows, where, op, what)
        if r:
            out.append(r)

    if "slab" in args["what"]:
        check(st.get_slab_matrix(), t["jump"], lay_p, "slab matrix with jump terms")
        st.prepare_precondition_gmres()
        if not (case["jumps"] and case["wp"]):
            check(st.get_slab_matrix_first_slab(), t["first"], lay_p, "matrix of the first slab")
        check(st.get_slab_matrix(), t["jump"], lay_p, "slab matrix with jump terms, after the preparation")
        size = sum(map(len, lay_p.values()))
        nojump = np.zeros((size, size))
        for j in range(size):
            e, y = P.vec(size, np.eye(size)[j]), P.vec(size)
            st.slab_matrix_no_dg_jumps_multiply(e, y)
            nojump[:, j] = y.array
        check(nojump, t["nojump"], lay_p, "multiplication with the slab matrix without jump terms")
        from dolfinx.fem.petsc import assemble_matrix

        for form, rows, what in ((st.get_slab_bfi(), t["jump"], "slab form"),
                                 (st.get_slab_bfi_first_slab(), t["first"], "form of the first slab")):
            if what == "slab form" or not (case["jumps"] and case["wp"]):
                m = assemble_matrix(form)
                m.assemble()
                check(m, rows, lay_p, what)
    if "global" in args["what"]:
        check(st.get_spacetime_matrix(), t["mat"], lay, "space-time matrix")
        m = P.dense(st.get_spacetime_matrix())
        n += 1
        if np.abs(m - m.T).max() > 1e-10 * np.abs(m).max():
            out.append({"what": "symmetry", "difference": float(np.abs(m - m.T).max())})
        from dolfinx.fem.petsc import assemble_matrix

        m = assemble_matrix(st.get_spacetime_bfi())
        m.assemble()
        check(m, t["mat"], lay, "form of the space-time matrix")
    if "precond" in args["what"]:
        st2 = P.make(case, msh, args["ind"])
        check(st2.get_spacetime_matrix(precond=True), t["pre"], P.layout(st2.fes, case, case["N"]), "preconditioning matrix")
    if "coarse" in args["what"]:
        mc = P.mesh(args["coarse"])
        st.prepare_precondition_gmres()
        st.prepare_coarse_grid_correction(mc)
        check_c = P.compare(P.dense(st.get_spacetime_matrix_coarse()), t["mat"],
                            P.layout(st.fes_coarse, case, case["N"]), P.ops(mc, case, args["ind"]), "coarse space-time matrix")
        n += 1
        if check_c:
            out.append(check_c)
    return {"bad": out, "n": n, "unknowns": sum(map(len, lay.values()))}


def job_apply(args):
    """The matrix-free operator on single blocks and on random vectors."""
    from harness import problem as P

    t, case = load(args), args["case"]
    msh = P.mesh(args["mesh"])
    st = P.make(case, msh, args["ind"], twins=[P.TWINS[i % len(P.TWINS)] for i in args["twins"]])
    st.prepare_precondition_gmres()
    op = P.ops(msh, case, args["ind"])
    lay = P.layout(st.fes, case, case["N"])
    want = P.expected(t["mat"], lay, op)
    size = len(want)
    rng = np.random.default_rng(args["seed"])
    out, n = [], 0
    reach = {}
    for rb, cb in P.blocks_of(t["mat"]):
        reach.setdefault(cb, set()).add(rb)
    asm = P.dense(st.get_spacetime_matrix()) if args.get("assembled", True) else None

    def one(x, what, block=None):
        nonlocal n
        n += 1
        junk = rng.standard_normal(size) * 10.0 ** rng.integers(-3, 4) if n % 3 else np.full(size, (np.nan, np.inf, 1e308)[n // 3 % 3])
        xin, y = P.vec(size, x), P.vec(size, junk)
        st.apply_spacetime_matrix(xin, y)
        bad = []
        if not np.array_equal(xin.array_r, x):
            bad.append("the input vector was modified")
        e = want @ x
        tol = 1e-9 * np.abs(want).max() * np.abs(x).max()
        if not np.all(np.isfinite(y.array_r)) or np.abs(y.array_r - e).max() > tol:
            wrong = [[P.NAMES[b[0]], *b[1:]] for b, d in lay.items() if not np.abs(y.array_r[d] - e[d]).max() <= tol]
            bad.append({"differs from the specified operator in": wrong[:12]})
        if asm is not None and not np.abs(y.array_r - asm @ x).max() <= tol:
            bad.append("differs from the assembled matrix")
        if block is not None:
            outside = [[P.NAMES[b[0]], *b[1:]] for b, d in lay.items()
                       if b not in reach.get(block, ()) and not np.abs(y.array_r[d]).max() <= 1e-14 * np.abs(want).max() * np.abs(x).max()]
            if outside:
                bad.append({"reaches": outside[:8]})
        if bad:
            out.append({"what": what, "bad": bad})
        return y.array_r.copy()

    from harness.problem import NAMES

    first = None
    for b, d in lay.items():
        x = np.zeros(size)
        x[d] = rng.standard_normal(len(d))
        one(x, f"applied to {NAMES[b[0]]} of slab {b[1]}, node {b[2]}", b)
    for i in range(args.get("random", 4)):
        x = rng.standard_normal(size)
        if i == 0:
            first = (x, one(x, "applied to a random vector"))
        else:
            factor = (1e-10, 1.0, 1e8)[i % 3]
            one(x * factor, f"applied to a random vector of size {factor}")
    again = one(first[0], "applied to the first random vector again")
    if not np.array_equal(again, first[1]):
        out.append({"what": "same input, different result", "difference": float(np.abs(again - first[1]).max())})
    one(np.zeros(size), "applied to zero")
    # through the wrapper that GMRES uses
    from dxss.space_time import SpaceTimePETScMatrixWrapper

    xin, y = P.vec(size, first[0]), P.vec(size)
    SpaceTimePETScMatrixWrapper(st).mult(None, xin, y)
    n += 1
    if not np.abs(y.array_r - first[1]).max() <= 1e-12 * np.abs(first[1]).max():
        out.append({"what": "wrapper for GMRES", "difference": float(np.abs(y.array_r - first[1]).max())})
    if args.get("vectors"):
        from harness import vectors

        wrapper = SpaceTimePETScMatrixWrapper(st)
        ops = {"apply": (st.apply_spacetime_matrix, lambda a: want @ a), "wrapped": (lambda a, b: wrapper.mult(None, a, b), lambda a: want @ a)}
        bad, m = vectors.play(P, args["vectors"], [size, size], ops, 1e-9, rng, "operator")
        out += bad
        n += m
    return {"bad": out, "n": n, "unknowns": size}


def job_large(args):
    """Many unknowns or many slabs: matrix, operator, gather and scatter of the marching.  args: case, mesh, tables."""
    from harness import problem as P

    t, case, what = load(args), args["case"], args["what"]
    N = case["N"]  # noqa: N806
    msh = P.mesh(args["mesh"])
    st = P.make(case, msh, args["ind"])
    st.prepare_precondition_gmres()
    op = P.ops(msh, case, args["ind"], sparse=True)
    lay, lay_p = P.layout(st.fes, case, N), P.layout(st.fes_p, case, 1)
    size, size_p = sum(map(len, lay.values())), sum(map(len, lay_p.values()))
    out, n, rng = [], 0, np.random.default_rng(args["seed"])
    if not np.array_equal(np.sort(np.concatenate(list(lay.values()))), np.arange(size)) or st.get_spacetime_rhs().getSize() != size:
        return {"bad": [{"what": "unknowns of the global vector", "size": st.get_spacetime_rhs().getSize(), "specified": size}], "n": 1}
    want = P.expected_sparse(t["mat"], lay, op)

    def where(got, ref, tol):
        return [[P.NAMES[b[0]], *b[1:]] for b, d in lay.items() if not np.abs(got[d] - ref[d]).max() <= tol][:8]

    if "operator" in what:
        for k in range(4):
            x = rng.standard_normal(size)
            if k == 3:  # one slab only
                for b, d in lay.items():
                    if b[1] != N // 2:
                        x[d] = 0.0
            y = P.vec(size, rng.standard_normal(size))
            st.apply_spacetime_matrix(P.vec(size, x), y)
            e = want @ x
            n += 1
            if not np.abs(y.array_r - e).max() <= 1e-9 * np.abs(e).max():
                out.append({"what": "operator with many unknowns", "differs in": where(y.array_r, e, 1e-9 * np.abs(e).max()), "unknowns": size})
    if "matrix" in what:
        for pre, tab in ((False, want), (True, P.expected_sparse(t["pre"], lay, op))):
            # the form that is handed out belongs to the object: two of them
            s = P.make(case, msh, args["ind"], setup=False)
            s.setup_spacetime_finite_elements()
            d = abs(P.csr(s.get_spacetime_matrix(precond=pre)) - tab).max()
            n += 1
            if not d <= 2e-10 * abs(tab).max():
                out.append({"what": "assembled matrix with many unknowns", "preconditioning": pre, "difference": float(d), "unknowns": size})
    if "marching" in what:
        lt = [[[*k[:1], 0, *k[2:4], 0, *k[5:]], v] for k, v in t["march"]]
        carry = P.expected_sparse(lt, lay_p, op)

        def part(x, s):
            v = np.zeros(size_p)
            for (c, sl, nd), d in lay.items():
                if sl == s:
                    v[lay_p[c, 0, nd]] = x[d]
            return v

        for march in ("pre_time_marching", "pre_time_marching_improved"):
            log = []
            ans = [rng.standard_normal(size_p) for _ in range(N)]
            solver = [P.Stub(log, w, lambda i, b, ans=ans: ans[min(i, N - 1)]) for w in ("first", "general")]  # noqa: ARG005
            st.set_solver_first_slab(solver[0])
            st.set_solver_slab(solver[1])
            for _rep in range(2):
                log.clear()
                b = rng.standard_normal(size)
                xv = P.vec(size, rng.standard_normal(size))
                getattr(st, march)(P.vec(size, b), xv)
                n += 1
                if [e[0] for e in log] != ["first"] + ["general"] * (N - 1):
                    out.append({"what": f"{march}: order of the slab solvers with many slabs"})
                    break
                for s in range(N):
                    e = part(b, s) + (carry @ ans[s - 1] if s else 0.0)
                    if not np.abs(log[s][1] - e).max() <= 1e-10 * np.abs(e).max():
                        out.append({"what": f"{march}: load with many unknowns", "slab": s, "unknowns": size})
                        break
                    if not np.array_equal(part(xv.array_r, s), ans[s]):
                        out.append({"what": f"{march}: solution with many unknowns", "slab": s, "unknowns": size})
                        break
    return {"bad": out[:8], "n": n, "unknowns": size}


def large_cases(thorough):
    """More than 2**15 and 2**16 unknowns, in many cells or in many slabs."""
    cs = [case(1, 1, 16, 1, mesh="line-600"), case(1, 1, 40, 1, 2, mesh="line3"), case(1, 0, 12, 1, mesh="grid-44", ind="outer", env=INTERLEAVE)]
    if thorough:
        cs += [case(1, 1, 100, 1, mesh="line8", env=SCRAMBLE), case(2, 1, 20, 2, 1, mesh="line-300", env=SCRAMBLE),
               case(1, 1, 3, 2, mesh="grid-40", env=SCRAMBLE), case(1, 1, 16, 1, mesh="line-1100")]
    return varied(cs, 3, 1)


def large(ck, what):
    cs = large_cases(ck.thorough)
    run_cases(ck, "c_forms:job_large", cs, "many unknowns", {"what": what})


def job_layout(args):
    """Gather and scatter of every slab, of the coupling and of the marching.  args: case, mesh, unknowns, reach, carried."""
    from harness import problem as P

    case, out, n = args["case"], [], 0
    N, q = case["N"], case["q"]  # noqa: N806
    msh = P.mesh(args["mesh"])
    st = P.make(case, msh, args["ind"])
    st.prepare_precondition_gmres()
    rng = np.random.default_rng(args["seed"])

    # every unknown is a set of dofs of the global vector and of the vector of its slab
    unk = args["unknowns"]
    glob = [P.sub_dofs(st.fes, u["comp"] - 1, u["sub"]) for u in unk]
    loc = [P.sub_dofs(st.fes_p, u["comp"] - 1, u["node"]) for u in unk]
    size = st.get_spacetime_rhs().getSize()
    size_p = st.get_slab_matrix().getSize()[0]
    n += 2
    if sorted(np.concatenate(glob).tolist()) != list(range(size)):
        out.append({"what": "unknowns of the global vector", "size": size, "specified": sum(map(len, glob))})
    slab0 = [loc[i] for i, u in enumerate(unk) if u["slab"] == 0]
    if sorted(np.concatenate(slab0).tolist()) != list(range(size_p)):
        out.append({"what": "unknowns of a slab vector", "size": size_p, "specified": sum(map(len, slab0))})
    if out:
        return {"bad": out, "n": n}
    name = [[P.NAMES[u["comp"]], u["slab"], u["node"]] for u in unk]

    # the operator
    for i in range(len(unk)):
        x = np.zeros(size)
        x[glob[i]] = 1 + rng.random(len(glob[i]))
        y = P.vec(size, rng.standard_normal(size))
        st.apply_spacetime_matrix(P.vec(size, x), y)
        n += 1
        reached = [j for j in range(len(unk)) if not np.abs(y.array_r[glob[j]]).max() <= 1e-13 * np.abs(y.array_r).max()]
        wrong = [name[j] for j in reached if j + 1 not in args["reach"][i]]
        if wrong:
            out.append({"what": "operator touches unknowns of another slab", "from": name[i], "to": wrong[:6]})
        if unk[i]["comp"] <= 2:
            lost = [name[j - 1] for j in args["reach"][i] if unk[j - 1]["slab"] != unk[i]["slab"] and j - 1 not in reached]
            if lost:
                out.append({"what": "operator does not couple neighbouring slabs", "from": name[i], "to": lost})

    # marching: what a slab solver is given and where its answer goes
    carried = {i - 1 for i in args["carried"]}
    for march in ("pre_time_marching", "pre_time_marching_improved"):
        log = []
        ans = [rng.standard_normal(size_p) for _ in range(N + 1)]

        def answers(i, b, ans=ans):  # noqa: ARG001
            return ans[min(i, len(ans) - 1)]

        st.set_solver_first_slab(P.Stub(log, "first", answers))
        st.set_solver_slab(P.Stub(log, "general", answers))
        for _rep in range(2):
            log.clear()
            b = rng.standard_normal(size)
            bv, xv = P.vec(size, b), P.vec(size, rng.standard_normal(size))
            getattr(st, march)(bv, xv)
            n += 1
            if len(log) != N:
                out.append({"what": f"{march}: number of slab solves", "found": len(log), "slabs": N})
                break
            for i, u in enumerate(unk):
                got = log[u["slab"]][1][loc[i]]
                if i not in carried and not np.abs(got - b[glob[i]]).max() <= 1e-12:
                    out.append({"what": f"{march}: gathered for the slab solver", "unknown": name[i]})
                if not np.array_equal(xv.array_r[glob[i]], ans[u["slab"]][loc[i]]):
                    out.append({"what": f"{march}: scattered into the solution", "unknown": name[i]})
    return {"bad": out[:12], "n": n}


# ---- checks -------------------------------------------------------------------
def case(q, qs, N, k, ks=None, jumps=False, wp=False, mesh="square", ind="left", apply=False, env=None, coarse=None, setup=1):  # noqa: N803
    return {"q": q, "qs": qs, "N": N, "k": k, "ks": ks or k, "jumps": jumps, "wp": wp, "mesh": mesh, "ind": ind,
            "apply": apply, "env": env or {}, "coarse": coarse, "setup": setup}


def spec_tables(ck, cases):
    path = os.path.join(ck.scratch, "cases.json")
    with open(path, "w") as f:
        json.dump([{k: c[k] for k in ("q", "qs", "N", "k", "jumps", "wp", "apply", "setup")} for c in cases], f)
    r = ck.tlc("MCForms", env={"CASES": path}, out="forms.json", workers="1")
    recs = r.data
    # collected in the order of exploration; bring them in the order of the cases
    order = []
    for c in cases:
        want = {k: c[k] for k in ("q", "qs", "N", "k", "jumps", "wp", "apply", "setup")}
        order.append(next(rec for rec in recs if rec["case"] == want))
    path = os.path.join(ck.scratch, "tables.json")
    with open(path, "w") as f:
        json.dump(order, f)
    return path, order


def big(c):
    return c["mesh"] in ("cube", "square", "line8")


def run_cases(ck, job, cases, clause, extra=None, par=7, each=None):
    path, order = spec_tables(ck, cases)
    jobs = [(job, {"case": c, "mesh": c["mesh"], "ind": c["ind"], "tables": path, "index": i, "coarse": c["coarse"],
                   "twins": [i] if big(c) else [i, i + 5, i + 8], **(extra or {}), **(each[i] if each else {})}, c["env"]) for i, c in enumerate(cases)]
    for c, res in zip(cases, ck.run_many(jobs, par=par)):
        info = {k: v for k, v in c.items() if k not in ("apply", "env") and v is not None}
        data = ck.answer(res, f"{clause}: {info}")
        if data is None:
            continue
        ck.evals += data["n"]
        ck.traces += data["n"]
        for b in data["bad"]:
            ck.violation(clause + ": " + str(b.get("what", "wrong")), {"case": info, **b})
    ck.sample({"case": order[0]["case"], "table (first entries)": order[0]["mat"][:6]})
    ck.cov.update(cases=len(cases), table_entries=sum(len(o["mat"]) for o in order), exhaustive=False)


SCRAMBLE = {"MINIFEM_NUMBERING": "scramble"}
INTERLEAVE = {"MINIFEM_NUMBERING": "interleave"}


def varied(cs, kinds=7, first=0):
    """With the total times and stabilisations of common.SETUPS in turn."""
    for i, c in enumerate(cs):
        if c["setup"] == 1:
            c["setup"] = 1 + (i + first) % kinds
    return cs


def base_cases(thorough):
    """Degrees, orders in space, numbers of slabs, meshes, numberings."""
    cs = [
        case(1, 1, 3, 2, mesh="square", apply=True),
        case(2, 1, 2, 2, 1, mesh="square", env=SCRAMBLE),
        case(3, 3, 2, 1, mesh="line", env=INTERLEAVE, ind="outer"),
        case(1, 2, 4, 3, mesh="line", env=SCRAMBLE),
        case(2, 2, 3, 2, 2, mesh="line", ind="outer"),
        case(1, 0, 2, 2, mesh="line", env=SCRAMBLE),
        case(3, 0, 3, 2, 3, mesh="line3"),
        case(2, 3, 1, 3, 1, mesh="line3", env=SCRAMBLE),
        case(1, 1, 2, 1, mesh="cube", env=SCRAMBLE),
        case(0, 0, 3, 2, mesh="line3"),
        # a step that does not add up to the total time in floating point
        case(1, 1, 11, 1, mesh="line3", setup=2),
    ]
    if thorough:
        cs += [case(q, qs, N, 2, ks, mesh="line3", env=SCRAMBLE, apply=q + qs < 4)
               for q in range(4) for qs in range(4) for N in (1, 3) for ks in (1, 2)]
        cs += [case(2, 2, 2, 3, mesh="square", env=INTERLEAVE), case(1, 1, 2, 2, mesh="cube"), case(1, 2, 5, 2, mesh="line8"),
               case(2, 1, 8, 1, mesh="line3"), case(1, 1, 13, 1, mesh="line3")]
    return varied(cs)


def check_P08(ck):
    cs = base_cases(ck.thorough) + [
        case(2, 1, 2, 2, 1, jumps=True, mesh="line"), case(2, 2, 2, 2, wp=True, mesh="line"),
    ]
    run_cases(ck, "c_forms:job_matrices", cs, "slab matrices", {"what": ["slab"]})


def check_P09(ck):
    run_cases(ck, "c_forms:job_matrices", base_cases(ck.thorough), "assembled matrix", {"what": ["global", "precond"]})
    large(ck, ["matrix"])


def check_P10(ck):
    from harness import vectors

    large(ck, ["operator"])
    cs = base_cases(ck.thorough) + [case(2, 1, 3, 2, jumps=True, mesh="line"), case(1, 2, 3, 2, 1, wp=True, mesh="line")]
    hs = vectors.histories(ck, "operator", 8)
    run_cases(ck, "c_forms:job_apply", cs, "operator", {"random": 20 if ck.thorough else 4},
              each=[{"vectors": hs[i % 8][:: 3 if c["mesh"] in ("square", "cube") else 1]} for i, c in enumerate(cs)])


def check_P07(ck):
    r = ck.tlc("MCLayout", out="layout.json", workers="1")
    recs = {(x["q"], x["qs"], x["N"]): x for x in r.data}
    envs = [{}, {"MINIFEM_NUMBERING": "scramble"}, {"MINIFEM_NUMBERING": "block"}, INTERLEAVE]
    cs = []
    for i, (q, qs, N) in enumerate(sorted(recs)):  # noqa: N806
        if not ck.thorough and not (N == 3 or (q, qs) in ((1, 1), (2, 1), (1, 3))):
            continue
        for v in range(2 if ck.thorough else 1):
            cs.append(case(q, qs, N, 1 + (i + v) % 2, 1 + (i // 2) % 2, mesh="line3" if (i + v) % 5 else "line", env=envs[(i + v) % 4]))
    cs += [case(1, 2, 3, 2, 1, mesh="square", env=SCRAMBLE), case(2, 1, 2, 1, mesh="cube", env=SCRAMBLE)]
    jobs = []
    for c in cs:
        x = recs[c["q"], c["qs"], c["N"]]
        jobs.append(("c_forms:job_layout", {"case": c, "mesh": c["mesh"], "ind": c["ind"], "unknowns": x["unknowns"],
                                            "reach": x["reach"], "carried": x["carried"]}, c["env"]))
    report(ck, cs, ck.run_many(jobs), "layout")
    large(ck, ["operator", "marching"])
    ck.sample({"layout": r.data[5]["unknowns"][:8]})


def report(ck, cs, results, clause):
    for c, res in zip(cs, results):
        info = {k: v for k, v in c.items() if k not in ("apply",) and v not in (None, {})}
        data = ck.answer(res, f"{clause}: {info}")
        if data is None:
            continue
        ck.evals += data["n"]
        ck.traces += data["n"]
        for b in data["bad"]:
            ck.violation(clause + ": " + str(b.get("what", "wrong")), {"case": info, **b})
    ck.cov.update(cases=len(cs), exhaustive=False)


def check_P16(ck):
    """Initial data: matrices, operator, first slab, preconditioner; switched off in one of them."""
    wp = [case(1, 1, 3, 2, wp=True, mesh="line", apply=True), case(2, 1, 2, 2, 1, wp=True, mesh="square", env=SCRAMBLE),
          case(1, 2, 1, 2, wp=True, mesh="line", ind="outer"), case(3, 0, 2, 1, 2, wp=True, mesh="line3"),
          case(2, 2, 3, 3, wp=True, mesh="line3", env=INTERLEAVE), case(1, 1, 2, 1, wp=True, mesh="cube"),
          case(2, 1, 2, 2, wp=True, jumps=True, mesh="line"), case(0, 0, 3, 2, wp=True, mesh="line3")]
    off = [case(1, 1, 3, 2, mesh="line"), case(2, 1, 1, 2, mesh="line3")]
    if ck.thorough:
        wp += [case(q, qs, N, 2, ks, wp=True, mesh="line3", env=SCRAMBLE) for q in range(4) for qs in range(4) for N in (1, 3) for ks in (1, 2)]
    varied(wp, 3)
    varied(off, 2, 1)
    run_cases(ck, "c_forms:job_matrices", wp + off, "initial data", {"what": ["slab", "global", "precond"]})
    run_cases(ck, "c_forms:job_apply", wp + off, "initial data, operator", {"random": 3})
    c_rhs_cases = [case(c["q"], c["qs"], c["N"], c["k"], c["ks"], wp=c["wp"], mesh=c["mesh"], env=c["env"], setup=c["setup"]) for c in (wp[:8] + off)]
    from harness import c_rhs

    c_rhs.run_rhs(ck, c_rhs_cases, "initial data, right-hand side", what=["initial"])


def check_P17(ck):
    js = [case(1, 1, 3, 2, jumps=True, mesh="line", apply=True), case(2, 1, 2, 2, 1, jumps=True, mesh="square", env=SCRAMBLE),
          case(1, 2, 4, 2, jumps=True, mesh="line3", ind="outer"), case(3, 0, 2, 1, 2, jumps=True, mesh="line3"),
          case(2, 2, 3, 3, jumps=True, mesh="line3", env=INTERLEAVE), case(1, 1, 2, 1, jumps=True, mesh="cube"),
          case(2, 1, 2, 2, wp=True, jumps=True, mesh="line"), case(2, 3, 1, 2, jumps=True, mesh="line3"),
          case(0, 1, 3, 2, jumps=True, mesh="line3"), case(1, 1, 11, 1, jumps=True, mesh="line3", setup=2)]
    off = [case(1, 1, 3, 2, mesh="line"), case(2, 1, 2, 2, mesh="line3")]
    if ck.thorough:
        js += [case(q, qs, N, 2, ks, jumps=True, mesh="line3", env=SCRAMBLE) for q in range(4) for qs in range(4) for N in (2, 3) for ks in (1, 2)]
    varied(js, 3)
    varied(off, 2, 1)
    run_cases(ck, "c_forms:job_matrices", js + off, "forward jumps", {"what": ["slab", "global"]})
    run_cases(ck, "c_forms:job_apply", js + off, "forward jumps, operator", {"random": 3})
    from harness import c_march

    c_march.run_loads(ck, js + off, "forward jumps, marching")
