"""P19: grid transfer and two-level step against spec/MCTransfer.tla and spec/MCTwoLevel.tla."""
from __future__ import annotations

import contextlib
import io
import itertools
import json
from fractions import Fraction

import numpy as np


# ---- in the worker ----------------------------------------------------------
def refined(msh):
    from dolfinx.mesh import refine

    msh.topology.create_entities(1)
    return refine(msh)


def pair(P, name):  # noqa: N803
    """fine and coarse mesh"""
    if name == "square-refined":
        c = P.mesh("squarecoarse")
        return refined(c), c
    if name == "cube-refined":
        c = P.mesh("cube")
        return refined(c), c
    if name == "square-itself":
        m = P.mesh("squarecoarse")
        return m, m
    if name == "square-same":
        return P.mesh("squarecoarse"), P.mesh("squarecoarse")
    f, c = name.split("/")
    return P.mesh(f), P.mesh(c)


def interpolation(msh, x, k, to):
    """Matrix of the interpolation from the nodes x (order k on msh) to the points `to`: polynomials cell by cell."""
    gd = msh.gdim
    powers = [e for e in itertools.product(range(k + 1), repeat=gd) if sum(e) <= k]
    out = np.zeros((len(to), len(x)))
    corners = [msh.points[c][:, :gd] for c in msh.cells]

    def inside(c, pts):
        v = corners[c]
        lam = np.linalg.solve((v[1:] - v[0]).T, (pts - v[0]).T).T
        return (lam > -1e-9).all(axis=1) & (lam.sum(axis=1) < 1 + 1e-9)

    left = np.ones(len(to), bool)
    for c in range(len(corners)):
        i = np.flatnonzero(left & inside(c, to))
        if not len(i):
            continue
        left[i] = False
        n = np.flatnonzero(inside(c, x))
        mid = corners[c].mean(axis=0)
        van = np.stack([np.prod((x[n] - mid) ** np.array(e), axis=1) for e in powers], axis=1)
        assert van.shape[0] == van.shape[1]
        at = np.stack([np.prod((to[i] - mid) ** np.array(e), axis=1) for e in powers], axis=1)
        out[np.ix_(i, n)] = at @ np.linalg.inv(van)
    assert not left.any()
    return out


class Grids:
    def __init__(self, case, name, before=None):
        from harness import problem as P

        self.P, self.case = P, case
        self.fine, self.coarse = pair(P, name)
        self.st = st = P.make(case, self.fine, "left")
        if before:
            # the preparation that counts is the last one
            st.prepare_coarse_grid_correction(P.mesh(before))
        st.prepare_coarse_grid_correction(self.coarse)
        self.lay, self.layc = P.layout(st.fes, case, case["N"]), P.layout(st.fes_coarse, case, case["N"])
        self.nf, self.nc = (sum(len(d) for d in lay.values()) for lay in (self.lay, self.layc))
        gd = self.fine.gdim

        def nodes(fes, comp):
            s = fes.sub(comp).sub(0).collapse()[0]
            return s.tabulate_dof_coordinates()[P.order_of(s)][:, :gd]

        self.up, self.down, self.x = {}, {}, {}
        for comp, k in ((0, case["k"]), (2, case["ks"])):
            xf, xc = nodes(st.fes, comp), nodes(st.fes_coarse, comp)
            self.x[comp > 0] = (xf, xc)
            self.up[comp > 0] = interpolation(self.coarse, xc, k, xf)
            self.down[comp > 0] = interpolation(self.fine, xf, k, xc)

    def whole(self, which):
        """Dense matrix of the transfer of whole vectors."""
        m = np.zeros((self.nf, self.nc) if which == "up" else (self.nc, self.nf))
        tab = getattr(self, which)
        for b in self.lay:
            r, c = (self.lay[b], self.layc[b]) if which == "up" else (self.layc[b], self.lay[b])
            m[np.ix_(r, c)] = tab[b[0] > 2]
        return m


def job_transfer(args):
    case, out, n = args["case"], [], 0
    G = Grids(case, args["grids"], args.get("before"))  # noqa: N806
    P, st = G.P, G.st  # noqa: N806
    rng = np.random.default_rng(args["seed"])

    if args.get("tables"):
        # exact matrices of the specification instead of the ones computed here
        for dual, k in ((False, case["k"]), (True, case["ks"])):
            t = next(t for t in args["tables"] if t["k"] == k)
            for which in ("up", "down"):
                m = np.array([[float(Fraction(*v)) for v in r] for r in t[which]])
                if np.abs(m - getattr(G, which)[dual]).max() > 1e-10:
                    msg = f"two oracles disagree on the interpolation {which} {case}"
                    raise AssertionError(msg)
                getattr(G, which)[dual] = m
    moves = args.get("moves") or [[list(b), list(b), 0] for b in G.lay]

    def run(which, a):
        junk = rng.choice([7.5, 0.0, np.nan, 1e300])
        i, o = (a, np.full(G.nf, junk)) if which == "up" else (a, np.full(G.nc, junk))
        xi, xo = P.vec(len(i), i), P.vec(len(o), o)
        if which == "up":
            st.prolongation(xi, xo)
        else:
            st.restriction(xo, xi)
        if not np.array_equal(xi.array, a):
            out.append({"what": f"{which}: the given vector was modified"})
        return xo.array.copy()

    for which in ("up", "down"):
        lin, lout = (G.layc, G.lay) if which == "up" else (G.lay, G.layc)
        size = G.nc if which == "up" else G.nf
        name = "prolongation" if which == "up" else "restriction"
        # one block at a time
        for fr, to, _k in moves:
            fr, to = tuple(fr), tuple(to)
            a = np.zeros(size)
            a[lin[fr]] = rng.standard_normal(len(lin[fr]))
            got = run(which, a)
            n += 1
            want = np.zeros(len(got))
            want[lout[to]] = getattr(G, which)[fr[0] > 2] @ a[lin[fr]]
            if not np.abs(got - want).max() <= 1e-9:
                bad = [list(b) for b, d in lout.items() if not np.abs(got[d] - want[d]).max() <= 1e-9]
                out.append({"what": f"{name} of a block", "component, slab, node": list(fr), "wrong blocks": bad[:6]})
                if len(out) > 5:
                    return {"bad": out, "n": n}
        for factor in (1.0, 1e-10, 1e8):
            a = rng.standard_normal(size) * factor
            got, want = run(which, a), G.whole(which) @ a
            n += 1
            if not np.abs(got - want).max() <= 1e-9 * np.abs(want).max():
                out.append({"what": f"{name} of a vector", "difference": float(np.abs(got - want).max())})
    if args["nested"]:
        a = rng.standard_normal(G.nc)
        back = run("down", run("up", a))
        n += 1
        if not np.abs(back - a).max() <= 1e-9:
            out.append({"what": "restricting a prolonged vector does not give it back", "difference": float(np.abs(back - a).max())})
    return {"bad": out, "n": n}


def job_twolevel(args):
    """Histories of calls on one object, with stand-ins for the coarse and slab solvers, then exact ones."""
    case, out, n = args["case"], [], 0
    G = Grids(case, args["grids"], args.get("before"))  # noqa: N806
    P, st = G.P, G.st  # noqa: N806
    rng = np.random.default_rng(args["seed"] + 1)
    U, D = G.whole("up"), G.whole("down")  # noqa: N806
    st.prepare_precondition_gmres()
    A = P.dense(st.get_spacetime_matrix())  # noqa: N806
    Ac = P.dense(st.get_spacetime_matrix_coarse())  # noqa: N806
    alone = P.make(case, G.coarse, "left")
    other, la = P.dense(alone.get_spacetime_matrix()), P.layout(alone.fes, case, case["N"])
    n += 1
    if Ac.shape != other.shape:
        return {"bad": [{"what": "the coarse matrix is not that of the coarse mesh", "shape": Ac.shape, "expected": other.shape}], "n": n}
    i, j = (np.concatenate([lay[b] for b in G.lay]) for lay in (G.layc, la))
    if not np.abs(Ac[np.ix_(i, i)] - other[np.ix_(j, j)]).max() <= 1e-10 * np.abs(other).max():
        out.append({"what": "the coarse matrix is not that of the coarse mesh"})
    first, gen = P.Exact(st.get_slab_matrix_first_slab()), P.Exact(st.get_slab_matrix())
    if case["N"] == 1:
        gen = first
    st.set_solver_slab(gen)
    st.set_solver_first_slab(first)
    coarse_given = []
    C = rng.standard_normal((G.nc, G.nc)) / G.nc  # noqa: N806

    class CoarseStub:
        def solve(self, b, x):
            coarse_given.append(b.array.copy())
            x.array[:] = C @ b.array

    fresh = P.make(case, G.fine, "left")
    fresh.set_solver_slab(gen)
    fresh.set_solver_first_slab(first)
    fresh.prepare_precondition_gmres()

    def march(b):
        x = P.vec(G.nf)
        fresh.pre_time_marching(P.vec(G.nf, b), x)
        return x.array.copy()

    rhs = [rng.standard_normal(G.nf) for _ in range(2)]
    crhs = [rng.standard_normal(G.nc) for _ in range(2)]

    def want(kind, r):
        b = rhs[r]
        if kind == "prolong":
            return U @ crhs[r]
        if kind == "restrict":
            return D @ b
        q = U @ (C @ (D @ b))
        return q if kind == "correct" else q + march(b - A @ q)

    wants = {(k, r): want(k, r) for k in ("prolong", "restrict", "correct", "twolevel") for r in range(2)}
    st.set_solver_coarse(CoarseStub())

    def call(kind, r, factor=1.0):
        a = factor * (crhs[r] if kind == "prolong" else rhs[r])
        b = P.vec(len(a), a)
        x = P.vec(G.nc if kind == "restrict" else G.nf)
        x.array[:] = rng.choice([-3.5, np.nan])
        with contextlib.redirect_stdout(io.StringIO()):
            if kind == "prolong":
                st.prolongation(b, x)
            elif kind == "restrict":
                st.restriction(x, b)
            elif kind == "correct":
                st.q_op(b, x)
            else:
                st.pre_twolvl(b, x)
        if not np.array_equal(b.array, a):
            out.append({"what": f"{kind}: the given vector was modified"})
        return x.array.copy()

    for h in args["histories"]:
        for i, (kind, r) in enumerate(h):
            k, factor = len(coarse_given), (1.0, 1e-8, 1e6)[n % 3]
            got, w = call(kind, r - 1, factor), wants[kind, r - 1] * factor
            n += 1
            if not np.abs(got - w).max() <= 1e-8 * np.abs(w).max():
                out.append({"what": f"{kind} after {h[:i]}", "difference": float(np.abs(got - w).max()), "size": float(np.abs(w).max())})
            if kind in ("correct", "twolevel"):
                given = coarse_given[k:]
                d = D @ rhs[r - 1] * factor
                if len(given) != 1 or np.abs(given[0] - d).max() > 1e-9 * np.abs(d).max():
                    out.append({"what": f"{kind}: the coarse solver is not given the restricted vector once", "calls": len(given)})
        if len(out) > 5:
            return {"bad": out, "n": n}
    if args.get("vectors"):
        from harness import vectors

        def quiet(f):
            def g(a, b):
                with contextlib.redirect_stdout(io.StringIO()):
                    f(a, b)
            return g

        def q(a):
            return U @ (C @ (D @ a))

        def two(a):
            return q(a) + march(a - A @ q(a))

        ops = {"correct": (quiet(st.q_op), q), "twolevel": (quiet(st.pre_twolvl), two),
               "prolong": (st.prolongation, lambda a: U @ a), "restrict": (lambda a, b: st.restriction(b, a), lambda a: D @ a)}
        for hs, sizes in ((args["vectors"], [G.nf, G.nf]), (args["transfers"], [G.nc, G.nf])):
            bad, m = vectors.play(P, hs, sizes, ops, 1e-6, rng, "two-level step")
            out += bad
            n += m
    # exactly solved coarse problem: with one slab, or with the same grid, the step solves the system
    st.set_solver_coarse(P.Exact(Ac))
    res = [np.abs(A @ call("twolevel", r) - rhs[r]).max() for r in range(2)]
    n += 2
    cond = np.linalg.cond(A)
    if (case["N"] == 1 or args["grids"].endswith(("same", "itself"))) and not max(res) <= 1e-13 * cond * 10 + 1e-8:
        out.append({"what": "two-level step is not exact", "slabs": case["N"], "residual": float(max(res)), "condition": float(cond)})
    # the coarse solver that is set last is the one that is used
    return {"bad": out, "n": n}


def check_P19(ck):
    from harness import vectors
    from harness.c_forms import INTERLEAVE, SCRAMBLE, case, report

    r = ck.tlc("MCTransfer", out="transfer.json", workers="1")
    h = ck.tlc("MCTwoLevel", out="two.json", workers="1", consts=None if ck.thorough else {"Calls": "2"}).data["histories"]
    moves = {(x["fine"], x["coarse"], x["k"], x["ks"], x["q"], x["qs"], x["N"]): x["moves"] for x in r.data["moves"]}
    tables = r.data["tables"]
    envs = [SCRAMBLE, {}, INTERLEAVE]
    jobs, cs = [], []
    for i, key in enumerate(sorted(moves)):
        fine, coarse, k, ks, q, qs, N = key  # noqa: N806
        if not ck.thorough and i % 9 != (k + ck.seed) % 9:
            continue
        c = case(q, qs, N, k, ks, mesh=fine)
        jobs.append(("c_twolevel:job_transfer", {"case": c, "grids": f"{fine}/{coarse}", "moves": moves[key], "nested": fine == "line8",
                     "before": ["tiny", None, "line3"][i % 3],
                     "tables": [t for t in tables if (t["fine"], t["coarse"]) == (fine, coarse)]}, envs[i % 3]))
        cs.append(c)
    more = [("square-refined", True, case(1, 1, 2, 1, 2)), ("square-refined", True, case(1, 2, 2, 2, 1)), ("square/squarecoarse", False, case(2, 1, 2, 2)),
            ("square-refined", True, case(1, 0, 1, 3, 1)), ("cube-refined", True, case(1, 0, 1, 1)), ("square-same", True, case(2, 1, 2, 1, 2)),
            ("square/squareb", False, case(1, 1, 2, 2, 1)), ("square-itself", True, case(1, 1, 2, 1)), ("line3/line8", False, case(1, 1, 2, 2))]
    if ck.thorough:
        more += [("cube-refined", True, case(1, 1, 1, 2, 1)), ("square-refined", True, case(3, 2, 3, 2, 1)), ("square/squarecoarse", False, case(1, 1, 4, 3, 2))]
    for i, (grids, nested, c) in enumerate(more):
        jobs.append(("c_twolevel:job_transfer", {"case": c, "grids": grids, "nested": nested}, envs[i % 3]))
        cs.append({**c, "grids": grids})
    two = [("line8/line", case(1, 1, 2, 1)), ("line/line3", case(2, 1, 3, 2, 1)), ("line8/line", case(1, 2, 1, 2, 1)), ("square-same", case(1, 1, 2, 1)),
           ("square-refined", case(1, 1, 2, 1)), ("line/line3", case(1, 1, 2, 1, 2, wp=True)), ("line/line3", case(1, 1, 3, 2, jumps=True)),
           ("line/line3", case(0, 1, 2, 1)), ("line/lineb", case(1, 1, 2, 1, 2)), ("square-itself", case(1, 1, 2, 1)), ("line3/line", case(1, 1, 2, 1))]
    vs, ts = vectors.histories(ck, "twolevel", 8), vectors.histories(ck, "transfer", 8)
    for i, (grids, c) in enumerate(two):
        # all ordered pairs of calls are in the histories of every case, split over the cases
        hs = h[i::len(two)] if grids[:4] != "line" or ck.thorough else h[i % 4::4]
        jobs.append(("c_twolevel:job_twolevel", {"case": c, "grids": grids, "histories": hs, "vectors": vs[i % 8], "transfers": ts[i % 8],
                                                     "before": [None, "tiny"][i % 2] if grids[:4] == "line" else [None, "square"][i % 2]},
                     envs[i % 3]))
        cs.append({**c, "grids": grids, "histories": len(hs)})
    report(ck, cs, ck.run_many(jobs, timeout=850), "transfer and two-level step")
    ck.sample({"prolongation for order 1 from line to line8": next(t["up"] for t in tables if t["fine"] == "line8" and t["k"] == 1)})
    ck.sample({"history": h[-1]})
    _ = json
