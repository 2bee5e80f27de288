"""P24 (drivers and back ends) and P20 (solve pipeline) against spec/MCDriver.tla, spec/DriverTrace.tla, spec/MCAdapters.tla,
spec/MCPipeline.tla and spec/PipelineTrace.tla."""
from __future__ import annotations

import contextlib
import importlib
import inspect
import io
import os
import sys

import numpy as np


# ---- in the worker ----------------------------------------------------------
def fakes():
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "fakes"))


class Recorder:
    """Records what a driver does with its problem, at the public interface of SpaceTime and get_gmres_solution."""

    def __init__(self, slabs, meshes):
        import dxss.gmres
        import dxss.meshes
        from dxss import space_time as S  # noqa: N812

        from harness import problem as P

        self.P, self.events, self.depth, self.roles, self.N = P, [], 0, [], slabs
        self.st = self.answer = None
        self.quiet = False
        rec = self
        cls = S.SpaceTime
        init = cls.__init__
        sig = inspect.signature(init)

        def small(self, *a, **k):
            bound = sig.bind(self, *a, **k)
            bound.arguments["N"] = slabs
            init(*bound.args, **bound.kwargs)
            rec.st = self

        self.saved = [(cls, n, getattr(cls, n)) for n in ("__init__", "set_solver_slab", "set_solver_first_slab", "pre_time_marching",
                                                          "pre_time_marching_improved", "measured_errors")]
        self.saved += [(dxss.gmres, "get_gmres_solution", dxss.gmres.get_gmres_solution)]
        cls.__init__ = small

        def wrap(name, f):
            orig = getattr(cls, name)

            def g(self, *a, **k):
                return f(orig, self, *a, **k)

            setattr(cls, name, g)

        def setter(role):
            def f(orig, st, solver):
                holds = rec.probe(solver)
                rec.add({"ev": "set", "role": role, "holds": holds})
                setattr(rec, "last_" + role, solver)
                orig(st, Logged(solver, role, rec))

            return f

        def march(orig, st, b, x):
            rec.depth += 1
            if rec.depth == 1:
                rec.roles = []
            try:
                return orig(st, b, x)
            finally:
                rec.depth -= 1
                if rec.depth == 0:
                    last = rec.events[-1] if rec.events else {}
                    if last.get("ev") == "march" and last["roles"] == rec.roles:
                        last["count"] += 1
                    else:
                        rec.add({"ev": "march", "roles": rec.roles, "count": 1})

        def measure(orig, st, u, *a, **k):
            rec.add({"ev": "measure", "solves": rec.solves(u.array), "same": rec.answer is not None and bool(np.array_equal(rec.answer, u.array))})
            return orig(st, u, *a, **k)

        wrap("set_solver_slab", setter("general"))
        wrap("set_solver_first_slab", setter("first"))
        wrap("pre_time_marching", march)
        wrap("pre_time_marching_improved", march)
        wrap("measured_errors", measure)
        gmres = dxss.gmres.get_gmres_solution

        def solve(*a, **k):
            out = gmres(*a, **k)
            rec.answer = out[0].array.copy()
            rec.add({"ev": "answer", "solves": rec.solves(rec.answer)})
            return out

        dxss.gmres.get_gmres_solution = solve
        if meshes:
            dxss.meshes.get_mesh_data_all_around = lambda *a, **k: [P.mesh("squarecoarse") for _ in range(6)]  # noqa: ARG005
        import matplotlib.pyplot as plt

        plt.show = lambda *a, **k: plt.close("all")  # noqa: ARG005

    def restore(self):
        for obj, name, orig in self.saved:
            setattr(obj, name, orig)

    def add(self, e):
        if not self.quiet:
            self.events.append(e)

    def prepare(self):
        """The reference system, from the problem's own matrices and right-hand side."""
        import scipy.linalg as sl

        P, st = self.P, self.st  # noqa: N806
        self.A = P.dense(st.get_spacetime_matrix())
        self.b = st.get_spacetime_rhs().array.copy()
        pre = P.dense(st.get_spacetime_matrix(precond=True))
        lu = sl.lu_factor(pre)
        self.pre = lambda r: sl.lu_solve(lu, r)
        self.size = np.linalg.norm(self.pre(self.b))
        self.mats = {"slab": P.dense(st.get_slab_matrix()), "first": P.dense(st.get_slab_matrix_first_slab())}

    def solves(self, u):
        """Whether the preconditioned residual is that of a converged solve (relative tolerance of the solver 1e-7)."""
        return bool(np.linalg.norm(self.pre(self.b - self.A @ u)) <= 2e-6 * self.size)

    def probe(self, solver):
        n = len(self.mats["slab"])
        rng = np.random.default_rng(7)
        xs = rng.standard_normal(n)
        for name, m in self.mats.items():
            b = self.P.vec(n, m @ xs)
            x = self.P.vec(n)
            with contextlib.redirect_stdout(io.StringIO()):
                solver.solve(b, x)
            if np.abs(m @ x.array - m @ xs).max() <= 1e-7 * np.abs(m @ xs).max():
                # the other matrix must not be solved as well
                return name
        return "another matrix"


class Logged:
    def __init__(self, solver, role, rec):
        self.__dict__.update(solver=solver, role=role, rec=rec)

    def solve(self, b, x):
        self.rec.roles.append(self.role)
        return self.solver.solve(b, x)

    def __getattr__(self, name):
        return getattr(self.solver, name)


def load(dim, slabs, fake=True):
    if fake:
        fakes()
    rec = Recorder(slabs, dim == 2)
    with contextlib.redirect_stdout(io.StringIO()):
        mod = importlib.import_module(f"dxss.solve_{dim}d")
    rec.prepare()
    return mod, rec


def job_driver(args):
    """Histories of calls of one driver in one process; returns the logs for DriverTrace and the solutions measured."""
    mod, rec = load(args["dim"], args["N"], args.get("fake", True))
    logs = []
    for h in args["histories"]:
        rec.events = []
        # solvers of the history before may still be in use: say so
        for role in ("first", "general"):
            if hasattr(rec, "last_" + role):
                rec.add({"ev": "set", "role": role, "holds": rec.probe(getattr(rec, "last_" + role))})
        for backend, measure in h:
            mod.SOLVER_TYPE = backend
            rec.answer = None
            rec.add({"ev": "call", "backend": backend, "measure": measure})
            os.chdir(args["dir"])
            with contextlib.redirect_stdout(io.StringIO()):
                mod.solve_problem(measure_errors=measure)
            now = rec.st.get_spacetime_rhs().array
            rec.add({"ev": "return", "rhs": bool(np.array_equal(now, rec.b)) and bool(np.array_equal(mod.b_rhs.array, rec.b))})
        logs.append({"N": args["N"], "calls": h, "events": rec.events})
    return logs


def job_adapters(args):
    """Adapters of one driver module: histories of MCAdapters, and the conversion of matrices."""
    import scipy.sparse as sp
    from petsc4py import PETSc

    fakes()
    from harness import problem as P

    mod, rec = load(args["dim"], 2)
    import pypardiso

    out, n = [], 0
    rng = np.random.default_rng(args["seed"])

    def mat(d):
        s = sp.csr_matrix(d)
        m = PETSc.Mat().createAIJ(size=d.shape, csr=(s.indptr, s.indices, s.data))
        m.assemble()
        return m

    size = 12
    pattern = {}
    for name in "AB":
        d = rng.standard_normal((size, size)) * (rng.random((size, size)) < 0.35)
        pattern[name] = d + np.diag(4.0 + rng.random(size))

    def value(of):
        """Entries of a matrix of the specification: same pattern, other values."""
        d = pattern[of["mat"]]
        f = np.where(np.arange(size * size).reshape(size, size) % 3 == of["obj"] % 3, 1.0, 1.0 + 0.2 * (of["obj"] - 1))
        return d * f * (1.0 + 0.5 * of["ver"]) + of["ver"] * np.diag(np.arange(size) * 0.1)

    rhs = [rng.standard_normal(size) for _ in range(2)]

    def lu(m):
        return mod.get_lu_solver(rec.st.msh, m)

    def pardiso(m):
        a = mod.get_sparse_matrix(m)
        s = pypardiso.PyPardisoSolver()
        s.factorize(a)
        return mod.PySolver(a, s)

    from harness import vectors

    for kind, make in (("get_lu_solver", lu), ("PySolver", pardiso)):
        for h in args["histories"]:
            made, used = [], set()
            start = {m: {"mat": m, "obj": 1, "ver": 0} for m in "AB"}
            mats = {m: mat(value(start[m])) for m in "AB"}
            seen = []
            for step in h:
                do, of = step["do"], step["of"]
                m = mats[of["mat"]]
                if do == "make":
                    made.append(make(m))
                    used.add((of["mat"], of["obj"]))
                elif do == "change":
                    s = sp.csr_matrix(value({**of, "ver": of["ver"] + 1}))
                    m.setValuesCSR(s.indptr, s.indices, s.data)
                    m.assemble()
                elif do == "renew":
                    if (of["mat"], of["obj"]) not in used:
                        m.destroy()
                    mats[of["mat"]] = mat(value({**of, "obj": of["obj"] + 1, "ver": 0}))
                elif do == "convert":
                    c = mod.get_sparse_matrix(m)
                    n += 1
                    if not np.array_equal(c.toarray(), value(of)):
                        out.append({"what": "get_sparse_matrix: not the entries of the matrix", "history": h})
                    seen.append((c, value(of)))
                else:
                    b, x = P.vec(size, rhs[step["rhs"] - 1]), P.vec(size, rng.standard_normal(size))
                    made[step["adapter"] - 1].solve(b, x)
                    n += 1
                    if not np.abs(value(of) @ x.array - rhs[step["rhs"] - 1]).max() <= 1e-9:
                        out.append({"what": f"{kind}: not the solution with the matrix it was made for", "history": h})
                    if not np.array_equal(b.array, rhs[step["rhs"] - 1]):
                        out.append({"what": f"{kind}: the right-hand side was modified", "history": h})
            for c, d in seen:
                if not np.array_equal(c.toarray(), d):
                    out.append({"what": "get_sparse_matrix: what was handed out changed afterwards", "history": h})
            if len(out) > 5:
                return {"bad": out, "n": n}
        d = pattern["A"]
        bad, m = vectors.play(P, args["vectors"], [size, size], {"solve": (make(mat(d)).solve, lambda a, d=d: np.linalg.solve(d, a))}, 1e-9, rng, kind)
        out += bad
        n += m
    # conversion
    cases = {"unsymmetric": pattern["A"], "empty rows and columns": np.diag([0.0, 2.0, 0.0, 3.0]) + np.eye(4, k=2) * [[0.0], [5.0], [0.0], [0.0]],
             "wide": rng.standard_normal((3, 5)), "tall": rng.standard_normal((5, 3)) * (rng.random((5, 3)) < 0.5), "one": np.array([[2.5]]),
             "general slab": rec.mats["slab"], "first slab": rec.mats["first"],
             "space-time": rec.A, "tiny and large": np.array([[1e-300, 0, 1e300], [0, -1e-14, 0], [1.0, 0, 0]])}
    real = {"general slab": rec.st.get_slab_matrix, "first slab": rec.st.get_slab_matrix_first_slab, "space-time": rec.st.get_spacetime_matrix}
    for name, d in cases.items():
        m = real[name]() if name in real else mat(d)
        c = mod.get_sparse_matrix(m)
        n += 1
        if not sp.issparse(c) or c.shape != d.shape or not np.array_equal(c.toarray(), d) or c.dtype != np.float64:
            out.append({"what": f"get_sparse_matrix: {name}", "shape": getattr(c, "shape", None)})
        if not np.array_equal(P.dense(m), d):
            out.append({"what": f"get_sparse_matrix modified its argument: {name}"})
    # explicitly stored zeros and entries inserted out of order
    m = PETSc.Mat().createAIJ(size=(3, 3), nnz=3)
    for i, j, v in ((2, 2, 4.0), (0, 2, 1.0), (0, 0, 3.0), (1, 1, 0.0), (2, 0, -2.0), (1, 0, 7.0)):
        m.setValue(i, j, v)
    m.assemble()
    c = mod.get_sparse_matrix(m)
    n += 1
    if not np.array_equal(c.toarray(), [[3, 0, 1], [7, 0, 0], [-2, 0, 4]]):
        out.append({"what": "get_sparse_matrix: stored zeros"})
    return {"bad": out, "n": n}


# ---- checks -------------------------------------------------------------------
def validate(ck, logs, what):
    v = ck.trace_check("DriverTrace", logs, name="driver").data
    ck.traces += len(logs) - 1
    ck.evals += sum(len(x["events"]) for x in logs)
    if not v["accepted"]:
        h = logs[min(v["history"], len(logs)) - 1]
        ck.violation(f"driver: {v['bad']}", {"driver": what, "calls": h["calls"], "events up to the first that is not accepted": h["events"][:v["event"]][-6:]})


def check_P24(ck):
    from harness import vectors
    from harness.c_forms import report

    h = ck.tlc("MCDriver", out="driver.json", workers="1", consts={"Calls": "3"} if ck.thorough else None).data["histories"]
    a = ck.tlc("MCAdapters", out="adapters.json", workers="1", consts={"Steps": "5"} if ck.thorough else None).data
    if ck.thorough:
        a = a[ck.seed % 3::3]
    jobs, info = [], []
    for dim, n, cells in ((1, 4, 5), (2, 2, 0), (3, 3, 2)):
        parts = 4 if ck.thorough else 2
        hs = h if ck.thorough or dim == 1 else [x for i, x in enumerate(h) if i % 2 == dim % 2]
        for p in range(parts):
            jobs.append(("c_drivers:job_driver", {"dim": dim, "N": n, "histories": hs[p::parts]}, {"MINIFEM_MAX_CELLS_PER_AXIS": cells or 3}))
            info.append(f"solve_{dim}d")
    res = ck.run_many(jobs, timeout=850)
    for (_, args, _e), name, r in zip(jobs, info, res):
        logs = ck.answer(r, f"driver {name}")
        if logs is not None:
            validate(ck, logs, name)
            ck.sample({"driver": name, "calls": logs[-1]["calls"], "events": logs[-1]["events"][:5]})
    hs = vectors.histories(ck, "solver")[0]
    ad = [("c_drivers:job_adapters", {"dim": d, "histories": a, "vectors": hs}, {"MINIFEM_MAX_CELLS_PER_AXIS": 2}) for d in (1, 2, 3)]
    report(ck, [{"adapters of": f"solve_{d}d"} for d in (1, 2, 3)], ck.run_many(ad, timeout=850), "adapter")


# ---- P20 ------------------------------------------------------------------------
def digits(x):
    return 16 if x == 0 else int(np.clip(np.floor(-np.log10(x)), -16, 16)) if np.isfinite(x) else -16


def slab_solver(P, kind, mod, mat, msh):  # noqa: N803
    if kind == "LU":
        return mod.get_lu_solver(msh, mat)
    if kind == "pardiso":
        import pypardiso

        a = mod.get_sparse_matrix(mat)
        s = pypardiso.PyPardisoSolver()
        s.factorize(a)
        return mod.PySolver(a, s)
    return P.Exact(mat)


def job_pipeline(args):
    """Every configuration on one object, one after the other, for several right-hand sides."""
    import scipy.linalg as sl
    from petsc4py import PETSc

    fakes()
    from harness import problem as P
    from harness.c_twolevel import pair

    # the module of one of the drivers, for its adapters
    mod, rec = load(args["driver"], 1)
    rec.restore()
    from dxss.gmres import get_gmres_solution
    from dxss.space_time import SpaceTimePETScMatrixWrapper, SpaceTimePETScPreconditionerWrapper

    case, log = args["case"], [{"ev": "problem", "name": str(args["case"])}]
    rng = np.random.default_rng(args["seed"])
    fine, coarse = pair(P, args["grids"])
    from dxss.space_time import ValueAndDerivative

    st = P.make(case, fine, args["ind"], solution=ValueAndDerivative(lambda t, x: (1.0 + t - t * t) * (1.0 - x[0] * x[0]), lambda t, x: (1.0 - 2 * t) * (1.0 - x[0] * x[0])))
    if case["wp"]:
        st.u1_0.x.array[:] = rng.standard_normal(len(st.u1_0.x.array))
        st.u2_0.x.array[:] = rng.standard_normal(len(st.u2_0.x.array))
    st.prepare_precondition_gmres()
    st.prepare_coarse_grid_correction(coarse)
    st.set_solver_coarse(mod.get_lu_solver(coarse, st.get_spacetime_matrix_coarse()))
    mat = st.get_spacetime_matrix()
    A = P.dense(mat)  # noqa: N806
    n = len(A)
    lu = sl.lu_factor(A)
    plu = sl.lu_factor(P.dense(st.get_spacetime_matrix(precond=True))) if not case["jumps"] else lu
    lay = P.layout(st.fes, case, case["N"])
    late = np.zeros(n)
    for (c, s, t), d in lay.items():
        if s == case["N"] - 1:
            late[d] = rng.standard_normal(len(d))
    b = {"problem": st.get_spacetime_rhs().array.copy(), "random": A @ rng.standard_normal(n), "late": A @ late, "zero": np.zeros(n)}
    direct = {k: sl.lu_solve(lu, v) for k, v in b.items()}

    class Mult:
        def mult(self, m, x, y):  # noqa: ARG002
            mat.mult(x, y)

    class Pre:
        def __init__(self, f):
            self.f = f

        def apply(self, pc, x, y):  # noqa: ARG002
            self.f(x, y)

    def bicgstab(op, pre, v):
        m = PETSc.Mat().createPython(n, op)
        m.setUp()
        ksp = PETSc.KSP().create()
        ksp.setOperators(m)
        ksp.setType("bcgs")
        ksp.setTolerances(rtol=1e-11, atol=1e-60, max_it=500)
        ksp.getPC().setType("python")
        ksp.getPC().setPythonContext(pre)
        x = m.createVecRight()
        ksp.solve(v, x)
        return x

    # one adapter each for all systems: every use counts on its own, also for inputs of the same size
    wrapped = SpaceTimePETScMatrixWrapper(st), SpaceTimePETScPreconditionerWrapper(st)

    kept_in, kept_out = P.vec(n), P.vec(n)

    def adapters():
        v = rng.standard_normal(n)
        w = v.copy()
        w[np.abs(late) > 0] *= -1
        for x in (v, -v, v, w, np.roll(v, 1), 1e-9 * v, np.zeros(n), v):
            for i, (f, ref) in enumerate(((wrapped[0].mult, lambda z: A @ z), (wrapped[1].apply, lambda z: sl.lu_solve(plu, z)))):
                if i and case["jumps"]:
                    continue
                if len(log) % 3:
                    xin, y = kept_in, kept_out
                    xin.array[:], y.array[:] = x, rng.standard_normal(n)
                else:
                    xin, y = P.vec(n, x), P.vec(n, rng.standard_normal(n))
                f(None, xin, y)
                want = ref(x)
                size = np.linalg.norm(want) or np.linalg.norm(ref(v))
                log.append({"ev": "apply", "what": ["operator", "preconditioner"][i], "digits": digits(np.linalg.norm(y.array_r - want) / size),
                            "kept": bool(np.array_equal(xin.array_r, x))})

    kept_b, last = P.vec(n), None
    for cfg in args["configs"]:
        if last != cfg["slab"]:
            st.set_solver_slab(slab_solver(P, cfg["slab"], mod, st.get_slab_matrix(), fine))
            st.set_solver_first_slab(slab_solver(P, cfg["slab"], mod, st.get_slab_matrix_first_slab(), fine))
            last = cfg["slab"]
            adapters()
        op = wrapped[0] if cfg["op"] == "matrixfree" else Mult()
        pre = {"improved": wrapped[1], "reference": Pre(st.pre_time_marching), "twolevel": Pre(st.pre_twolvl)}[cfg["pre"]]
        v = kept_b if len(log) % 2 else P.vec(n)
        v.array[:] = b[cfg["data"]]
        name = {k: cfg[k] for k in ("op", "pre", "slab", "iter")}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if cfg["iter"] == "bicgstab":
                    x = bicgstab(op, pre, v).array
                else:
                    x = get_gmres_solution(op, v, pre, maxsteps=5000, tol=1e-60 if cfg["data"] != "zero" else 1e-30, reltol=1e-11,
                                           restart=n if cfg["iter"] == "gmres" else max(40, n // 2), printrates=False)[0].array
        except Exception as e:  # noqa: BLE001
            log.append({"ev": "failed", "config": name, "data": cfg["data"], "why": f"{type(e).__name__}: {e}"[:300]})
            continue
        w = b[cfg["data"]]
        size = np.linalg.norm(sl.lu_solve(plu, w)) or 1.0
        ds = np.linalg.norm(direct[cfg["data"]]) or 1.0
        log.append({"ev": "solve", "config": name, "data": cfg["data"], "residual": digits(np.linalg.norm(sl.lu_solve(plu, w - A @ x)) / size),
                    "difference": digits(np.linalg.norm(x - direct[cfg["data"]]) / ds), "kept": bool(np.array_equal(v.array, w))})
    return log


def job_refine(args):
    """Mesh and time steps refined together; solved as the drivers do; errors as measured."""
    import dolfinx.mesh as dm
    import ufl
    from mpi4py import MPI

    fakes()
    from dxss.gmres import get_gmres_solution
    from dxss.space_time import (
        DataDomain,
        OrderSpace,
        OrderTime,
        SpaceTime,
        SpaceTimePETScMatrixWrapper,
        SpaceTimePETScPreconditionerWrapper,
        ValueAndDerivative,
    )
    from harness import problem as P

    dim, q = args["dim"], args["q"]
    log, first = [{"ev": "problem", "name": f"refinement in {dim} dimensions, order {q}"}], None
    om = dim**0.5 * np.pi

    def space(x):
        s = ufl.sin(np.pi * x[0])
        for i in range(1, dim):
            s = s * ufl.sin(np.pi * x[i])
        return s

    def ind(x):
        inside = np.ones(x.shape[1], dtype=bool)
        for i in range(dim):
            inside &= (x[i] > 0.25) & (x[i] < 0.75)
        return np.where(inside, 0.0, 1.0)

    for lvl in args["levels"]:
        msh = dm.create_unit_interval(MPI.COMM_WORLD, 4 * 2**lvl) if dim == 1 else dm.create_unit_square(MPI.COMM_WORLD, 4 * 2**lvl, 4 * 2**lvl)
        st = SpaceTime(OrderTime(q, q if q == 1 else args["qs"]), OrderSpace(q, args["ks"]), N=2 ** (lvl + 1), T=1.0, t=0, msh=msh,
                       omega=DataDomain(indicator_function=ind), stabilisation_terms={"data": 1e4, "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0},
                       solution=ValueAndDerivative(lambda t, x: ufl.cos(om * t) * space(x), lambda t, x: -om * ufl.sin(om * t) * space(x)))
        st.setup_spacetime_finite_elements()
        st.prepare_precondition_gmres()

        class Sparse:
            def __init__(self, mat):
                import scipy.sparse as sp
                import scipy.sparse.linalg as sla

                ai, aj, av = mat.getValuesCSR()
                self.lu = sla.splu(sp.csc_matrix(sp.csr_matrix((av, aj, ai), shape=mat.getSize())))

            def solve(self, b, x):
                x.array[:] = self.lu.solve(b.array)

        st.set_solver_slab(Sparse(st.get_slab_matrix()))
        st.set_solver_first_slab(Sparse(st.get_slab_matrix_first_slab()))
        with contextlib.redirect_stdout(io.StringIO()):
            u, _ = get_gmres_solution(SpaceTimePETScMatrixWrapper(st), st.get_spacetime_rhs(), SpaceTimePETScPreconditionerWrapper(st), maxsteps=100000, tol=1e-7, printrates=False)
            e = st.measured_errors(u)
        e = [float(e[k]) for k in sorted(e)]
        first = first or e
        log.append({"ev": "level", "level": lvl, "raw": [round(x, 8).hex() for x in e], "errors": [int(min(2e9, round(1e6 * x / f))) for x, f in zip(e, first)]})
    _ = P
    return log


def job_exact(args):
    """The exact solution of a driver solves the wave equation and comes with its time derivative."""
    mod, _ = load(args["dim"], 1)
    d, out, n = args["dim"], [], 0
    rng = np.random.default_rng(args["seed"])

    def u(t, x):
        return float(mod.sample_sol(float(t), [float(v) for v in x]))

    def du(t, x):
        return float(mod.dt_sample_sol(float(t), [float(v) for v in x]))

    for _ in range(30):
        t, x, h = rng.uniform(0.05, 0.95), rng.uniform(0.05, 0.95, d), 1e-4
        n += 1
        e = np.eye(d)
        der = (u(t + h, x) - u(t - h, x)) / (2 * h)
        tt = (u(t + h, x) - 2 * u(t, x) + u(t - h, x)) / h**2
        lap = sum((u(t, x + h * e[i]) - 2 * u(t, x) + u(t, x - h * e[i])) / h**2 for i in range(d))
        if not abs(der - du(t, x)) <= 1e-4 * (1 + abs(der)):
            out.append({"what": "the time derivative is not that of the solution", "t": t, "x": x.tolist(), "given": du(t, x), "difference quotient": der})
        if not abs(tt - lap) <= 1e-3 * (1 + abs(tt)):
            out.append({"what": "the solution does not solve the wave equation", "t": t, "x": x.tolist()})
        i, side = rng.integers(d), float(rng.integers(2))
        xb = x.copy()
        xb[i] = side
        if not abs(u(t, xb)) <= 1e-9:
            out.append({"what": "the solution is not zero on the boundary", "t": t, "x": xb.tolist()})
    return {"bad": out[:6], "n": n}


def check_P20(ck):
    from harness.c_forms import INTERLEAVE, SCRAMBLE, case, report

    r = ck.tlc("MCPipeline", out="pipeline.json", workers="1")
    cfgs = r.data
    rng = np.random.default_rng(ck.seed)
    cs = [("line/line3", "left", case(1, 1, 3, 2)), ("line8/line", "outer", case(2, 1, 2, 1, wp=True)), ("square/squarecoarse", "outer", case(1, 1, 2, 1)),
          ("line/line3", "all", case(1, 2, 3, 2, 1, jumps=True)), ("line/line3", "graded", case(2, 2, 4, 1)), ("line8/line", "left", case(3, 0, 2, 2, 1))]
    if ck.thorough:
        cs += [("line8/line", "left", case(1, 1, 8, 1)), ("square/squarecoarse", "all", case(2, 1, 3, 2, 1)), ("line/line3", "left", case(3, 3, 3, 3)),
               ("line/line3", "outer", case(2, 1, 3, 2, jumps=True, wp=True)), ("cube-refined", "all", case(1, 1, 2, 1))]
    jobs, info = [], []
    for i, (grids, ind, c) in enumerate(cs):
        mine = [x for x in cfgs if x["jumps"] == c["jumps"]]
        # keep the slab solvers in runs, everything else in random order
        order = rng.permutation(len(mine))
        mine = [mine[j] for j in order]
        if not ck.thorough:
            mine = mine[:80]
        mine.sort(key=lambda x: x["slab"])
        jobs.append(("c_drivers:job_pipeline", {"case": c, "grids": grids, "ind": ind, "configs": mine, "driver": 1 + 2 * (i % 2)},
                     {**[SCRAMBLE, {}, INTERLEAVE][i % 3], "MINIFEM_MAX_CELLS_PER_AXIS": 2}))
        info.append({"case": {k: v for k, v in c.items() if v not in (None, {})}, "grids": grids})
    levels = [(1, 1, 1, 1, [0, 1, 2]), (1, 2, 0, 1, [0, 1, 2]), (1, 3, 0, 1, [0, 1]), (2, 1, 1, 1, [0, 1]), (2, 2, 0, 1, [0, 1])]
    if ck.thorough:
        levels += [(1, 1, 1, 1, [0, 1, 2, 3, 4]), (1, 3, 3, 3, [0, 1, 2]), (1, 2, 2, 2, [0, 1, 2, 3]), (2, 1, 1, 1, [0, 1, 2]), (1, 3, 0, 1, [0, 1, 2])]
    for d, q, qs, ks, lv in levels:
        jobs.append(("c_drivers:job_refine", {"dim": d, "q": q, "qs": qs, "ks": ks, "levels": lv}, {}))
        info.append({"refinement": [d, q, qs, ks, lv]})
    for i, res in zip(info, ck.run_many(jobs, timeout=850)):
        log = ck.answer(res, f"pipeline {i}")
        if log is None:
            continue
        v = ck.trace_check("PipelineTrace", log, name="pipe").data
        ck.evals += len(log) - 1
        if not v["accepted"]:
            ck.violation(f"pipeline: {v['bad']}", {**i, "event": log[v["event"] - 1], "before": log[max(0, v["event"] - 3):v["event"] - 1]})
        ck.sample({**i, "event": log[-1]})
    # the same through the drivers, with every back end
    runs = [("c_drivers:job_driver", {"dim": d, "N": n, "histories": [[(b, True) for b in bs] for bs in
             (("direct", "petsc-LU", "pypardiso"), ("pypardiso", "direct"), ("petsc-LU", "direct"))]}, {"MINIFEM_MAX_CELLS_PER_AXIS": cells})
            for d, n, cells in ((1, 3, 6), (2, 3, 3), (3, 2, 2))]
    for (_, a, _e), res in zip(runs, ck.run_many(runs, timeout=850)):
        logs = ck.answer(res, f"driver solve_{a['dim']}d")
        if logs is not None:
            validate(ck, logs, f"solve_{a['dim']}d")
    ds = [{"exact solution of": f"solve_{d}d"} for d in (1, 2, 3)]
    report(ck, ds, ck.run_many([("c_drivers:job_exact", {"dim": d}, {"MINIFEM_MAX_CELLS_PER_AXIS": 2}) for d in (1, 2, 3)]), "exact solution")
