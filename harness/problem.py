"""Problems for the code under test: meshes, data domains, layouts and operators in space.

Runs in the worker.  Nothing here reads private attributes of SpaceTime: spaces come from `fes` and `fes_p`,
matrices and vectors from the getters, operators in space are assembled here on their own spaces.
"""
from __future__ import annotations

import contextlib
import dataclasses
import io
from fractions import Fraction

import numpy as np
import ufl
from dolfinx import fem
from dolfinx.fem.petsc import assemble_matrix, assemble_vector
from minifem.mesh import Mesh
from mpi4py import MPI
from petsc4py import PETSc

from harness.common import SETUPS

from dxss.space_time import (
    DataDomain,
    OrderSpace,
    OrderTime,
    ProblemParameters,
    SpaceTime,
    ValueAndDerivative,
)

STAB = ("data", "dual", "primal", "primal-jump")


def total(case):
    return SETUPS[case.get("setup", 1) - 1]["T"][0] / SETUPS[case.get("setup", 1) - 1]["T"][1]


def stabilisation(case):
    return {k: v[0] / v[1] for k, v in zip(STAB, SETUPS[case.get("setup", 1) - 1]["g"])}


OPS = ("M", "K", "Mom", "F", "Ft", "Bh", "J", "h2M", "h2L", "h2Lt", "h2LL")


def mesh(name):
    """Meshes without any symmetry, so that no two operators in space are multiples of each other."""
    comm = MPI.COMM_WORLD
    if name == "line":
        p = np.array([[0.0], [0.21], [0.37], [0.7], [1.0]])
        return Mesh(comm, p, [(i, i + 1) for i in range(4)], "interval")
    if name == "lineb":  # as many cells as "line"
        p = np.array([[0.0], [0.33], [0.5], [0.85], [1.0]])
        return Mesh(comm, p, [(i, i + 1) for i in range(4)], "interval")
    if name == "tiny":
        return Mesh(comm, np.array([[0.0], [0.4], [1.0]]), [(0, 1), (1, 2)], "interval")
    if name == "line3":
        p = np.array([[0.0], [0.3], [0.45], [1.0]])
        return Mesh(comm, p, [(i, i + 1) for i in range(3)], "interval")
    if name.startswith("line-"):  # many cells
        n = int(name[5:])
        p = np.linspace(0.0, 1.0, n + 1)[:, None] ** 1.1
        return Mesh(comm, p, [(i, i + 1) for i in range(n)], "interval")
    if name.startswith("grid-"):
        n = int(name[5:])
        s = np.linspace(0.0, 1.0, n + 1)
        p = np.array([[x**1.1, y**1.05] for y in s for x in s])
        at = [(i + j * (n + 1)) for j in range(n) for i in range(n)]
        return Mesh(comm, p, [t for a in at for t in ((a, a + 1, a + n + 2), (a, a + n + 2, a + n + 1))], "triangle")
    if name == "line8":
        p = np.array([0.0, 0.13, 0.21, 0.3, 0.37, 0.5, 0.7, 0.82, 1.0])[:, None]
        return Mesh(comm, p, [(i, i + 1) for i in range(8)], "interval")
    if name == "square":
        p = np.array([[0, 0], [0.6, 0], [1, 0], [0, 0.55], [0.45, 0.4], [1, 0.35], [0, 1], [0.3, 1], [1, 1]])
        c = [(0, 1, 4), (0, 4, 3), (1, 2, 5), (1, 5, 4), (3, 4, 6), (4, 7, 6), (4, 5, 8), (4, 8, 7)]
        return Mesh(comm, p, c, "triangle")
    if name == "squareb":  # as many cells as "square"
        p = np.array([[0, 0], [0.4, 0], [1, 0], [0, 0.35], [0.55, 0.6], [1, 0.65], [0, 1], [0.7, 1], [1, 1]])
        c = [(0, 1, 3), (1, 4, 3), (1, 2, 5), (1, 5, 4), (3, 4, 6), (4, 7, 6), (4, 5, 8), (4, 8, 7)]
        return Mesh(comm, p, c, "triangle")
    if name == "squarecoarse":
        p = np.array([[0, 0], [1, 0], [0.45, 0.4], [0, 1], [1, 1]])
        return Mesh(comm, p, [(0, 1, 2), (1, 4, 2), (4, 3, 2), (3, 0, 2)], "triangle")
    if name == "cube":
        p = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 0, 1], [1, 0, 1], [0, 1, 1], [1, 1, 1], [0.4, 0.45, 0.6]])
        v = range(8)
        # the cube as cones from the inner point over two triangles per face
        faces = [(0, 1, 3), (0, 3, 2), (4, 5, 7), (4, 7, 6), (0, 1, 5), (0, 5, 4), (2, 3, 7), (2, 7, 6), (0, 2, 6), (0, 6, 4),
                 (1, 3, 7), (1, 7, 5)]
        assert len(v) == 8
        return Mesh(comm, p, [(*f, 8) for f in faces], "tetrahedron")
    raise KeyError(name)


def left(x):
    return 1.0 * (x[0] <= 0.37)


def outer(x):
    return np.where((x[0] <= 0.36) | (x[0] >= 0.76), 1.0, 0.0)


def everywhere(x):
    return np.ones(x.shape[1])


def nowhere(x):
    return np.zeros(x.shape[1])


def graded(x):
    return 0.03 + 2 * x[0] ** 2


INDICATORS = {"left": left, "outer": outer, "all": everywhere, "none": nowhere, "graded": graded}


def ref_indicator(msh, name):
    """Independent of the code: piecewise constant with the values at the cell midpoints."""
    f = fem.Function(fem.FunctionSpace(msh, ("DG", 0)))
    mid = msh.points[msh.cells].mean(axis=1)
    x = np.zeros((3, len(mid)))
    x[: msh.gdim] = mid.T
    v = np.asarray(INDICATORS[name](x), dtype=float)
    for c in range(len(mid)):
        f.x.array[f.function_space.dofmap.cell_dofs(c)] = v[c]
    return f


def make(case, msh=None, ind="left", omega=None, solution=None, N=None, T=None, stabs=None, setup=True, twins=()):  # noqa: N803
    T, stabs = T or total(case), stabs or stabilisation(case)  # noqa: N806
    omega = omega or DataDomain(indicator_function=INDICATORS[ind])
    solution = solution or ValueAndDerivative(lambda t, x: t * x[0], lambda t, x: x[0])  # noqa: ARG005
    st = SpaceTime(
        OrderTime(case["q"], case["qs"]), OrderSpace(case["k"], case.get("ks", case["k"])),
        N=N or case["N"], T=T, t=0, msh=msh, omega=omega,
        stabilisation_terms=dict(stabs), solution=solution,
        parameters=ProblemParameters(jumps_in_fw_problem=case.get("jumps", False), well_posed=case.get("wp", False)),
    )
    if setup:
        arg = {"msh": msh, "N": N or case["N"], "T": T, "omega": omega, "stabs": stabs, "solution": solution}
        for twin in twins:
            other(case, arg, twin)
        others(case, "before", arg)
        st.setup_spacetime_finite_elements()
        others(case, "after", arg)
    return st


MADE = [0]
# what the other object differs in when it shares everything else, the mesh included
TWINS = ("indicator", "data", "dual", "primal", "primal-jump", "solution", "T", "N", "same step", "parameters")


def others(case, when, arg):
    """Other solver objects in the same process, which must not matter: of the same orders on another mesh with other
    data, or on the same mesh and different in one thing."""
    MADE[0] += when == "before"
    n = case["q"] + 2 * case["qs"] + case["k"] + case.get("N", 0) + MADE[0] + (when == "after")
    # one case in three has one made before, one in three after
    if n % 3:
        return
    other(case, arg, TWINS[(n // 6) % len(TWINS)] if (n // 3) % 2 else "", n)


def other(case, arg, twin, n=0):
    if twin:
        a = dict(arg, stabs=dict(arg["stabs"]))
        if twin in a["stabs"]:
            a["stabs"][twin] = a["stabs"][twin] * 1.75 or 0.75
        par = [case.get("jumps", False), case.get("wp", False)]
        if twin == "parameters":
            par = [not par[0], par[1]] if n % 4 < 2 else [par[0], not par[1]]
        if twin == "indicator":
            a["omega"] = DataDomain(indicator_function=graded if arg["omega"].indicator_function is outer else outer)
        if twin == "solution":
            a["solution"] = ValueAndDerivative(lambda t, x: 1.0 + t * x[0] ** 2, lambda t, x: x[0] ** 2)  # noqa: ARG005
        if twin in ("T", "same step"):
            a["T"] *= 2
        if twin in ("N", "same step"):
            a["N"] *= 2
    else:
        par = [not case.get("jumps", False), not case.get("wp", False)]
        a = {"msh": mesh("tiny"), "N": 2, "T": 0.7, "omega": DataDomain(indicator_function=outer), "stabs": dict.fromkeys(STAB, 2.5),
             "solution": ValueAndDerivative(lambda t, x: 1.0 + t * x[0] ** 2, lambda t, x: x[0] ** 2)}  # noqa: ARG005
    st = SpaceTime(
        OrderTime(case["q"], case["qs"]), OrderSpace(case["k"], case.get("ks", case["k"])),
        N=a["N"], T=a["T"], t=0, msh=a["msh"], omega=a["omega"], stabilisation_terms=a["stabs"],
        solution=a["solution"], parameters=ProblemParameters(jumps_in_fw_problem=par[0], well_posed=par[1]),
    )
    with contextlib.redirect_stdout(io.StringIO()):
        st.setup_spacetime_finite_elements()
        st.prepare_precondition_gmres()
        b = st.get_spacetime_rhs()
        x = b.copy()
        st.apply_spacetime_matrix(b, x)


def order_of(space):
    """Permutation of the degrees of freedom by position."""
    x = np.round(space.tabulate_dof_coordinates(), 9)
    return np.lexsort((x[:, 0], x[:, 1], x[:, 2]))


def sub_dofs(fes, comp, sub):
    v, dofs = fes.sub(comp).sub(sub).collapse()
    return np.asarray(dofs)[order_of(v)]


def layout(fes, case, slabs):
    """{(component, slab, node): dofs ordered by position} with components 1..4."""
    out = {}
    for comp in range(1, 5):
        deg = case["q"] if comp <= 2 else case["qs"]
        for n in range(slabs):
            for t in range(deg + 1):
                out[comp, n, t] = sub_dofs(fes, comp - 1, n * (deg + 1) + t)
    return out


def ops(msh, case, ind, sparse=False):
    """{(op, row is dual, column is dual): dense matrix} ordered by position."""
    k, ks = case["k"], case.get("ks", case["k"])
    cell = msh.ufl_cell()
    mel = ufl.MixedElement([ufl.FiniteElement("CG", cell, k), ufl.FiniteElement("CG", cell, ks)])
    v = fem.FunctionSpace(msh, mel)
    dofs = []
    for i in range(2):
        sp, d = v.sub(i).collapse()
        dofs.append(np.asarray(d)[order_of(sp)])
    us, ws = ufl.TrialFunctions(v), ufl.TestFunctions(v)
    h, nf = ufl.CellDiameter(msh), ufl.FacetNormal(msh)
    md = {"quadrature_degree": 2 * max(k, ks) + 2}
    dx, ds, dS = ufl.Measure("dx", domain=msh, metadata=md), ufl.Measure("ds", domain=msh), ufl.Measure("dS", domain=msh)
    om = ind if not isinstance(ind, str) else ref_indicator(msh, ind)
    grad, inner, div = ufl.grad, ufl.inner, ufl.div
    forms = {
        "M": lambda u, w: inner(u, w) * dx,
        "K": lambda u, w: inner(grad(u), grad(w)) * dx,
        "Mom": lambda u, w: om * inner(u, w) * dx,
        "F": lambda u, w: inner(nf, grad(u)) * w * ds,
        "Ft": lambda u, w: u * inner(nf, grad(w)) * ds,
        "Bh": lambda u, w: 1 / h * inner(u, w) * ds,
        "J": lambda u, w: 0.5 * (h("+") + h("-")) * inner(ufl.jump(grad(u)), ufl.jump(grad(w))) * dS,
        "h2M": lambda u, w: h**2 * inner(u, w) * dx,
        "h2L": lambda u, w: h**2 * inner(u, div(grad(w))) * dx,
        "h2Lt": lambda u, w: h**2 * inner(div(grad(u)), w) * dx,
        "h2LL": lambda u, w: h**2 * inner(div(grad(u)), div(grad(w))) * dx,
    }
    out = {}
    for name, f in forms.items():
        # all four pairs in one assembly
        a = sum(f(us[j], ws[i]) for i in range(2) for j in range(2))
        m = assemble_matrix(fem.form(a))
        m.assemble()
        d = csr(m) if sparse else dense(m)
        for i in range(2):
            for j in range(2):
                out[name, i, j] = d[dofs[i]][:, dofs[j]]
    return out


def csr(mat):
    import scipy.sparse as sp

    ai, aj, av = mat.getValuesCSR()
    return sp.csr_matrix((av, aj, ai), shape=mat.getSize())


def expected_sparse(rows, lay, op):
    """As `expected`, for many unknowns."""
    import scipy.sparse as sp

    n = sum(len(d) for d in lay.values())
    ii, jj, vv = [], [], []
    coo = {k: m.tocoo() for k, m in op.items()}
    for key, val in rows:
        rc, rs, rt, cc, cs, ct, o = key
        m = coo[o, int(rc > 2), int(cc > 2)]
        ii.append(lay[rc, rs, rt][m.row])
        jj.append(lay[cc, cs, ct][m.col])
        vv.append(m.data * float(Fraction(val[0], val[1])))
    return sp.csr_matrix((np.concatenate(vv), (np.concatenate(ii), np.concatenate(jj))), shape=(n, n))


def dense(mat):
    m, n = mat.getSize()
    ai, aj, av = mat.getValuesCSR()
    d = np.zeros((m, n))
    for i in range(m):
        np.add.at(d[i], aj[ai[i]:ai[i + 1]], av[ai[i]:ai[i + 1]])
    return d


def expected(rows, lay, op, shift=0, ncol=None):
    """Dense matrix of a table of the specification."""
    n = sum(len(d) for d in lay.values())
    e = np.zeros((n, n))
    for key, val in rows:
        rc, rs, rt, cc, cs, ct, o = key
        c = float(Fraction(val[0], val[1]))
        r = lay[rc, rs + shift, rt]
        cdofs = lay[cc, cs + shift, ct]
        e[np.ix_(r, cdofs)] += c * op[o, int(rc > 2), int(cc > 2)]
    return e


def blocks_of(rows):
    return {(tuple(k[:3]), tuple(k[3:6])) for k, v in rows}


NAMES = {1: "u1/w1", 2: "u2/w2", 3: "z1/y1", 4: "z2/y2"}


def explain(got, want, rows, lay, op, tol):
    """The worst block: what it should be made of and what it seems to be made of."""
    worst = None
    for (rb, r) in lay.items():
        for (cb, c) in lay.items():
            d = np.abs(got[np.ix_(r, c)] - want[np.ix_(r, c)]).max()
            if d > tol and (worst is None or d > worst[0]):
                worst = (d, rb, cb)
    if worst is None:
        return None
    d, rb, cb = worst
    b = got[np.ix_(lay[rb], lay[cb])]
    names = [o for o in OPS if np.abs(op[o, int(rb[0] > 2), int(cb[0] > 2)]).max() > 1e-12]
    basis = np.stack([op[o, int(rb[0] > 2), int(cb[0] > 2)].ravel() for o in names], axis=1)
    sol, *_ = np.linalg.lstsq(basis, b.ravel(), rcond=None)
    res = np.abs(basis @ sol - b.ravel()).max()
    spec = {k[6]: f"{v[0]}/{v[1]}" for k, v in rows if tuple(k[:3]) == rb and tuple(k[3:6]) == cb}
    return {"difference": float(d), "row": [NAMES[rb[0]], "slab", rb[1], "node", rb[2]],
            "column": [NAMES[cb[0]], "slab", cb[1], "node", cb[2]], "specified": spec,
            "found": {o: round(float(s), 6) for o, s in zip(names, sol) if abs(s) > 1e-7}, "unexplained": float(res)}


def compare(got, rows, lay, op, what, tol=2e-10):
    want = expected(rows, lay, op)
    if got.shape != want.shape:
        return {"what": what, "shape": list(got.shape), "expected shape": list(want.shape)}
    if not np.all(np.isfinite(got)):
        return {"what": what, "not finite": True}
    t = tol * np.abs(want).max()
    if np.abs(got - want).max() <= t:
        return None
    return {"what": what, **(explain(got, want, rows, lay, op, t) or {})}


def vec(n, a=None):
    v = PETSc.Vec().createSeq(n)
    if a is not None:
        v.array[:] = a
    return v


def size(space):
    return space.dofmap.index_map.size_local * space.dofmap.index_map_bs if hasattr(space.dofmap, "index_map_bs") else space.size


class Stub:
    """A slab solver that records what it is given and answers with canned vectors."""

    def __init__(self, log, name, answers):
        self.log, self.name, self.answers = log, name, answers

    def solve(self, b, x):
        self.log.append((self.name, b.array.copy()))
        x.array[:] = self.answers(len(self.log) - 1, b.array.copy())


class Exact:
    """A slab solver without memory."""

    def __init__(self, mat):
        self.d = dense(mat) if not isinstance(mat, np.ndarray) else mat
        import scipy.linalg as sl

        self.lu = sl.lu_factor(self.d)

    def solve(self, b, x):
        import scipy.linalg as sl

        x.array[:] = sl.lu_solve(self.lu, b.array.copy(), check_finite=False)


__all__ = [n for n in globals() if not n.startswith("_")]
_ = dataclasses, assemble_vector
