"""Evaluate UFL forms: scalars, vectors and matrices.

Every integrand is evaluated to a multilinear expansion: a dict from a tuple of argument
atoms ((number, component, derivative directions, restriction), ...) to the coefficient of
that product at the quadrature points.
"""
from __future__ import annotations

import math
import os

import numpy as np
import ufl
from petsc4py import PETSc
from ufl import classes as uc
from ufl.algorithms.apply_algebra_lowering import apply_algebra_lowering
from ufl.algorithms.apply_derivatives import apply_derivatives
from ufl.algorithms.estimate_degrees import estimate_total_polynomial_degree

from . import lagrange
from .mesh import FACETS
from .spaces import Function

STATS = {"forms": 0, "matrices": 0, "vectors": 0, "scalars": 0}


class Ctx:
    """Quadrature points on cells, exterior facets or interior facets of a mesh."""

    def __init__(self, mesh, kind, deg):
        self.mesh, self.kind, self.deg = mesh, kind, deg
        m = mesh
        self.cache = {}
        if kind == "cell":
            ref, w = lagrange.quadrature(m.cell, deg)
            self.cells = {None: np.arange(len(m.cells))}
            self.xi = {None: np.broadcast_to(ref, (len(m.cells), *ref.shape))}
            self.x = m.x0[:, None, :] + np.einsum("cgr,qr->cqg", m.J, ref)
            self.w = m.detJ[:, None] * w[None, :]
            self.normal = {}
            return
        want = 1 if kind == "exterior_facet" else 2
        fcs = [(f, fc) for f, fc in enumerate(m.facet_cells()) if len(fc) == want]
        fcell = {"interval": None, "triangle": "interval", "quadrilateral": "interval",
                 "tetrahedron": "triangle", "hexahedron": "quadrilateral"}[m.cell]
        if fcell is None:
            ref, w = np.zeros((1, 0)), np.ones(1)
        else:
            ref, w = lagrange.quadrature(fcell, deg)
        ents = m._entities(m.tdim - 1)[1]
        sides = [None] if want == 1 else ["+", "-"]
        nf, nq = len(fcs), len(w)
        self.x = np.zeros((nf, nq, m.gdim))
        self.w = np.zeros((nf, nq))
        self.cells = {s: np.zeros(nf, int) for s in sides}
        self.normal = {s: np.zeros((nf, m.gdim)) for s in sides}
        for i, (f, fc) in enumerate(fcs):
            c0, lf0 = fc[0]
            v = m.points[m.cells[c0][list(FACETS[m.cell][lf0])]]
            if fcell is None:
                self.x[i] = v[0]
                self.w[i] = w
                t = np.zeros((0, 1))
            else:
                t = np.array([v[1] - v[0]] + ([v[2] - v[0]] if m.tdim == 3 else []))
                self.x[i] = v[0] + ref @ t
                self.w[i] = w * (np.linalg.norm(t[0]) if m.tdim == 2 else np.linalg.norm(np.cross(t[0], t[1])))
            for s, (c, _) in zip(sides, fc):
                self.cells[s][i] = c
                out = v.mean(axis=0) - m.points[m.cells[c]].mean(axis=0)
                if m.tdim == 1:
                    n = out
                elif m.tdim == 2:
                    n = np.array([t[0][1], -t[0][0]])
                else:
                    n = np.cross(t[0], t[1])
                n = n / np.linalg.norm(n)
                self.normal[s][i] = n if n @ out > 0 else -n
        self.xi = {s: m.ref_of(self.cells[s], self.x) for s in sides}

    def basis(self, scal, der, side):
        """Physical derivative `der` of the basis of `scal`: (n, nq, nloc)."""
        key = (id(scal), der, side)
        if key in self.cache:
            return self.cache[key]
        m = self.mesh
        xi = self.xi[side]
        if not der:
            v = lagrange.tabulate(m.cell, scal.k, xi)
        else:
            ji = m.Jinv[self.cells[side]]
            v = 0.0
            import itertools

            for refd in itertools.product(range(m.tdim), repeat=len(der)):
                f = np.ones(len(ji))
                for r, g in zip(refd, der):
                    f = f * ji[:, r, g]
                v = v + f[:, None, None] * lagrange.tabulate(m.cell, scal.k, xi, refd)
        self.cache[key] = v
        return v


def ctx(mesh, kind, deg):
    d = mesh.__dict__.setdefault("_ctx", {})
    if (kind, deg) not in d:
        d[(kind, deg)] = Ctx(mesh, kind, deg)
    return d[(kind, deg)]


_MATH = {"sqrt": np.sqrt, "exp": np.exp, "ln": np.log, "cos": np.cos, "sin": np.sin, "tan": np.tan,
         "cosh": np.cosh, "sinh": np.sinh, "tanh": np.tanh, "acos": np.arccos, "asin": np.arcsin,
         "atan": np.arctan}
_CMP = {"==": np.equal, "!=": np.not_equal, "<": np.less, ">": np.greater, "<=": np.less_equal, ">=": np.greater_equal}


def _mul(a, b):
    out = {}
    for ka, va in a.items():
        for kb, vb in b.items():
            k = tuple(sorted(ka + kb))
            if len({x[0] for x in k}) != len(k):
                msg = "form is not linear in its arguments"
                raise ValueError(msg)
            v = va * vb
            out[k] = out[k] + v if k in out else v
    return out


def _scal(a, what="operand"):
    if not a:
        return 0.0
    if set(a) != {()}:
        msg = f"{what} must not depend on form arguments"
        raise ValueError(msg)
    return a[()]


class Evaluator:
    def __init__(self, cx, quad_x=None):
        self.cx = cx

    def ev(self, e, comp, env, side):
        f = getattr(self, "ev_" + type(e)._ufl_handler_name_, None)
        if f is None:
            for cls in type(e).__mro__:
                h = getattr(cls, "_ufl_handler_name_", None)
                if h and hasattr(self, "ev_" + h):
                    f = getattr(self, "ev_" + h)
                    break
            else:
                msg = f"minifem cannot evaluate {type(e)}"
                raise NotImplementedError(msg)
        return f(e, comp, env, side)

    # terminals
    def ev_zero(self, e, comp, env, side):
        return {}

    def ev_scalar_value(self, e, comp, env, side):
        return {(): float(e._value)}

    def ev_int_value(self, e, comp, env, side):
        return {(): float(e._value)}

    def ev_identity(self, e, comp, env, side):
        return {(): 1.0} if comp[0] == comp[1] else {}

    def ev_argument(self, e, comp, env, side, der=()):
        c = 0 if not comp else comp[0]
        return {((e.number(), c, tuple(sorted(der)), side),): 1.0}

    def ev_coefficient(self, e, comp, env, side, der=()):
        V = e.ufl_function_space()
        c = 0 if not comp else comp[0]
        s, dm = V.comps[c]
        if s.mesh is not self.cx.mesh:
            msg = "coefficient lives on a different mesh"
            raise ValueError(msg)
        side = self._side(side)
        b = self.cx.basis(s, tuple(sorted(der)), side)
        vals = e.x.array[dm[s.cell_dofs[self.cx.cells[side]]]]
        return {(): np.einsum("cqi,ci->cq", b, vals)}

    def _side(self, side):
        if side is None and self.cx.kind == "interior_facet":
            return "+"
        if side is not None and self.cx.kind != "interior_facet":
            return None
        return side

    def ev_constant(self, e, comp, env, side):
        return {(): float(e.value[comp] if comp else e.value)}

    def ev_spatial_coordinate(self, e, comp, env, side):
        return {(): self.cx.x[:, :, comp[0]]}

    def ev_facet_normal(self, e, comp, env, side):
        n = self.cx.normal[self._side(side)]
        return {(): np.broadcast_to(n[:, comp[0]][:, None], self.cx.w.shape)}

    def ev_cell_diameter(self, e, comp, env, side):
        h = self.cx.mesh.hcell[self.cx.cells[self._side(side)]]
        return {(): np.broadcast_to(h[:, None], self.cx.w.shape)}

    def ev_circumradius(self, e, comp, env, side):
        m = self.cx.mesh
        if m.cell != "interval":
            raise NotImplementedError
        h = 0.5 * m.hcell[self.cx.cells[self._side(side)]]
        return {(): np.broadcast_to(h[:, None], self.cx.w.shape)}

    def ev_cell_volume(self, e, comp, env, side):
        m = self.cx.mesh
        vol = {"interval": 1, "triangle": 0.5, "tetrahedron": 1 / 6}.get(m.cell, 1) * m.detJ
        return {(): np.broadcast_to(vol[self.cx.cells[self._side(side)]][:, None], self.cx.w.shape)}

    # algebra
    def ev_sum(self, e, comp, env, side):
        out = {}
        for o in e.ufl_operands:
            for k, v in self.ev(o, comp, env, side).items():
                out[k] = out[k] + v if k in out else v
        return out

    def ev_product(self, e, comp, env, side):
        a, b = e.ufl_operands
        # scalar * scalar only after lowering
        va = self.ev(a, (), env, side)
        return _mul(va, self.ev(b, (), env, side)) if va else {}

    def ev_division(self, e, comp, env, side):
        a, b = e.ufl_operands
        d = _scal(self.ev(b, (), env, side), "denominator")
        return {k: v / d for k, v in self.ev(a, comp, env, side).items()}

    def ev_power(self, e, comp, env, side):
        a, b = (_scal(self.ev(o, (), env, side), "power") for o in e.ufl_operands)
        return {(): a**b}

    def ev_abs(self, e, comp, env, side):
        return {(): np.abs(_scal(self.ev(e.ufl_operands[0], comp, env, side), "abs"))}

    def ev_conj(self, e, comp, env, side):
        return self.ev(e.ufl_operands[0], comp, env, side)

    ev_real = ev_conj
    ev_variable = ev_conj

    def ev_math_function(self, e, comp, env, side):
        return {(): _MATH[e._name](_scal(self.ev(e.ufl_operands[0], (), env, side), e._name))}

    def ev_conditional(self, e, comp, env, side):
        c, t, f = e.ufl_operands
        b = self.cond(c, env, side)
        vt, vf = self.ev(t, comp, env, side), self.ev(f, comp, env, side)
        return {k: np.where(b, vt.get(k, 0.0), vf.get(k, 0.0)) for k in set(vt) | set(vf)}

    def cond(self, c, env, side):
        n = c._name
        if n == "!":
            return np.logical_not(self.cond(c.ufl_operands[0], env, side))
        if n in ("&&", "||"):
            a, b = (self.cond(o, env, side) for o in c.ufl_operands)
            return np.logical_and(a, b) if n == "&&" else np.logical_or(a, b)
        a, b = (_scal(self.ev(o, (), env, side), "condition") for o in c.ufl_operands)
        return _CMP[n](a, b)

    def ev_min_value(self, e, comp, env, side):
        a, b = (_scal(self.ev(o, (), env, side)) for o in e.ufl_operands)
        return {(): np.minimum(a, b)}

    def ev_max_value(self, e, comp, env, side):
        a, b = (_scal(self.ev(o, (), env, side)) for o in e.ufl_operands)
        return {(): np.maximum(a, b)}

    # tensor algebra
    def _idx(self, mi, env):
        return tuple(int(i) if isinstance(i, uc.FixedIndex) else env[i.count()] for i in mi.indices())

    def ev_indexed(self, e, comp, env, side):
        A, mi = e.ufl_operands
        return self.ev(A, self._idx(mi, env), env, side)

    def ev_list_tensor(self, e, comp, env, side):
        return self.ev(e.ufl_operands[comp[0]], comp[1:], env, side)

    def ev_component_tensor(self, e, comp, env, side):
        A, mi = e.ufl_operands
        env = {**env, **{i.count(): c for i, c in zip(mi.indices(), comp)}}
        return self.ev(A, (), env, side)

    def ev_index_sum(self, e, comp, env, side):
        A, mi = e.ufl_operands
        out = {}
        for v in range(e.dimension()):
            for k, x in self.ev(A, comp, {**env, mi[0].count(): v}, side).items():
                out[k] = out[k] + x if k in out else x
        return out

    def ev_grad(self, e, comp, env, side):
        der = []
        while isinstance(e, uc.Grad):
            der.append(comp[-1])
            comp = comp[:-1]
            (e,) = e.ufl_operands
        if isinstance(e, uc.Argument):
            return self.ev_argument(e, comp, env, side, tuple(der))
        if isinstance(e, uc.Coefficient):
            return self.ev_coefficient(e, comp, env, side, tuple(der))
        if isinstance(e, uc.SpatialCoordinate):
            return {(): 1.0} if len(der) == 1 and der[0] == comp[0] else {}
        msg = f"gradient of {type(e)}"
        raise NotImplementedError(msg)

    ev_reference_grad = None

    def ev_positive_restricted(self, e, comp, env, side):
        return self.ev(e.ufl_operands[0], comp, env, "+")

    def ev_negative_restricted(self, e, comp, env, side):
        return self.ev(e.ufl_operands[0], comp, env, "-")


def _prep(e):
    return apply_derivatives(apply_algebra_lowering(e))


class NodeCtx(Ctx):
    def __init__(self, scal):
        m = scal.mesh
        self.mesh, self.kind, self.cache = m, "cell", {}
        ref = lagrange.nodes(m.cell, scal.k)
        self.cells = {None: np.arange(len(m.cells))}
        self.xi = {None: np.broadcast_to(ref, (len(m.cells), *ref.shape))}
        self.x = scal.cell_x
        self.w = np.ones(self.x.shape[:2])
        self.normal = {}


def eval_at_nodes(expr, scal, comp=()):
    cx = NodeCtx(scal)
    v = _scal(Evaluator(cx).ev(_prep(ufl.as_ufl(expr)), comp, {}, None), "expression")
    return np.broadcast_to(v, cx.w.shape)


class CompiledForm:
    """What `dolfinx.fem.form` returns."""

    def __init__(self, form):
        STATS["forms"] += 1
        self.ufl_form = form
        args = form.arguments()
        self.rank = len(args)
        self.function_spaces = [a.ufl_function_space() for a in args]
        self.coefficients = form.coefficients()
        doms = form.ufl_domains()
        if len(doms) != 1:
            msg = f"expected integrals over one domain, got {len(doms)}"
            raise ValueError(msg)
        self.mesh = doms[0]._minimesh
        self.integrals = []
        for it in form.integrals():
            md = it.metadata() or {}
            deg = md.get("quadrature_degree", -1)
            e = _prep(it.integrand())
            if deg is None or deg < 0:
                deg = estimate_total_polynomial_degree(e)
                if isinstance(deg, tuple):
                    deg = max(deg)
            if it.subdomain_id() not in ("everywhere", ("everywhere",)):
                msg = "subdomain ids are not supported by minifem"
                raise NotImplementedError(msg)
            self.integrals.append((it.integral_type(), int(deg), e))
        self.table()  # fail early on what cannot be compiled

    def table(self):
        """{(integral type, degree): {argument atoms: coefficient at quadrature points}}"""
        out = {}
        for kind, deg, e in self.integrals:
            cx = ctx(self.mesh, kind, deg)
            tab = out.setdefault((kind, deg), {})
            for k, v in Evaluator(cx).ev(e, (), {}, None).items():
                if len(k) != self.rank:
                    msg = "integrand has the wrong arity"
                    raise ValueError(msg)
                tab[k] = tab[k] + v if k in tab else v
        return out


def _atoms(cx, V, atom):
    _, c, der, side = atom
    s, dm = V.comps[c]
    side = side if cx.kind == "interior_facet" else None
    if cx.kind == "interior_facet" and side is None:
        msg = "argument of an interior facet integral must be restricted"
        raise ValueError(msg)
    return cx.basis(s, der, side), dm[s.cell_dofs[cx.cells[side]]]


def assemble_scalar(form):
    STATS["scalars"] += 1
    tot = 0.0
    for (kind, deg), tab in form.table().items():
        cx = ctx(form.mesh, kind, deg)
        for v in tab.values():
            tot += float(np.sum(cx.w * v))
    return tot


def assemble_vector_array(form, out):
    STATS["vectors"] += 1
    (V,) = form.function_spaces
    for (kind, deg), tab in form.table().items():
        cx = ctx(form.mesh, kind, deg)
        for (a,), v in tab.items():
            b, dofs = _atoms(cx, V, a)
            loc = np.einsum("cq,cqi->ci", cx.w * v, b)
            np.add.at(out, dofs.ravel(), loc.ravel())
    return out


def assemble_matrix_csr(form):
    import scipy.sparse as sp

    STATS["matrices"] += 1
    V0, V1 = form.function_spaces
    rows, cols, vals = [], [], []
    for (kind, deg), tab in form.table().items():
        cx = ctx(form.mesh, kind, deg)
        for (a0, a1), v in tab.items():
            b0, d0 = _atoms(cx, V0, a0)
            b1, d1 = _atoms(cx, V1, a1)
            loc = np.einsum("cq,cqi,cqj->cij", cx.w * v, b0, b1)
            n0, n1 = d0.shape[1], d1.shape[1]
            rows.append(np.repeat(d0, n1, axis=1).ravel())
            cols.append(np.tile(d1, (1, n0)).ravel())
            vals.append(loc.ravel())
    if not rows:
        return sp.csr_matrix((V0.size, V1.size))
    m = sp.coo_matrix(
        (np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=(V0.size, V1.size)
    ).tocsr()
    m.sum_duplicates()
    m.sort_indices()
    return m


def petsc_matrix(m, comm):
    # like DOLFINx, always hold the diagonal
    import scipy.sparse as sp

    n = min(m.shape)
    c = m.tocoo()
    d = np.arange(n)
    m = sp.coo_matrix(
        (np.concatenate([c.data, np.zeros(n)]), (np.concatenate([c.row, d]), np.concatenate([c.col, d]))),
        shape=m.shape,
    ).tocsr()
    m.sort_indices()
    A = PETSc.Mat().createAIJ(
        size=m.shape, csr=(m.indptr.astype(PETSc.IntType), m.indices.astype(PETSc.IntType), m.data), comm=comm
    )
    A.assemble()
    return A


def _cheap_ufl():
    # `Form.__init__` walks every integrand for Constants on each `+=`; nothing here uses the result.
    import ufl.algorithms.analysis as an

    an.extract_constants = lambda a: []


_cheap_ufl()
