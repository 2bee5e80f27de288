"""Function spaces with an adversarial (but deterministic) numbering of the unknowns."""
from __future__ import annotations

import os

import numpy as np
import ufl
from petsc4py import PETSc

from . import lagrange

# how the unknowns of a space are numbered: "scramble" (default), "block" (component by
# component), "interleave" (node by node)
NUMBERING = os.environ.get("MINIFEM_NUMBERING", "scramble")
_SEED = int(os.environ.get("MINIFEM_SEED", "7"))


class ScalarSpace:
    """Nodes of a scalar Lagrange (or DG0) space on a mesh; a cached per-mesh object."""

    def __init__(self, mesh, family, k):
        self.mesh, self.family, self.k = mesh, family, k
        ref = lagrange.nodes(mesh.cell, k)
        x = mesh.x0[:, None, :] + np.einsum("cgr,qr->cqg", mesh.J, ref)
        self.cell_x = x
        nc, nl, gd = x.shape
        flat = x.reshape(-1, gd)
        if family == "CG":
            scale = 1e-9 * max(1.0, np.abs(flat).max())
            key = np.round(flat / scale).astype(np.int64)
            _, first, inv = np.unique(key, axis=0, return_index=True, return_inverse=True)
            inv = inv.reshape(-1)
        else:
            first, inv = np.arange(len(flat)), np.arange(len(flat))
        n = len(first)
        if NUMBERING == "scramble":
            perm = np.random.default_rng([_SEED, n, k, len(mesh.cells)]).permutation(n)
        else:
            perm = np.arange(n)
        self.n = n
        self.cell_dofs = perm[inv].reshape(nc, nl)
        self.x = np.zeros((n, gd))
        self.x[perm] = flat[first]


def scalar_space(mesh, family, k):
    key = (family, k)
    if key not in mesh._spaces:
        mesh._spaces[key] = ScalarSpace(mesh, family, k)
    return mesh._spaces[key]


def _flatten(element):
    if element.num_sub_elements():
        out = []
        for s in element.sub_elements():
            out += _flatten(s)
        return out
    return [element]


_FAM = {"Lagrange": "CG", "CG": "CG", "P": "CG", "Q": "CG",
        "Discontinuous Lagrange": "DG", "DG": "DG", "DQ": "DG", "DPC": "DG", "Discontinuous Galerkin": "DG"}


class DofMap:
    def __init__(self, space):
        self._s = space
        self.index_map_bs = 1

    @property
    def index_map(self):
        from .mesh import IndexMap

        return IndexMap(self._s.size)

    def cell_dofs(self, c):
        return np.concatenate([m[s.cell_dofs[c]] for s, m in self._s.comps])

    @property
    def list(self):
        return np.array([self.cell_dofs(c) for c in range(len(self._s._mesh.cells))])


class ElementView:
    def __init__(self, space):
        self._s = space

    def interpolation_points(self):
        e = self._s.comps[0][0]
        return lagrange.nodes(self._s._mesh.cell, e.k).copy()


class FunctionSpace(ufl.FunctionSpace):
    def __init__(self, mesh, element, comps=None, size=None, parent=None):
        if isinstance(element, tuple):
            fam, k = element[0], element[1]
            e = ufl.FiniteElement(fam, mesh.ufl_cell(), k)
            if len(element) > 2:
                shape = element[2]
                e = ufl.VectorElement(e, dim=shape[0]) if len(shape) == 1 else ufl.TensorElement(e, shape=shape)
            element = e
        if not isinstance(mesh, object) or not hasattr(mesh, "ufl_domain"):
            msg = "expected a mesh"
            raise TypeError(msg)
        super().__init__(mesh.ufl_domain(), element)
        self._mesh = mesh
        self.parent = parent
        if comps is None:
            scal = [scalar_space(mesh, _FAM[e.family()], e.degree()) for e in _flatten(element)]
            size = sum(s.n for s in scal)
            off = np.cumsum([0] + [s.n for s in scal])
            if NUMBERING == "scramble" and len(scal) > 1:
                perm = np.random.default_rng([_SEED, size, len(scal)]).permutation(size)
            elif NUMBERING == "interleave" and len(scal) > 1:
                order = sorted((i, c) for c, s in enumerate(scal) for i in range(s.n))
                perm = np.zeros(size, dtype=int)
                for pos, (i, c) in enumerate(order):
                    perm[off[c] + i] = pos
            else:
                perm = np.arange(size)
            comps = [(s, perm[off[c] : off[c] + s.n]) for c, s in enumerate(scal)]
        self.comps = comps
        self.size = size
        self.dofmap = DofMap(self)
        self.element = ElementView(self)

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __hash__(self):
        return hash((super().__hash__(), id(self)))

    @property
    def mesh(self):
        return self._mesh

    @property
    def num_sub_spaces(self):
        return self.ufl_element().num_sub_elements()

    def sub(self, i):
        e = self.ufl_element()
        if not 0 <= i < e.num_sub_elements():
            msg = f"Invalid sub space {i}"
            raise RuntimeError(msg)
        start = 0
        for s in e.sub_elements()[:i]:
            start += len(_flatten(s))
        sub = e.sub_elements()[i]
        n = len(_flatten(sub))
        return FunctionSpace(self._mesh, sub, self.comps[start : start + n], self.size, parent=self)

    def split(self):
        return tuple(self.sub(i) for i in range(self.num_sub_spaces))

    def collapse(self):
        new = FunctionSpace(self._mesh, self.ufl_element())
        dofs = np.zeros(new.size, dtype=np.int64)
        for (_, m_new), (_, m_old) in zip(new.comps, self.comps):
            dofs[m_new] = m_old
        return new, dofs.tolist()

    def clone(self):
        return FunctionSpace(self._mesh, self.ufl_element(), self.comps, self.size)

    def tabulate_dof_coordinates(self):
        x = np.zeros((self.size, 3))
        for s, m in self.comps:
            x[m, : s.x.shape[1]] = s.x
        return x


class Vector:
    def __init__(self, n):
        self.array = np.zeros(n, dtype=PETSc.ScalarType)

    def scatter_forward(self):
        pass

    def scatter_reverse(self, mode=None):
        pass

    def norm(self, *_):
        return float(np.linalg.norm(self.array))

    def set(self, v):
        self.array[:] = v


_INTERPOLATIONS: dict = {}


def interpolation(su, s):
    """Sparse matrix of the interpolation from scalar space su to scalar space s."""
    import scipy.sparse as sp

    key = (id(su), id(s))
    if key in _INTERPOLATIONS:
        return _INTERPOLATIONS[key][0]
    m, same, rows = s.mesh, su.mesh is s.mesh, {}
    for c in range(len(m.cells)):
        for j, x in enumerate(s.cell_x[c]):
            cu, xi = (c, m.Jinv[c] @ (x - m.x0[c])) if same else su.mesh.find_cell(x)
            if cu < 0:
                msg = "point outside of the mesh"
                raise RuntimeError(msg)
            rows[int(s.cell_dofs[c, j])] = (su.cell_dofs[cu], lagrange.tabulate(su.mesh.cell, su.k, xi))
    a = sp.lil_matrix((s.n, su.n))
    for r, (cols, vals) in rows.items():
        for q, v in zip(cols, np.ravel(vals)):
            a[r, q] = v
    # the spaces are kept alive so that their identities stay theirs
    _INTERPOLATIONS[key] = (a.tocsr(), su, s)
    return _INTERPOLATIONS[key][0]


class Expression:
    def __init__(self, e, X, *a, **k):
        self.ufl_expression = e
        self.X = np.asarray(X() if callable(X) else X)


class Function(ufl.Coefficient):
    def __init__(self, V, x=None, name=None, dtype=None):
        super().__init__(V)
        self._V = V
        self._x = Vector(V.size) if x is None else x
        self.name = name or f"f_{self.count()}"
        self._petsc = None

    @property
    def function_space(self):
        return self._V

    @property
    def x(self):
        return self._x

    @property
    def vector(self):
        if self._petsc is None:
            self._petsc = PETSc.Vec().createGhostWithArray([], self._x.array, size=(len(self._x.array), None), comm=self._V.mesh.comm)
        return self._petsc

    def copy(self):
        f = Function(self._V)
        f.x.array[:] = self.x.array
        return f

    def sub(self, i):
        return Function(self._V.sub(i), self._x)

    def split(self):
        n = self._V.num_sub_spaces
        if n <= 1:
            msg = "No subfunctions to extract"
            raise RuntimeError(msg)
        return tuple(self.sub(i) for i in range(n))

    def collapse(self):
        W, dofs = self._V.collapse()
        f = Function(W)
        f.x.array[:] = self.x.array[dofs]
        return f

    def eval(self, x, cells):
        x = np.atleast_2d(np.asarray(x, float))
        out = np.zeros((len(x), len(self._V.comps)))
        m = self._V.mesh
        for i, (p, c) in enumerate(zip(x, np.atleast_1d(cells))):
            xi = m.Jinv[c] @ (p[: m.gdim] - m.x0[c])
            for q, (s, dm) in enumerate(self._V.comps):
                out[i, q] = lagrange.tabulate(m.cell, s.k, xi) @ self.x.array[dm[s.cell_dofs[c]]]
        return out

    def interpolate(self, u, cells=None, nmm_interpolation_data=None):
        V = self._V
        m = V.mesh
        if isinstance(u, Function):
            if u.function_space is not V and len(u.function_space.comps) != len(V.comps):
                msg = "Interpolation: value shapes differ"
                raise RuntimeError(msg)
            new = self.x.array.copy()
            for (s, dm), (su, du) in zip(V.comps, u.function_space.comps):
                if su.mesh is m and s.family == "CG" and su.family == "CG" and s.k == su.k:
                    new[dm] = u.x.array[du]
                    continue
                new[dm] = interpolation(su, s) @ u.x.array[du]
            self.x.array[:] = new
            return
        if isinstance(u, Expression):
            from .forms import eval_at_nodes

            for q, (s, dm) in enumerate(V.comps):
                comp = () if not V.ufl_element().value_shape() else (q,)
                vals = eval_at_nodes(u.ufl_expression, s, comp)
                self.x.array[dm[s.cell_dofs]] = vals
            return
        if not callable(u) or isinstance(u, ufl.core.expr.Expr):
            msg = f"interpolate: unsupported argument {type(u)}"
            raise TypeError(msg)
        s0 = V.comps[0][0]
        nc, nl, gd = s0.cell_x.shape
        x = np.zeros((3, nc * nl))
        x[:gd] = s0.cell_x.reshape(-1, gd).T
        v = np.asarray(u(x), dtype=PETSc.ScalarType)
        ncomp = len(V.comps)
        if v.ndim <= 1:
            v = np.broadcast_to(v, (nc * nl,))[None, :]
        if v.shape != (ncomp, nc * nl):
            msg = f"interpolate: callable returned shape {v.shape}"
            raise RuntimeError(msg)
        for q, (s, dm) in enumerate(V.comps):
            self.x.array[dm[s.cell_dofs]] = v[q].reshape(nc, nl)


class Constant(ufl.Constant):
    def __init__(self, domain, c):
        c = np.asarray(c, dtype=PETSc.ScalarType)
        dom = domain.ufl_domain() if hasattr(domain, "ufl_domain") else domain
        super().__init__(dom, c.shape)
        self.value = c
