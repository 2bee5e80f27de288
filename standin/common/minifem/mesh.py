"""Affine meshes: cells, facets, refinement."""
from __future__ import annotations

import itertools

import numpy as np
import ufl
from mpi4py import MPI

NV = {"interval": 2, "triangle": 3, "tetrahedron": 4, "quadrilateral": 4, "hexahedron": 8}
TDIM = {"interval": 1, "triangle": 2, "tetrahedron": 3, "quadrilateral": 2, "hexahedron": 3}
FACETS = {
    "interval": [(0,), (1,)],
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "tetrahedron": [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "hexahedron": [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)],
}
EDGES = {
    "interval": [(0, 1)],
    "triangle": [(1, 2), (0, 2), (0, 1)],
    "tetrahedron": [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)],
    "quadrilateral": [(0, 1), (0, 2), (1, 3), (2, 3)],
    "hexahedron": [(0, 1), (0, 2), (0, 4), (1, 3), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 6), (5, 7), (6, 7)],
}


class IndexMap:
    def __init__(self, n):
        self.size_local = n
        self.size_global = n
        self.num_ghosts = 0
        self.local_range = (0, n)


class AdjacencyList:
    def __init__(self, lists):
        self._l = [np.asarray(x, dtype=np.int32) for x in lists]
        self.num_nodes = len(self._l)
        self.array = np.concatenate(self._l) if self._l else np.zeros(0, np.int32)
        self.offsets = np.cumsum([0] + [len(x) for x in self._l])

    def links(self, i):
        return self._l[i]


class Topology:
    def __init__(self, mesh):
        self._m = mesh
        self.dim = TDIM[mesh.cell]
        self._created = set()

    def create_entities(self, d):
        self._created.add(d)
        return self._m.num_entities(d)

    def create_entity_permutations(self):
        pass

    def create_connectivity(self, d0, d1):
        self.create_entities(d0)
        self.create_entities(d1)

    def connectivity(self, d0, d1):
        return self._m.connectivity(d0, d1)

    def index_map(self, d):
        return IndexMap(self._m.num_entities(d))

    def cell_name(self):
        return self._m.cell

    @property
    def original_cell_index(self):
        return np.arange(len(self._m.cells))


class Geometry:
    def __init__(self, mesh):
        self._m = mesh
        self.dim = mesh.gdim
        self.x = np.zeros((len(mesh.points), 3))
        self.x[:, : mesh.gdim] = mesh.points

    @property
    def dofmap(self):
        c = self._m.all_cells
        return AdjacencyList(list(c))

    @property
    def input_global_indices(self):
        return np.arange(len(self._m.points))


class Mesh:
    """Mesh of affine cells. `cells` holds the vertices, `all_cells` all geometry nodes."""

    def __init__(self, comm, points, cells, cell, ghost_mode=None):
        points = np.asarray(points, dtype=float)
        self.comm = comm
        self.points = points
        self.gdim = points.shape[1]
        self.all_cells = np.asarray(cells, dtype=np.int64)
        self.cells = self.all_cells[:, : NV[cell]]
        self.cell = cell
        self.tdim = TDIM[cell]
        self.ghost_mode = ghost_mode
        self.name = "mesh"
        self._ents = {}
        self._ufl_cell = ufl.Cell(cell)
        self._domain = ufl.Mesh(ufl.VectorElement("Lagrange", self._ufl_cell, 1, self.gdim))
        self._domain._minimesh = self
        self.topology = Topology(self)
        self.geometry = Geometry(self)
        x0 = self.points[self.cells[:, 0]]
        if cell in ("quadrilateral", "hexahedron"):
            dirs = [1, 2, 4][: self.tdim]
        else:
            dirs = list(range(1, self.tdim + 1))
        self.x0 = x0
        self.J = np.stack([self.points[self.cells[:, d]] - x0 for d in dirs], axis=2)
        self.detJ = np.abs(np.linalg.det(self.J)) if self.gdim == self.tdim else None
        self.Jinv = np.linalg.inv(self.J) if self.gdim == self.tdim else None
        d = self.points[self.cells]
        self.hcell = np.max(
            np.linalg.norm(d[:, :, None, :] - d[:, None, :, :], axis=3), axis=(1, 2)
        )
        self._spaces = {}

    # dolfinx-like interface
    def ufl_cell(self):
        return self._ufl_cell

    def ufl_domain(self):
        return self._domain

    @property
    def basix_cell(self):
        return self.cell

    def h(self, dim, entities):
        return self.hcell[entities]

    # entities: sorted vertex tuples
    def _entities(self, d):
        if d in self._ents:
            return self._ents[d]
        if d == self.tdim:
            res = ({}, [tuple(c) for c in self.cells], [[i] for i in range(len(self.cells))])
        elif d == 0:
            used = sorted(set(self.cells.ravel().tolist()))
            idx = {(v,): i for i, v in enumerate(used)}
            res = (idx, [(v,) for v in used], [[idx[(v,)] for v in c] for c in self.cells.tolist()])
        else:
            loc = FACETS[self.cell] if d == self.tdim - 1 else EDGES[self.cell]
            idx, ents, c2e = {}, [], []
            for c in self.cells.tolist():
                row = []
                for f in loc:
                    key = tuple(sorted(c[i] for i in f))
                    if key not in idx:
                        idx[key] = len(ents)
                        ents.append(key)
                    row.append(idx[key])
                c2e.append(row)
            res = (idx, ents, c2e)
        self._ents[d] = res
        return res

    def num_entities(self, d):
        return len(self._entities(d)[1])

    def connectivity(self, d0, d1):
        e0 = self._entities(d0)[1]
        idx1, e1, c2e1 = self._entities(d1)
        if d0 == self.tdim:
            return AdjacencyList(c2e1)
        if d1 == self.tdim:
            lists = [[] for _ in e0]
            for c, row in enumerate(self._entities(d0)[2]):
                for e in row:
                    lists[e].append(c)
            return AdjacencyList(lists)
        out = []
        for vs in e0:
            if d1 <= d0:
                out.append([i for k, i in idx1.items() if set(k) <= set(vs)])
            else:
                out.append([i for k, i in idx1.items() if set(vs) <= set(k)])
        return AdjacencyList(out)

    def facet_cells(self):
        """List over facets of [(cell, local facet)]."""
        if not hasattr(self, "_fc"):
            _, ents, c2f = self._entities(self.tdim - 1)
            fc = [[] for _ in ents]
            for c, row in enumerate(c2f):
                for lf, f in enumerate(row):
                    fc[f].append((c, lf))
            self._fc = fc
        return self._fc

    def ref_of(self, cells, x):
        """Reference coordinates of physical points x (n, nq, gdim) in cells (n,)."""
        return np.einsum("crg,cqg->cqr", self.Jinv[cells], x - self.x0[cells][:, None, :])

    def find_cell(self, x, tol=1e-9):
        xi = np.einsum("crg,cg->cr", self.Jinv, x[None, : self.gdim] - self.x0)
        if self.cell in ("quadrilateral", "hexahedron"):
            bad = np.maximum(np.max(-xi, axis=1), np.max(xi - 1, axis=1))
        else:
            bad = np.maximum(np.max(-xi, axis=1), np.sum(xi, axis=1) - 1)
        c = int(np.argmin(bad))
        return (c, xi[c]) if bad[c] <= tol else (-1, None)


def box_mesh(comm, lo, hi, n, cell, ghost_mode=None):
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    ax = [np.linspace(lo[i], hi[i], n[i] + 1) for i in range(3)]
    pts = np.array([(x, y, z) for z in ax[2] for y in ax[1] for x in ax[0]])

    def vid(i, j, k):
        return i + (n[0] + 1) * (j + (n[1] + 1) * k)

    cells = []
    for k, j, i in itertools.product(range(n[2]), range(n[1]), range(n[0])):
        v = [vid(i + a, j + b, k + c) for c in (0, 1) for b in (0, 1) for a in (0, 1)]
        if cell == "hexahedron":
            cells.append(v)
        else:
            for p in ((0, 1, 3, 7), (0, 1, 7, 5), (0, 5, 7, 4), (0, 3, 2, 7), (0, 6, 4, 7), (0, 2, 6, 7)):
                cells.append([v[a] for a in p])
    return Mesh(comm, pts, cells, cell, ghost_mode)


def rect_mesh(comm, lo, hi, n, cell, ghost_mode=None):
    ax = [np.linspace(lo[i], hi[i], n[i] + 1) for i in range(2)]
    pts = np.array([(x, y) for y in ax[1] for x in ax[0]])
    cells = []
    for j, i in itertools.product(range(n[1]), range(n[0])):
        v = [i + a + (n[0] + 1) * (j + b) for b in (0, 1) for a in (0, 1)]
        if cell == "quadrilateral":
            cells.append(v)
        else:
            cells += [[v[0], v[1], v[3]], [v[0], v[2], v[3]]]
    return Mesh(comm, pts, cells, cell, ghost_mode)


def interval_mesh(comm, xs, ghost_mode=None):
    xs = np.asarray(xs, float)
    return Mesh(comm, xs[:, None], [(i, i + 1) for i in range(len(xs) - 1)], "interval", ghost_mode)


def refine_triangles(mesh, edges=None):
    idx, ents, c2e = mesh._entities(1)
    marked = np.zeros(len(ents), bool)
    if edges is None:
        marked[:] = True
    else:
        marked[np.asarray(edges, dtype=int)] = True
    length = np.array([np.linalg.norm(mesh.points[a] - mesh.points[b]) for a, b in ents])
    longest = [row[int(np.argmax(length[row]))] for row in c2e]
    changed = True
    while changed:  # Plaza closure: a refined cell has its longest edge refined
        changed = False
        for row, lg in zip(c2e, longest):
            if marked[row].any() and not marked[lg]:
                marked[lg] = True
                changed = True
    mid = {}
    pts = [tuple(p) for p in mesh.points]
    for e, (a, b) in enumerate(ents):
        if marked[e]:
            mid[e] = len(pts)
            pts.append(tuple(0.5 * (mesh.points[a] + mesh.points[b])))
    cells = []
    for c, row, lg in zip(mesh.cells.tolist(), c2e, longest):
        if not marked[row].any():
            cells.append(c)
            continue
        apex = next(v for v in c if v not in ents[lg])
        m = mid[lg]
        for v in ents[lg]:  # the two halves (apex, v, m)
            e = idx[tuple(sorted((apex, v)))]
            if marked[e]:
                cells += [[apex, mid[e], m], [mid[e], v, m]]
            else:
                cells.append([apex, v, m])
    return Mesh(mesh.comm, np.array(pts), cells, "triangle", mesh.ghost_mode)


def refine_tets(mesh):
    idx, ents, c2e = mesh._entities(1)
    n = len(mesh.points)
    pts = np.vstack([mesh.points, [0.5 * (mesh.points[a] + mesh.points[b]) for a, b in ents]])
    cells = []
    for c in mesh.cells.tolist():
        def m(i, j):
            return n + idx[tuple(sorted((c[i], c[j])))]

        a, b, d, e, f, g = m(0, 1), m(0, 2), m(0, 3), m(1, 2), m(1, 3), m(2, 3)
        cells += [
            [c[0], a, b, d], [a, c[1], e, f], [b, e, c[2], g], [d, f, g, c[3]],
            [a, b, d, f], [a, b, e, f], [b, d, f, g], [b, e, f, g],
        ]
    return Mesh(mesh.comm, pts, cells, "tetrahedron", mesh.ghost_mode)


def refine_interval(mesh):
    n = len(mesh.points)
    mids = mesh.points[mesh.cells].mean(axis=1)
    cells = []
    for i, (a, b) in enumerate(mesh.cells.tolist()):
        cells += [(a, n + i), (n + i, b)]
    return Mesh(mesh.comm, np.vstack([mesh.points, mids]), cells, "interval", mesh.ghost_mode)


def refine_mesh(mesh, edges=None):
    if mesh.cell == "triangle":
        return refine_triangles(mesh, edges)
    if mesh.cell == "tetrahedron":
        return refine_tets(mesh)
    if mesh.cell == "interval":
        return refine_interval(mesh)
    raise RuntimeError("Can only refine simplices")


COMM = MPI.COMM_WORLD
