from __future__ import annotations

import enum
import os

import numpy as np
import ufl
from minifem import mesh as mm
from minifem.mesh import Mesh  # noqa: F401


class CellType(enum.Enum):
    point = 1
    interval = 2
    triangle = 3
    quadrilateral = -4
    tetrahedron = 4
    pyramid = -5
    prism = -6
    hexahedron = -8


class GhostMode(enum.Enum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


class DiagonalType(enum.Enum):
    left = 0
    right = 1


class MeshTags:
    def __init__(self, mesh, dim, indices, values):
        self.mesh, self.dim = mesh, dim
        self.indices, self.values = np.asarray(indices), np.asarray(values)
        self.topology = mesh.topology
        self.name = "mesh_tags"

    def find(self, v):
        return self.indices[self.values == v]


def meshtags(mesh, dim, indices, values):
    return MeshTags(mesh, dim, indices, values)


def _cap(n):
    """Coarsen the big meshes of the driver scripts (only when the harness asks for it)."""
    cap = int(os.environ.get("MINIFEM_MAX_CELLS_PER_AXIS", "0"))
    return min(n, cap) if cap else n


def create_unit_interval(comm, nx, ghost_mode=GhostMode.shared_facet):
    return mm.interval_mesh(comm, np.linspace(0, 1, _cap(nx) + 1), ghost_mode)


def create_interval(comm, nx, points, ghost_mode=GhostMode.shared_facet):
    return mm.interval_mesh(comm, np.linspace(points[0], points[1], _cap(nx) + 1), ghost_mode)


def create_rectangle(comm, points, n, cell_type=CellType.triangle, ghost_mode=GhostMode.shared_facet, **_):
    return mm.rect_mesh(comm, points[0], points[1], [_cap(i) for i in n], cell_type.name, ghost_mode)


def create_unit_square(comm, nx, ny, cell_type=CellType.triangle, ghost_mode=GhostMode.shared_facet, **_):
    return create_rectangle(comm, [(0, 0), (1, 1)], [nx, ny], cell_type, ghost_mode)


def create_box(comm, points, n, cell_type=CellType.tetrahedron, ghost_mode=GhostMode.shared_facet, **_):
    return mm.box_mesh(comm, points[0], points[1], [_cap(i) for i in n], cell_type.name, ghost_mode)


def create_unit_cube(comm, nx, ny, nz, cell_type=CellType.tetrahedron, ghost_mode=GhostMode.shared_facet, **_):
    return create_box(comm, [(0, 0, 0), (1, 1, 1)], [nx, ny, nz], cell_type, ghost_mode)


def create_mesh(comm, cells, x, domain, partitioner=None):
    dom = domain if isinstance(domain, ufl.Mesh) else domain.ufl_domain()
    cell = dom.ufl_cell().cellname()
    cells = np.asarray(cells)
    deg = dom.ufl_coordinate_element().degree()
    nv = mm.NV[cell] if deg == 1 else {("triangle", 2): 6, ("interval", 2): 3}[(cell, deg)]
    if cells.shape[1] != nv:
        msg = f"cells have {cells.shape[1]} nodes, the coordinate element has {nv}"
        raise RuntimeError(msg)
    x = np.asarray(x, float)
    if x.shape[1] != dom.geometric_dimension():
        msg = "geometric dimension mismatch"
        raise RuntimeError(msg)
    return Mesh(comm, x, cells.astype(np.int64), cell)


def locate_entities(mesh, dim, marker):
    ents = mesh._entities(dim)[1]
    x = mesh.geometry.x
    used = sorted({v for e in ents for v in e})
    m = np.zeros(len(x), bool)
    vals = marker(np.array(x[used]).T)
    m[used] = vals
    return np.array([i for i, e in enumerate(ents) if m[list(e)].all()], dtype=np.int32)


def exterior_facet_indices(topology):
    m = topology._m
    return np.array([i for i, fc in enumerate(m.facet_cells()) if len(fc) == 1], dtype=np.int32)


def locate_entities_boundary(mesh, dim, marker):
    ext = exterior_facet_indices(mesh.topology)
    facets = [mesh._entities(mesh.tdim - 1)[1][i] for i in ext]
    bv = {v for f in facets for v in f}
    all_ = locate_entities(mesh, dim, marker)
    ents = mesh._entities(dim)[1]
    return np.array([i for i in all_ if any(set(ents[i]) <= set(f) for f in facets) and set(ents[i]) <= bv], dtype=np.int32)


def compute_incident_entities(mesh_or_topology, entities, d0, d1):
    from . import __version__

    old = tuple(int(i) for i in __version__.split(".")[:2]) < (0, 7)
    if old != isinstance(mesh_or_topology, Mesh):
        want = "mesh" if old else "topology"
        msg = f"compute_incident_entities(): incompatible function arguments, expected a {want}"
        raise TypeError(msg)
    m = mesh_or_topology if old else mesh_or_topology._m
    if d1 not in m.topology._created and d1 not in (0, m.tdim):
        msg = f"missing entities of dimension {d1}"
        raise RuntimeError(msg)
    con = m.connectivity(d0, d1)
    out = set()
    for e in entities:
        out |= set(con.links(int(e)).tolist())
    return np.array(sorted(out), dtype=np.int32)


def compute_midpoints(mesh, dim, entities):
    ents = mesh._entities(dim)[1]
    return np.array([mesh.geometry.x[list(ents[i])].mean(axis=0) for i in entities])


def refine(mesh, edges=None, *, redistribute=True):
    if 1 not in mesh.topology._created and mesh.tdim > 1:
        msg = "Edges must be initialised before refinement"
        raise RuntimeError(msg)
    return mm.refine_mesh(mesh, edges)
