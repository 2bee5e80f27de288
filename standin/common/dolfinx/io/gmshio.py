from __future__ import annotations

import numpy as np
import ufl
from minifem.mesh import Mesh

# gmsh element types
_TYPES = {1: ("interval", 1), 2: ("triangle", 1), 3: ("quadrilateral", 1), 4: ("tetrahedron", 1),
          5: ("hexahedron", 1), 8: ("interval", 2), 9: ("triangle", 2)}


def ufl_mesh(gmsh_cell, gdim):
    shape, deg = _TYPES[gmsh_cell]
    c = ufl.Cell(shape, geometric_dimension=gdim) if gdim != {"interval": 1, "triangle": 2, "quadrilateral": 2}.get(shape, 3) else ufl.Cell(shape)
    return ufl.Mesh(ufl.VectorElement("Lagrange", c, deg, dim=gdim))


def extract_geometry(model):
    idx, pts, _ = model.mesh.getNodes()
    x = np.zeros((len(idx), 3))
    x[np.argsort(np.argsort(idx))] = pts.reshape(-1, 3)
    return x


def model_to_mesh(model, comm, rank, gdim=3, partitioner=None):
    from ..mesh import MeshTags

    if comm.rank != rank:  # this process only takes part in the distribution
        m = Mesh(comm, np.zeros((0, gdim)), np.zeros((0, gdim + 1), int), "tetrahedron" if gdim == 3 else "triangle")
        return m, MeshTags(m, gdim, [], []), MeshTags(m, gdim - 1, [], [])
    idx, pts, _ = model.mesh.getNodes()
    pts = pts.reshape(-1, 3)
    pos = {int(t): i for i, t in enumerate(idx)}
    groups = model.getPhysicalGroups()
    if not groups:
        msg = "No 'physical groups' in gmsh mesh. Cannot continue."
        raise RuntimeError(msg)
    cells = {}
    for dim, tag in groups:
        for ent in model.getEntitiesForPhysicalGroup(dim, tag):
            types, _, nodes = model.mesh.getElements(dim, ent)
            for t, n in zip(types, nodes):
                nn = model.mesh.getElementProperties(t)[3]
                arr = np.array([pos[int(i)] for i in n]).reshape(-1, nn)
                cells.setdefault(dim, []).append((t, arr, tag))
    tdim = max(cells)
    t0 = cells[tdim][0][0]
    allc = np.vstack([a for _, a, _ in cells[tdim]])
    ctag = np.concatenate([np.full(len(a), g) for _, a, g in cells[tdim]])
    used = np.unique(allc)
    inv = -np.ones(len(pts), int)
    inv[used] = np.arange(len(used))
    m = Mesh(comm, pts[used][:, :gdim], inv[allc], _TYPES[t0][0])
    ct = MeshTags(m, tdim, np.arange(len(allc)), ctag)
    fidx = m._entities(tdim - 1)[0]
    fi, fv = [], []
    for t, a, g in cells.get(tdim - 1, []):
        for r in a:
            k = tuple(sorted(inv[r].tolist()))
            if k in fidx:
                fi.append(fidx[k])
                fv.append(g)
    return m, ct, MeshTags(m, tdim - 1, fi, fv)
