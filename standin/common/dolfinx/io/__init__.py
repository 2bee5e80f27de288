from __future__ import annotations

import os

import numpy as np
from minifem.mesh import Mesh

from . import gmshio  # noqa: F401

WRITTEN = []  # (file, kind, object): what was written, for the harness


class XDMFFile:
    def __init__(self, comm, filename, file_mode, encoding=None):
        self.comm, self.filename, self.mode = comm, str(filename), file_mode
        self._closed = False
        self._mesh = None
        self._data = {}
        if file_mode == "r" and not os.path.exists(self.filename):
            msg = f"Unable to open file {self.filename}"
            raise RuntimeError(msg)
        if file_mode == "w":
            with open(self.filename, "w") as f:
                f.write("")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        if not self._closed and self.mode == "w" and self._mesh is not None:
            import meshio

            m = self._mesh
            cd = {}
            for name, (vals, loc) in self._data.items():
                if loc == "node":
                    cd[name] = vals
            meshio.write(
                self.filename,
                meshio.Mesh(m.geometry.x, [({"quadrilateral": "quad", "tetrahedron": "tetra", "interval": "line"}.get(m.cell, m.cell),
                            m.cells if m.cell not in ("quadrilateral", "hexahedron") else m.cells)], point_data=cd),
                file_format="xdmf",
            )
        self._closed = True

    # reading
    def _read(self):
        import meshio

        return meshio.read(self.filename)

    def read_mesh(self, ghost_mode=None, name="mesh", xpath="/Xdmf/Domain"):
        self._check_name(name)
        g = self._read()
        typ = {"triangle": "triangle", "line": "interval", "tetra": "tetrahedron"}
        (blk,) = g.cells
        pts = g.points
        used = np.unique(blk.data)
        inv = -np.ones(len(pts), int)
        inv[used] = np.arange(len(used))
        m = Mesh(self.comm, pts[used], inv[blk.data], typ[blk.type], ghost_mode)
        m.name = name
        return m

    def read_meshtags(self, mesh, name="mesh", xpath="/Xdmf/Domain"):
        from ..mesh import MeshTags

        self._check_name(name)
        g = self._read()
        (blk,) = g.cells
        vals = next(iter(g.cell_data.values()))[0]
        d = {"vertex": 0, "line": 1, "triangle": 2, "tetra": 3}[blk.type]
        idx = mesh._entities(d)[0] if d < mesh.tdim else {
            tuple(sorted(c)): i for i, c in enumerate(mesh.cells.tolist())}
        # match by coordinates
        key = {tuple(np.round(p, 10)): i for i, p in enumerate(mesh.points)}
        ii, vv = [], []
        for c, v in zip(blk.data, vals):
            t = tuple(sorted(key.get(tuple(np.round(g.points[a][: mesh.gdim], 10)), -1) for a in c))
            if t in idx:
                ii.append(idx[t])
                vv.append(v)
        return MeshTags(mesh, d, ii, vv)

    def _check_name(self, name):
        import xml.etree.ElementTree as et

        names = [e.get("Name") for e in et.parse(self.filename).iter("Grid")]
        if name not in names:
            msg = f"<Grid> with name '{name}' not found."
            raise RuntimeError(msg)

    # writing
    def write_mesh(self, mesh, xpath=None):
        self._mesh = mesh
        WRITTEN.append((self.filename, "mesh", mesh))

    def write_meshtags(self, tags, *a, **k):
        WRITTEN.append((self.filename, "meshtags", tags))

    def write_function(self, u, t=0.0, mesh_xpath=None):
        s, dm = u.function_space.comps[0]
        WRITTEN.append((self.filename, "function", u, t, u.x.array.copy()))
        if s.k == 1 and s.family == "CG":
            vals = np.zeros(len(self._mesh.points))
            vals[self._mesh.cells] = u.x.array[dm[s.cell_dofs]]
            self._data[u.name] = (vals, "node")


VTXWriter = None
