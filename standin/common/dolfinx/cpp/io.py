import numpy as np

_TRI6 = [0, 1, 2, 4, 5, 3]


def perm_gmsh(cell_type, n):
    """cells[:, perm] turns gmsh's node order into DOLFINx's."""
    name = cell_type.name
    if (name, n) in (("triangle", 3), ("tetrahedron", 4), ("interval", 2)):
        return np.arange(n)
    if (name, n) == ("triangle", 6):
        return np.array(_TRI6)
    if (name, n) == ("quadrilateral", 4):
        return np.array([0, 1, 3, 2])
    msg = f"perm_gmsh: {name} with {n} nodes"
    raise RuntimeError(msg)
