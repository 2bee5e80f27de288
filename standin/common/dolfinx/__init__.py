"""Stand-in for the part of DOLFINx (0.6 / 0.7 interface) that dxss uses, over minifem."""
import importlib.metadata as _m

try:
    __version__ = _m.version("fenics-dolfinx")
except _m.PackageNotFoundError:
    __version__ = "0.6.0"
VERIF_STANDIN = True
from . import fem, io, mesh  # noqa: E402,F401
