from __future__ import annotations

from minifem.forms import CompiledForm, assemble_scalar as _as, assemble_vector_array
from minifem.spaces import Constant, Expression, Function, FunctionSpace as _FS, Vector  # noqa: F401

FormMetaClass = CompiledForm
Form = CompiledForm


FunctionSpace = _FS


def functionspace(mesh, element):
    return _FS(mesh, element)


def VectorFunctionSpace(mesh, element, dim=None):  # noqa: N802
    import ufl

    e = ufl.FiniteElement(element[0], mesh.ufl_cell(), element[1])
    return _FS(mesh, ufl.VectorElement(e, dim=dim if dim else mesh.gdim))


def form(f, *a, **k):
    if isinstance(f, (list, tuple)):
        return [form(i) for i in f]
    if isinstance(f, CompiledForm):
        return f
    if f == 0:
        return None
    return CompiledForm(f)


def assemble_scalar(f):
    if not isinstance(f, CompiledForm):
        f = form(f)
    if f.rank != 0:
        msg = "assemble_scalar: form is not a functional"
        raise RuntimeError(msg)
    return _as(f)


def assemble_vector(f):
    v = Vector(f.function_spaces[0].size)
    assemble_vector_array(f, v.array)
    return v


from . import petsc  # noqa: E402,F401
