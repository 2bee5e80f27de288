from __future__ import annotations

import functools

from minifem.forms import CompiledForm, assemble_matrix_csr, assemble_vector_array, petsc_matrix
from petsc4py import PETSc


def _check(f, rank):
    if not isinstance(f, CompiledForm):
        msg = f"expected a compiled form, got {type(f)}"
        raise TypeError(msg)
    if f.rank != rank:
        msg = f"form has rank {f.rank}, expected {rank}"
        raise RuntimeError(msg)


def create_vector(L):
    _check(L, 1)
    v = PETSc.Vec().createGhost([], size=(L.function_spaces[0].size, None), comm=L.mesh.comm)
    v.set(0.0)
    return v


def create_matrix(a, mat_type=None):
    _check(a, 2)
    return petsc_matrix(assemble_matrix_csr(a) * 0.0, a.mesh.comm)


@functools.singledispatch
def assemble_vector(L, *a, **k):
    b = create_vector(L)
    assemble_vector_array(L, b.array)
    return b


@assemble_vector.register(PETSc.Vec)
def _(b, L, *a, **k):
    _check(L, 1)
    assemble_vector_array(L, b.array)
    return b


@functools.singledispatch
def assemble_matrix(a, bcs=None, diagonal=1.0, **k):
    _check(a, 2)
    if bcs:
        msg = "boundary conditions are not supported by minifem"
        raise NotImplementedError(msg)
    return petsc_matrix(assemble_matrix_csr(a), a.mesh.comm)


@assemble_matrix.register(PETSc.Mat)
def _(A, a, bcs=None, diagonal=1.0, **k):
    B = assemble_matrix(a, bcs)
    A.zeroEntries()
    A.axpy(1.0, B)
    return A
