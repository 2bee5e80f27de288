"""A stand-in for pypardiso with the interface and the semantics of its solver object.

A solver keeps the factorisation of the matrix last factorised by it; phase 33 solves with that factorisation
whatever matrix is passed, phases 12 and 13 factorise the matrix passed.
"""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as sla

SOLVERS = []


class PyPardisoWarning(UserWarning):
    pass


class PyPardisoError(Exception):
    pass


class PyPardisoSolver:
    def __init__(self, mtype=11, phase=13, size_limit_storage=5e7):
        self.mtype, self.phase = mtype, phase
        self.factorized_A = sp.csr_matrix((0, 0))
        self._lu = None
        SOLVERS.append(self)

    def set_phase(self, phase):
        self.phase = phase

    def factorize(self, A):  # noqa: N803
        self._check_A(A)
        self.factorized_A = A.copy()
        self.set_phase(12)
        self._call_pardiso(A, np.zeros((A.shape[0], 1)))

    def solve(self, A, b):  # noqa: N803
        self._check_A(A)
        b = self._check_b(A, b)
        f = self.factorized_A
        same = f.shape == A.shape and (f != A).nnz == 0
        self.set_phase(33 if same else 13)
        return self._call_pardiso(A, b)

    def _check_A(self, A):  # noqa: N802, N803
        if A.shape[0] != A.shape[1]:
            msg = f"Matrix A needs to be square, but has shape: {A.shape}"
            raise ValueError(msg)
        if not sp.issparse(A) or A.format != "csr":
            msg = "PyPardiso requires matrix A to be in CSR format"
            raise TypeError(msg)
        if not A.has_sorted_indices:
            A.sort_indices()
        if A.dtype != np.float64:
            msg = "PyPardiso currently only supports float64"
            raise TypeError(msg)
        if not np.diff(A.indptr).all():
            msg = "Matrix A is singular, because it contains empty row(s)"
            raise ValueError(msg)

    def _check_b(self, A, b):  # noqa: N802, N803
        if sp.issparse(b):
            b = b.todense()
        if b.shape[0] != A.shape[0]:
            msg = "Dimension mismatch: Matrix A and array b"
            raise ValueError(msg)
        if b.dtype != np.float64:
            b = b.astype(np.float64)
        return b

    def _call_pardiso(self, A, b):  # noqa: N803
        if self.phase in (11, 12, 13):
            self._lu = sla.splu(sp.csc_matrix(A))
        if self.phase == 12:
            return np.zeros_like(b)
        if self._lu is None:
            msg = "The Pardiso solver failed with error code -1"
            raise PyPardisoError(msg)
        return self._lu.solve(np.array(b))

    def free_memory(self, everything=False):
        self._lu = None
        self.factorized_A = sp.csr_matrix((0, 0))


def spsolve(A, b, factorize=True, squeeze=True, solver=None):  # noqa: N803
    return (solver or PyPardisoSolver()).solve(A, b)


def factorized(A, solver=None):  # noqa: N803
    s = solver or PyPardisoSolver()
    s.factorize(A)
    return lambda b: s.solve(A, b)
