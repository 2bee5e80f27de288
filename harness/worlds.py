"""Processes of one world, as threads that take turns; see spec/MCWorld.tla."""
from __future__ import annotations

import threading

import numpy as np
from mpi4py import MPI


class World:
    def __init__(self, size):
        self.size, self.lock = size, threading.Condition()
        self.rounds, self.values, self.over = [0] * size, {}, set()

    def exchange(self, rank, value):
        """All values of this round; called with the lock, which is free while others are waited for."""
        at = self.rounds[rank]
        self.rounds[rank] += 1
        got = self.values.setdefault(at, {})
        got[rank] = value
        self.lock.notify_all()
        while len(got) < self.size:
            if any(p in self.over for p in range(self.size) if p not in got) or not self.lock.wait(300):
                raise RuntimeError("the processes wait for each other")
        return [got[p] for p in range(self.size)]

    def run(self, programs):
        """The results of one program for every process."""
        out = [None] * self.size

        def main(p):
            with self.lock:
                try:
                    out[p] = programs[p]()
                except BaseException as e:  # noqa: BLE001
                    out[p] = e
                finally:
                    self.over.add(p)
                    self.lock.notify_all()

        ts = [threading.Thread(target=main, args=(p,)) for p in range(self.size)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out


class Process:
    """The communicator of one of them."""

    def __init__(self, world, rank, real):
        self._world, self.rank, self.size, self._real = world, rank, world.size, real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def Get_rank(self):  # noqa: N802
        return self.rank

    def Get_size(self):  # noqa: N802
        return self.size

    def allgather(self, x):
        return self._world.exchange(self.rank, x)

    def gather(self, x, root=0):
        got = self.allgather(x)
        return got if self.rank == root else None

    def bcast(self, x=None, root=0):
        return self.allgather(x)[root]

    def barrier(self):
        self.allgather(None)

    Barrier = barrier

    def allreduce(self, x, op=MPI.SUM):
        got = self.allgather(x)
        r = got[0]
        for v in got[1:]:
            r = op(r, v)
        return r

    def reduce(self, x, op=MPI.SUM, root=0):
        r = self.allreduce(x, op)
        return r if self.rank == root else None

    @staticmethod
    def _buffer(b):
        return b[0] if isinstance(b, (list, tuple)) else b

    def Allreduce(self, a, b, op=MPI.SUM):  # noqa: N802
        b = self._buffer(b)
        r = self.allreduce(np.array(b if a is MPI.IN_PLACE else self._buffer(a), copy=True), op)
        b[...] = r

    def Reduce(self, a, b, op=MPI.SUM, root=0):  # noqa: N802
        r = self.allreduce(np.array(self._buffer(b if a is MPI.IN_PLACE else a), copy=True), op)
        if self.rank == root:
            self._buffer(b)[...] = r

    def Bcast(self, a, root=0):  # noqa: N802
        self._buffer(a)[...] = self.bcast(np.array(self._buffer(a), copy=True), root)
