"""Reference Lagrange elements and quadrature."""
from __future__ import annotations

import functools
import itertools
import math

import numpy as np

from .mesh import TDIM

SIMPLEX = ("interval", "triangle", "tetrahedron")


@functools.lru_cache(None)
def exponents(cell, k):
    d = TDIM[cell]
    if cell in SIMPLEX:
        return tuple(a for a in itertools.product(range(k + 1), repeat=d) if sum(a) <= k)
    return tuple(itertools.product(range(k + 1), repeat=d))


@functools.lru_cache(None)
def nodes(cell, k):
    d = TDIM[cell]
    if k == 0:
        c = 1.0 / (d + 1) if cell in SIMPLEX else 0.5
        return np.full((1, d), c)
    if cell in SIMPLEX:
        pts = [a for a in itertools.product(range(k + 1), repeat=d) if sum(a) <= k]
    else:
        pts = list(itertools.product(range(k + 1), repeat=d))
    return np.array(pts, float) / k


def _mono(cell, k, xi, der):
    """Derivative `der` (tuple of directions) of all monomials at xi (..., d)."""
    d = TDIM[cell]
    cnt = [der.count(i) for i in range(d)]
    cols = []
    for a in exponents(cell, k):
        v = np.ones(xi.shape[:-1])
        for i in range(d):
            if cnt[i] > a[i]:
                v = np.zeros(xi.shape[:-1])
                break
            f = math.perm(a[i], cnt[i])
            v = v * f * xi[..., i] ** (a[i] - cnt[i])
        cols.append(v)
    return np.stack(cols, axis=-1)


@functools.lru_cache(None)
def _coeff(cell, k):
    return np.linalg.inv(_mono(cell, k, nodes(cell, k), ()))


def tabulate(cell, k, xi, der=()):
    return _mono(cell, k, xi, tuple(der)) @ _coeff(cell, k)


def _gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return 0.5 * (x + 1), 0.5 * w


@functools.lru_cache(None)
def quadrature(cell, deg):
    """Points and weights on the reference cell exact for polynomials of degree `deg`."""
    d = TDIM[cell]
    if cell == "interval":
        x, w = _gauss01(deg // 2 + 1)
        return x[:, None], w
    if cell in SIMPLEX:
        x, w = _gauss01((deg + d) // 2 + 1)
        pts, wts = [], []
        for ii in itertools.product(range(len(x)), repeat=d):
            u = x[list(ii)]
            ww = np.prod(w[list(ii)])
            p = np.zeros(d)
            rem = 1.0
            for r in range(d):
                p[r] = rem * u[r]
                ww *= rem ** (1.0 if r else 0.0)
                rem *= 1 - u[r]
            # Jacobian of the collapsed map: prod_{r>=1} prod_{s<r} (1-u_s)
            pts.append(p)
            wts.append(ww)
        return np.array(pts), np.array(wts)
    x, w = _gauss01(deg // 2 + 1)
    pts = np.array(list(itertools.product(x, repeat=d)))
    wts = np.array([np.prod(t) for t in itertools.product(w, repeat=d)])
    return pts, wts
