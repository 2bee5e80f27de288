"""P03, P04, P06: tables that TLC computes from spec/TimeBasis.tla, replayed on dxss.precomp_time_int."""
from __future__ import annotations

import itertools
import random
from fractions import Fraction

from harness.common import close, frac


def peval(p, x):
    s = Fraction(0)
    for c in reversed(p):
        s = s * x + frac(c)
    return s


def points(tier, seed, lo=-2, hi=3):
    import random

    rnd = random.Random(seed)
    n = 60 if tier == "quick" else 600
    pts = [lo + (hi - lo) * i / (n * 5) for i in range(n * 5 + 1)]
    pts += [a / b for b in (1, 2, 3, 4, 6, 7, 104) for a in range(lo * b, hi * b + 1)]
    pts += [rnd.uniform(lo, hi) for _ in range(n * 5)]
    import math

    for c in (0.0, 1.0, 0.5, 1 / 3, 2 / 3, -1.0):
        pts += [math.nextafter(c, 9), math.nextafter(c, -9), c + 1e-9, c - 1e-9]
    pts += [s * 10.0**e for e in range(1, 5) for s in (-1, 1, -3.7, 2.3)]
    return sorted(set(pts))


def ways(f, pts):
    """Values at all points: one by one, as an array of one or two axes, as numbers of other kinds."""
    import numpy as np

    def arr(a):
        kept = a.copy()
        v = np.broadcast_to(np.asarray(f(a), dtype=float), a.shape).ravel().tolist()
        return v if np.array_equal(a, kept) else ["the points were modified"]

    a = np.array(pts)
    whole = [x for x in pts if x == int(x)]
    out = {"one by one": [float(f(x)) for x in pts], "array": arr(a), "numpy numbers": [float(f(x)) for x in a]}
    out["array of two axes"] = arr(np.stack([a, a[::-1]]))[: len(pts)]
    ints = {x: float(f(int(x))) for x in whole}
    out["integers"] = [ints.get(x) for x in pts]
    few = {x: float(f(np.int64(x))) for x in whole}
    out["numpy integers"] = [few.get(x) for x in pts]
    return out


# ---- in the worker ----------------------------------------------------------
def eval_basis(args):
    from dxss.precomp_time_int import basis_in_time

    out = []
    for q in range(4):
        v, d = basis_in_time[q]
        out.append({"n": [len(v), len(d)],
                    "v": [ways(f, args["pts"]) for f in v], "d": [ways(f, args["pts"]) for f in d]})
    return out


def eval_theta(args):
    from dxss.precomp_time_int import d_theta_ref, theta_ref

    return [ways(theta_ref, args["pts"]), ways(d_theta_ref, args["pts"])]


NAMES = {"M_time_q_qstar": ("M", "s", "q"), "M_time_q_q": ("M", "q", "q"), "M_time_qstar_qstar": ("M", "s", "s"),
         "DM_time_q_qstar": ("DM", "s", "q"), "DM_time_q_q": ("DM", "q", "q"), "DDM_time_q_q": ("DDM", "q", "q")}


def eval_elmat(args):
    from dxss.precomp_time_int import get_elmat_time

    out = []
    for q, s in args["pairs"]:
        e = get_elmat_time(q, s)
        out.append({k: [list(e[k].shape), [[float(x) for x in row] for row in e[k]]] for k in NAMES})
        for k in NAMES:  # the result is the caller's
            if e[k].flags.writeable:
                e[k][...] = -7.0
    return out


# ---- checks -------------------------------------------------------------------
def tables(ck):
    return ck.tlc("MCTimeBasis", out="tables.json").data


def compare(ck, clause, poly, pts, got, tol, info):
    want = [peval(poly, Fraction(x)) for x in pts]
    for way, ys in got.items():
        if not ck.expect(len(ys) == len(pts), clause, {**info, "given as": way, "code": ys[:2]}):
            continue
        for x, y, e in zip(pts, ys, want):
            if y is not None:
                ck.expect(close(y, e, tol, tol), clause, {**info, "given as": way, "x": x, "code": y, "spec": float(e)})


def check_P03(ck):
    tab = tables(ck)
    pts = points(ck.tier, ck.seed)
    data = ck.answer(ck.run("c_time:eval_basis", {"pts": pts}), "evaluate the time bases")
    if data is None:
        return
    for q in range(4):
        ck.expect(data[q]["n"] == [q + 1, q + 1], "number of basis functions", {"q": q, "n": data[q]["n"]})
        for what, t in (("v", "basis"), ("d", "dbasis")):
            for j in range(min(q + 1, len(data[q][what]))):
                compare(ck, "value of " + ("basis function" if what == "v" else "derivative"), tab[t][q][j], pts, data[q][what][j], 1e-10,
                        {"q": q, "function": j})
    ck.traces += 8
    ck.sample({"q": 3, "function": 1, "coefficients": tab["basis"][3][1], "points": len(pts)})
    ck.cov.update(points=len(pts), exhaustive=False)


def check_P04(ck):
    tab = tables(ck)
    pairs = list(itertools.product(range(4), range(4)))
    # complete histories in one process, in different orders
    rnd = random.Random(ck.seed)
    chunks = [pairs + pairs[:3], pairs[::-1] + pairs[::-1][:3]] + [rnd.sample(pairs, 16) + rnd.sample(pairs, 3) for _ in range(5 if ck.thorough else 2)]
    res = ck.run_many([("c_time:eval_elmat", {"pairs": c}, None) for c in chunks])
    for c, r in zip(chunks, res):
        data = ck.answer(r, f"element matrices {c}")
        if data is None:
            continue
        for (q, s), e in zip(c, data):
            for name, (kind, rt, ct) in NAMES.items():
                dr, dc = (q if rt == "q" else s), (q if ct == "q" else s)
                shape, m = e[name]
                if not ck.expect(shape == [dr + 1, dc + 1], "shape", {"q": q, "qstar": s, "matrix": name, "shape": shape}):
                    continue
                want = tab[kind][dr][dc]
                for i, j in itertools.product(range(dr + 1), range(dc + 1)):
                    w = frac(want[i][j])
                    ck.expect(close(m[i][j], w, 1e-9, 1e-10), "entry",
                              {"q": q, "qstar": s, "matrix": name, "row": i, "col": j, "code": m[i][j], "spec": str(w)})
            ck.traces += 1
    ck.sample({"q": 3, "qstar": 2, "DM": tab["DM"][2][3]})
    ck.cov.update(pairs=len(pairs), exhaustive=True)


def check_P06(ck):
    tab = tables(ck)
    pts = points(ck.tier, ck.seed, -3, 3)
    data = ck.answer(ck.run("c_time:eval_theta", {"pts": pts}), "evaluate the lifting polynomial")
    if data is None:
        return
    for name, t, ys in (("value", "theta", data[0]), ("derivative", "dtheta", data[1])):
        compare(ck, name, tab[t], pts, ys, 1e-11, {})
        ck.traces += 1
    ck.sample({"theta": tab["theta"], "dtheta": tab["dtheta"]})
    ck.cov.update(points=len(pts), exhaustive=False)
