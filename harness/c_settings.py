"""P25 (what the drivers solve, at all their settings) against spec/MCSettings.tla."""
from __future__ import annotations

import ast
import contextlib
import inspect
import io
import itertools
import os
import types
from fractions import Fraction

import numpy as np

STAB = {"data": 1e4, "dual": 1.0, "primal": 1e-3, "primal-jump": 1.0}


class Captured(BaseException):
    """The problem has been posed: the rest of the module is not run."""


class Missing(Exception):
    pass


# ---- in the worker ----------------------------------------------------------
def settings_of(rec):
    """The settings as the modules name them."""
    s = rec["set"]
    d = {"ORDER": s["order"], "T": s["T"][0] / s["T"][1]}
    if s["dim"] == 1:
        d["N"] = rec["slabs"]
    else:
        d["REF_LVL"] = s["level"]
    if s["dim"] == 3:
        d["DATA_SIZE"] = s["width"][0] / s["width"][1]
        d["GCC"] = s["around"]
    return d


def posed(dim, values, stabs):
    """Runs the module of a driver with other values of its settings up to the problem it poses."""
    import dolfinx.mesh as dm
    import dxss.meshes
    from dxss import space_time as S  # noqa: N812

    from harness import problem as P

    import dxss

    path = os.path.join(os.path.dirname(os.path.abspath(inspect.getfile(S))), f"solve_{dim}d.py")
    tree = ast.parse(open(path).read(), path)
    left = dict(values)
    if stabs:
        left["STABS"] = stabs
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in left:
            node.value = ast.copy_location(ast.parse(repr(left.pop(node.targets[0].id)), mode="eval").body, node.value)
    if left:
        raise Missing(", ".join(left))
    got = {"meshes": []}
    init = S.SpaceTime.__init__
    sig = inspect.signature(init)

    def record(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        got.update(b.arguments)
        raise Captured

    saved = [(S.SpaceTime, "__init__", init), (dxss.meshes, "get_mesh_data_all_around", dxss.meshes.get_mesh_data_all_around)]
    hierarchy = inspect.signature(dxss.meshes.get_mesh_data_all_around)
    S.SpaceTime.__init__ = record

    def levels(*a, **k):
        b = hierarchy.bind(*a, **k)
        b.apply_defaults()
        got["hierarchy"] = [P.mesh("squarecoarse") for _ in range(list(b.arguments.values())[0] + 1)]
        return got["hierarchy"]

    dxss.meshes.get_mesh_data_all_around = levels

    # large meshes are not made, but what was asked for is recorded
    def watch(name):
        f = getattr(dm, name)
        s = inspect.signature(f)

        def g(*a, **k):
            b = s.bind(*a, **k).arguments
            n = b["n"] if "n" in b else [b[x] for x in ("nx", "ny", "nz") if x in b]
            got["asked"] = [int(x) for x in np.ravel(n)]
            return f(*a, **k)

        saved.append((dm, name, f))
        setattr(dm, name, g)

    for name in ("create_box", "create_rectangle", "create_interval", "create_unit_interval", "create_unit_square", "create_unit_cube"):
        if hasattr(dm, name):
            watch(name)
    mod = types.ModuleType(f"dxss.solve_{dim}d")
    mod.__file__ = path
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            exec(compile(ast.fix_missing_locations(tree), path, "exec"), mod.__dict__)  # noqa: S102
    except Captured:
        pass
    finally:
        for o, n, f in saved:
            setattr(o, n, f)
    return got


def indicator(f, pts):
    """Values of an indicator at points."""
    if callable(f) and not hasattr(f, "ufl_shape"):
        x = np.zeros((3, len(pts)))
        x[:pts.shape[1]] = pts.T
        y = x.copy()
        v = np.asarray(f(x), dtype=float)
        if not np.array_equal(x, y):
            return v, "the points were modified"
        return v, None
    return np.array([float(f(tuple(float(c) for c in p))) for p in pts]), None


def job_settings(args):
    import json

    with open(args["tables"]) as f:
        recs = json.load(f)
    out, n = [], 0
    rng = np.random.default_rng(args["seed"])
    missing = set()
    for i in args["indices"]:
        rec = recs[i]
        s = rec["set"]
        dim, what = s["dim"], {"driver": f"solve_{s['dim']}d", "settings": settings_of(rec)}
        stabs = None if i % 2 else {"data": 7.0, "dual": 3.0, "primal": 5.0, "primal-jump": 11.0}
        try:
            g = posed(dim, settings_of(rec), stabs)
        except Missing as e:
            missing.add(f"solve_{dim}d: {e}")
            continue

        def bad(text, what=what, **k):
            out.append({**what, "what": text, **{a: str(b)[:200] for a, b in k.items()}})

        n += 1
        if "msh" not in g:
            bad("no problem is posed")
            continue
        T = Fraction(*s["T"])  # noqa: N806
        if g["N"] != rec["slabs"]:
            bad("number of slabs", given=g["N"], wanted=rec["slabs"])
        if abs(g["T"] - float(T)) > 1e-15 or g["t"] != 0:
            bad("time interval", given=(g["t"], g["T"]), wanted=T)
        o, p, d = g["polynomial_order_time"], g["polynomial_order_space"], rec["degrees"]
        if {"q": o.q, "qstar": o.qstar, "k": p.k, "kstar": p.kstar} != d:
            bad("degrees", given=(o, p), wanted=d)
        if dict(g["stabilisation_terms"]) != (stabs or STAB):
            bad("stabilisation", given=g["stabilisation_terms"])
        if tuple(g["parameters"]) != (False, False):
            bad("parameters", given=g["parameters"])
        # the mesh
        msh = g["msh"]
        if dim == 2:
            if not any(msh is m and j == s["level"] for j, m in enumerate(g.get("hierarchy", []))):
                bad("not the mesh of the level of refinement")
        else:
            x = msh.geometry.x[:, :dim]
            cells = msh.topology.index_map(dim).size_local
            c = min(rec["cells"], int(os.environ["MINIFEM_MAX_CELLS_PER_AXIS"]))
            if cells != c**dim or x.min() != 0 or x.max() != 1 or len(np.unique(np.round(x[:, 0], 9))) != c + 1 or \
                    g.get("asked", [rec["cells"]] * dim) != [rec["cells"]] * dim:
                bad("the mesh", cells=cells, asked=g.get("asked"), wanted=rec["cells"])
        # the data domain, at the midpoints of cells, in groups and one by one
        m = rec["grid"]
        mids = np.array(list(itertools.product(range(m), repeat=dim)))
        want = np.zeros(len(mids))
        want[rec["inside"]] = 1.0
        pts = (2 * mids + 1) / (2 * m)
        ind, fitted = g["omega"].indicator_function, bool(g["omega"].fitted)
        if fitted != rec["fitted"]:
            bad("fitted", given=fitted)
        order = rng.permutation(len(pts))
        parts = [np.arange(len(pts)), order] + [order[:1], order[-1:], np.nonzero(want)[0], np.nonzero(want == 0)[0]]
        for k in parts:
            v, complaint = indicator(ind, pts[k])
            n += 1
            if v.shape != want[k].shape or not np.array_equal(v, want[k]):
                j = k[np.nonzero(v != want[k])[0][0]] if v.shape == want[k].shape else None
                bad("data domain", point=None if j is None else pts[j].tolist(), wanted=None if j is None else want[j])
                break
            if complaint:
                bad("data domain: " + complaint)
        # anywhere within the cells of the mesh
        inner = pts + rng.uniform(-0.4, 0.4, pts.shape) / m
        v, _ = indicator(ind, inner)
        if not np.array_equal(v, want):
            bad("data domain: changes within a cell")
        # the exact solution
        u, du = g["solution"].v, g["solution"].dvdt
        for _ in range(6):
            t, x, h = rng.uniform(0.05, 0.95), rng.uniform(0.05, 0.95, dim), 1e-4
            n += 1
            e = np.eye(dim)

            def at(f, t, x):
                return float(f(float(t), [float(c) for c in x]))

            der = (at(u, t + h, x) - at(u, t - h, x)) / (2 * h)
            tt = (at(u, t + h, x) - 2 * at(u, t, x) + at(u, t - h, x)) / h**2
            lap = sum((at(u, t, x + h * e[c]) - 2 * at(u, t, x) + at(u, t, x - h * e[c])) / h**2 for c in range(dim))
            if not abs(der - at(du, t, x)) <= 1e-4 * (1 + abs(der)) or not abs(tt - lap) <= 1e-3 * (1 + abs(tt)):
                bad("the exact solution does not solve the wave equation, or its derivative is another", t=t, x=x)
            x[rng.integers(dim)] = float(rng.integers(2))
            if not abs(at(u, t, x)) <= 1e-9:
                bad("the exact solution is not zero on the boundary", t=t, x=x)
    return {"bad": out[:8], "n": n, "missing": sorted(missing)}


# ---- check --------------------------------------------------------------------
def check_P25(ck):
    import json

    from harness.c_forms import report

    recs = ck.tlc("MCSettings", out="settings.json", workers="1", consts={"MaxPoints": "16"} if ck.thorough else None).data
    path = os.path.join(ck.scratch, "settings-all.json")
    with open(path, "w") as f:
        json.dump(recs, f)
    parts = 8
    jobs = [("c_settings:job_settings", {"tables": path, "indices": list(range(p, len(recs), parts))}, {"MINIFEM_MAX_CELLS_PER_AXIS": 16 if ck.thorough else 8}) for p in range(parts)]
    res = ck.run_many(jobs, timeout=850)
    report(ck, [{"settings of drivers": f"part {p}"} for p in range(parts)], res, "driver settings")
    ck.sample({"setting": {k: v for k, v in recs[-1].items() if k != "inside"}, "cells with data": len(recs[-1]["inside"])})
    ck.cov.update(settings=len(recs))
