"""P21 (generated meshes) against spec/Mesh.tla and P22 (mesh generation sessions) against spec/Session.tla."""
from __future__ import annotations

import contextlib
import io
import itertools
import os
import sys

import numpy as np

HIERARCHIES = ("get_mesh_hierarchy", "get_mesh_hierarchy_nonconvex", "get_mesh_hierarchy_fitted_disc",
               "get_mesh_data_all_around", "get_3d_mesh_data_all_around")
SIZE = {"get_mesh_hierarchy_fitted_disc": ("h_init", 1.25), "get_mesh_inclusion": ("h_init", 1.25),
        "get_mesh_inclusion_square": ("h_init", 1.25), "get_mesh_bottom_data": ("h_init", 1.25)}


MANY = {2: 2400, 3: 5000}  # cells, from which on meshes are only measured


def size_of(name, kw):
    arg, default = SIZE.get(name, ("init_h_scale", 1.0))
    return kw.get(arg, default)


def box(x0, x1, y0, y1, *z):
    return {"lo": [x0, y0, *z[:1]], "hi": [x1, y1, *z[1:]]}


def geometry(name, kw):
    """Domain, regions the mesh has to fit, radius of the disc it has to fit (all in length units)."""
    unit = box(0, 1, 0, 1)
    if name in ("create_initial_mesh_convex", "get_mesh_convex", "get_mesh_hierarchy"):
        return unit, [box(0.1, 0.9, 0.25, 0.95), box(0.1, 0.9, 0.25, 1), box(0.1, 0.9, 0.95, 1)], 0
    if name == "get_mesh_hierarchy_nonconvex":
        return unit, [box(0.25, 0.75, 0.05, 0.5), box(0.125, 0.875, 0.05, 0.95)], 0
    if name == "get_mesh_hierarchy_fitted_disc":
        e = kw["eta"]
        return unit, [box(0, 1, 0, e), box(0.1, 0.9, 0.25, e), box(0.1, 0.9, e, 0.95), box(0.1, 0.9, 0.25, 0.95)], 0
    if name == "get_mesh_bottom_data":
        e = kw.get("eta", 0.6)
        return unit, [box(0, 1, 0, 0.25), box(0.25, 0.75, 0.25, e), box(0.25, 0.75, e, 0.9), box(0, 1, 0, e),
                      box(0.25, 0.75, 0.25, 0.9)], 0
    if name == "get_mesh_data_all_around":
        return unit, [box(0.2, 0.8, 0.2, 0.8)], 0
    if name == "get_3d_mesh_data_all_around":
        return box(0, 1, 0, 1, 0, 1), [box(0.2, 0.8, 0.2, 0.8, 0.2, 0.8)], 0
    if name == "get_mesh_inclusion":
        return box(-1.5, 1.5, -1.5, 1.5), [box(-0.5, 0.5, -0.5, 0.5), box(-1.25, 1.25, -1.25, 1.5)], 1.0
    if name == "get_mesh_inclusion_square":
        e = kw.get("eta", 1.25)
        xl, xr, yl, yr = (kw.get(k, d) for k, d in (("x_l", -1.25), ("x_r", 1.25), ("y_l", -1.25), ("y_r", 1.25)))
        r = [box(-0.75, 0.75, -0.75, 0.75), box(xl, xr, yl, yr), box(-1.25, 1.25, -1.25, min(e, 1.5))]
        if e < 1.5:
            r += [box(-1.5, 1.5, -1.5, e)]
        if yl < e < yr:
            r += [box(xl, xr, yl, e), box(xl, xr, e, yr)]
        return box(-1.5, 1.5, -1.5, 1.5), r, 0
    raise KeyError(name)


def scale_of(dom):
    if len(dom["lo"]) == 3:
        return 500
    return 20000 if dom["hi"][0] == 1 else 6000


def ints(x, s):
    return np.rint(np.asarray(x, float) * s).astype(int).tolist()


def origins(old, new):
    """Claims about a refinement, to be judged: where every vertex comes from, in which cell every cell lies."""
    from scipy.spatial import cKDTree

    n = len(old.points)
    edges = sorted({tuple(sorted((int(a), int(b)))) for c in old.cells for a, b in itertools.combinations(c, 2)})
    e = np.array(edges)
    pts = np.vstack([old.points, 0.5 * (old.points[e[:, 0]] + old.points[e[:, 1]])])
    src = [(i + 1, i + 1) for i in range(n)] + [(a + 1, b + 1) for a, b in edges]
    d, i = cKDTree(pts).query(new.points)
    frm = [src[j] if x < 1e-9 else (0, 0) for x, j in zip(d, i)]
    cells = {}
    for k, c in enumerate(old.cells):
        cells[frozenset(int(v) + 1 for v in c)] = k + 1
    where = {}
    for c, k in cells.items():
        for v in c:
            where.setdefault(v, set()).add(k)
    par = []
    for c in new.cells:
        vs = {v for p in c for v in frm[p]}
        ks = set.intersection(*(where.get(v, set()) for v in vs)) if vs else set()
        par.append(min(ks) if len(ks) == 1 else (min(ks) if ks else 0))
    return frm, par


def export(name, kw, meshes, log):
    dom, boxes, disc = geometry(name, kw)
    s = scale_of(dom)
    dim = len(dom["lo"])
    diag = float(np.linalg.norm(np.array(dom["hi"], float) - np.array(dom["lo"], float)))
    size = size_of(name, kw)
    scaled = [{k: ints(v, s) for k, v in b.items()} for b in boxes]
    first = None
    for j, m in enumerate(meshes):
        h = size / 2**j if name == "get_mesh_convex" else size
        log.append({"ev": "mesh", "id": f"{name} {kw} level {j}",
                    "mesh": {"pts": ints(m.points, s), "cells": (m.cells + 1).tolist()},
                    "domain": {k: ints(v, s) for k, v in dom.items()}, "boxes": scaled, "disc": int(disc * s),
                    "longest": int(np.ceil((2.0 if dim == 2 else 2.7) * 0.1 * diag * h * s))})
        if m.all_cells.shape[1] > m.cells.shape[1]:
            mids = [ints(m.points[c[3:]], s) for c in m.all_cells]
            log.append({"ev": "curved", "id": f"{name} {kw}", "of": len(log), "mids": mids, "disc": int(disc * s)})
        if name in HIERARCHIES and j:
            frm, par = origins(meshes[j - 1], m)
            log.append({"ev": "refined", "id": f"{name} {kw} level {j}", "old": first, "new": len(log), "from": frm, "parent": par})
            first = len(log) - 1
        else:
            first = len(log)


def measure(name, kw, msh, log):
    """Fine meshes: their volume, that of the domain, and the longest edge."""
    dom, _, _ = geometry(name, kw)
    s = 500 if len(dom["lo"]) == 3 else 5000
    d = np.array(dom["hi"], float) - np.array(dom["lo"], float)
    p = msh.points[msh.cells][:, :, : len(d)]
    vol = np.abs(np.linalg.det(p[:, 1:] - p[:, :1])).sum() / (2 if len(d) == 2 else 6)
    edge = max(np.linalg.norm(p[:, i] - p[:, j], axis=1).max() for i, j in itertools.combinations(range(len(d) + 1), 2))
    bound = (2.0 if len(d) == 2 else 2.7) * 0.1 * float(np.linalg.norm(d)) * size_of(name, kw)
    log.append({"ev": "size", "id": f"{name} {kw}", "edge": int(np.ceil(edge * s)), "longest": int(np.ceil(bound * s)),
                "volume": round(vol * 1e6), "of": round(float(np.prod(d)) * 1e6)})


def call(name, kw):
    import dxss.meshes as M

    with contextlib.redirect_stdout(io.StringIO()):
        return getattr(M, name)(**kw)


def job_meshes(args):
    log = []
    sizes = {}
    for name, kw in args["calls"]:
        import gmsh

        try:
            got = call(name, kw)
        except BaseException as e:  # noqa: BLE001 - whatever the code under test raises
            log.append({"ev": "failed", "id": f"{name} {kw}", "why": f"{type(e).__name__}: {e}"})
            if gmsh.isInitialized():
                gmsh.finalize()
            continue
        many = name == "get_mesh_convex" or name in HIERARCHIES
        meshes = got if many else [got]
        if many:
            log.append({"ev": "levels", "id": f"{name} {kw}", "got": len(got), "want": kw["n_ref"] + (name in HIERARCHIES)})
        if kw.get("n_ref", 0) == 0 and meshes and len(meshes[0].cells) > MANY[len(meshes[0].points[0]) if "3d" in name else 2]:
            measure(name, kw, meshes[0], log)
        else:
            export(name, kw, meshes, log)
        rest = repr(sorted((k, v) for k, v in kw.items() if k not in ("h_init", "init_h_scale", "n_ref")))
        if not meshes:
            continue
        sizes.setdefault((name, rest), {})[size_of(name, kw)] = len(meshes[0].cells)
        if name == "get_mesh_convex":
            log.append({"ev": "finer", "id": f"{name} {kw}", "cells": [len(m.cells) for m in meshes]})
    for (name, rest), d in sizes.items():
        hs = sorted(d, reverse=True)
        # factors apart by two or more
        keep = [h for i, h in enumerate(hs) if i == 0 or hs[i - 1] >= 1.9 * h]
        log.append({"ev": "finer", "id": f"{name} {rest} {keep}", "cells": [d[h] for h in keep]})
    return {"log": log}


def calls(thorough):
    hs = [5.0, 2.0, 1.0, 0.5] if thorough else [2.0, 1.0]
    out = []
    for h in hs:
        deep = 2 if thorough and h >= 2 else 1
        out += [("create_initial_mesh_convex", {"init_h_scale": h})]
        out += [(n, {"n_ref": deep if h >= 1 else 0, "init_h_scale": h}) for n in
                ("get_mesh_hierarchy", "get_mesh_hierarchy_nonconvex", "get_mesh_data_all_around")]
        for e in ([0.3, 0.45, 0.6, 0.75, 0.9] if thorough else [0.45, 0.6, 0.9]):
            out.append(("get_mesh_hierarchy_fitted_disc", {"n_ref": deep if e == 0.6 and h >= 1 else 0, "eta": e, "h_init": h}))
        for e in ([0.3, 0.45, 0.6, 0.75, 0.85] if thorough else [0.35, 0.6, 0.8]):
            out.append(("get_mesh_bottom_data", {"eta": e, "h_init": h}))
        out += [("get_mesh_inclusion", {"order": o, "h_init": h}) for o in (1, 2) if h <= 2 or o == 1]
        tgt = [{}, {"eta": 0.6}, {"eta": 1.5}, {"x_l": -1.0, "x_r": 0.9, "y_l": -1.1, "y_r": 1.0, "eta": 0.6}]
        if thorough:
            tgt += [{"eta": 1.4}, {"eta": 1.0}, {"x_l": -1.0, "x_r": 1.0, "y_l": -1.0, "y_r": 1.0, "eta": 1.5},
                    {"x_l": -1.0, "x_r": 1.0, "y_l": -1.0, "y_r": 1.0},
                    {"x_l": -0.5, "x_r": 0.25, "y_l": -0.4, "y_r": 0.5, "eta": 0.8}]
        out += [("get_mesh_inclusion_square", {**t, "h_init": h}) for t in tgt]
    out += [("get_mesh_convex", {"n_ref": 3, "init_h_scale": 2.0}), ("get_mesh_convex", {"n_ref": 1}), ("get_mesh_convex", {"n_ref": 0})]
    # fine ones
    for h in (0.5, 0.25, 0.12, 0.06) if thorough else (0.25, 0.12):
        out += [("create_initial_mesh_convex", {"init_h_scale": h}), ("get_mesh_hierarchy_fitted_disc", {"n_ref": 0, "eta": 0.6, "h_init": h}),
                ("get_mesh_bottom_data", {"eta": 0.6, "h_init": h}), ("get_mesh_inclusion_square", {"h_init": h}), ("get_mesh_inclusion", {"order": 1, "h_init": h})]
        out += [(n, {"n_ref": 0, "init_h_scale": h}) for n in ("get_mesh_hierarchy", "get_mesh_hierarchy_nonconvex", "get_mesh_data_all_around")]
    out += [("get_mesh_convex", {"n_ref": 4, "init_h_scale": 1.0}), ("get_3d_mesh_data_all_around", {"n_ref": 0, "init_h_scale": 0.5}),
            ("get_3d_mesh_data_all_around", {"n_ref": 0, "init_h_scale": 0.25})]
    # with the default arguments
    out += [("create_initial_mesh_convex", {}), ("get_mesh_inclusion", {}), ("get_mesh_inclusion_square", {}),
            ("get_mesh_bottom_data", {}), ("get_mesh_hierarchy_fitted_disc", {"n_ref": 0, "eta": 0.6})]
    out += [(n, {"n_ref": 0}) for n in HIERARCHIES if "fitted" not in n and "3d" not in n]
    out += [("get_mesh_hierarchy", {"n_ref": 4, "init_h_scale": 5.0}), ("get_mesh_data_all_around", {"n_ref": 4, "init_h_scale": 5.0}),
            ("get_mesh_hierarchy_nonconvex", {"n_ref": 4, "init_h_scale": 5.0}),
            ("get_mesh_hierarchy_fitted_disc", {"n_ref": 4, "eta": 0.6, "h_init": 5.0})]
    out += [("get_3d_mesh_data_all_around", kw) for kw in
            ({"n_ref": 2, "init_h_scale": 5.0}, {"n_ref": 0, "init_h_scale": 2.0}, {"n_ref": 0, "init_h_scale": 1.0})]
    if thorough:
        out += [("get_3d_mesh_data_all_around", {"n_ref": 1, "init_h_scale": 2.0}), ("get_3d_mesh_data_all_around", {"n_ref": 1, "init_h_scale": 5.0}),
                ("get_3d_mesh_data_all_around", {"n_ref": 0})]
    return out


def check_P21(ck):
    from concurrent.futures import ThreadPoolExecutor

    r = ck.tlc("MCMesh", out="mesh-model.json", workers="1", timeout=800)
    ck.cov["faulty meshes the specification rejects"] = r.data["rejected"]
    cs = calls(ck.thorough)
    groups = {}
    for c in cs:
        groups.setdefault(c[0] if "3d" not in c[0] else c[0] + str(c[1]["n_ref"]), []).append(c)
    jobs = [("c_meshes:job_meshes", {"calls": g}, {}) for g in groups.values()]
    # hierarchies with the other supported version of dolfinx
    other = [(n, {"n_ref": 1 if "3d" in n else 3, "init_h_scale": 5.0}) for n in
             ("get_mesh_hierarchy", "get_mesh_hierarchy_nonconvex", "get_mesh_data_all_around", "get_3d_mesh_data_all_around")]
    other += [("get_mesh_hierarchy_fitted_disc", {"n_ref": 3, "eta": 0.6, "h_init": 5.0})]
    res = ck.run_many(jobs) + [ck.run("c_meshes:job_meshes", {"calls": other}, dolfinx="07")]

    def judge(x):
        return ck.trace_check("MeshTrace", x[1]["log"], name=f"mesh{x[0]}").data

    logs = []
    for i, x in enumerate(res):
        d = ck.answer(x, "mesh generation")
        if d:
            logs.append((i, d))
    with ThreadPoolExecutor(6) as ex:
        verdicts = list(ex.map(judge, logs))
    n = 0
    for (_, d), v in zip(logs, verdicts):
        n += sum(e["ev"] == "mesh" for e in d["log"])
        ck.evals += len(d["log"])
        for b in v["bad"]:
            e = d["log"][b["at"] - 1]
            ck.violation(b["what"], {"call": e["id"], "why": e.get("why")})
        if not v["bad"] and not v["accepted"]:
            ck.violation("the meshes were not judged", v)
    ck.cov["meshes validated"] = n
    ck.sample({"calls": cs[:5]})
    ck.assumptions += ["gmsh triangulates the geometry it is given", "the stand-in's refine divides cells as dolfinx does (Plaza)"]


# ---- P22 ---------------------------------------------------------------------
KINDS = {"exchange": ["create_initial_mesh_convex", "get_mesh_convex", "get_mesh_hierarchy", "get_mesh_hierarchy_nonconvex",
                      "get_mesh_hierarchy_fitted_disc", "get_mesh_data_all_around"],
         "direct": ["get_mesh_inclusion", "get_mesh_inclusion_square", "get_mesh_bottom_data"],
         "volume": ["get_3d_mesh_data_all_around"]}


class Events:
    """Records what happens at the interfaces of gmsh and dolfinx.io, and to the files."""

    def __init__(self):
        import dolfinx.io
        import dolfinx.mesh
        import gmsh

        self.log, self.depth, rec = [], 0, self

        def wrap(mod, name, event):
            f = getattr(mod, name)

            def g(*a, **k):
                if not rec.depth:
                    rec.log.append(event(*a, **k))
                rec.depth += 1
                try:
                    return f(*a, **k)
                finally:
                    rec.depth -= 1

            setattr(mod, name, g)

        def base(x):
            return os.path.basename(str(x))

        wrap(gmsh, "initialize", lambda *a, **k: {"do": "init"})
        wrap(gmsh, "finalize", lambda *a, **k: {"do": "finalize"})
        wrap(gmsh, "write", lambda f: {"do": "put", "f": base(f)})
        wrap(gmsh.model.mesh, "generate", lambda *a, **k: {"do": "use"})
        for name in ("open", "merge"):
            wrap(gmsh, name, lambda f, *a, **k: {"do": "get", "f": base(f)})
        here = os.path.realpath(os.getcwd())

        def heard(event, args):
            """Files of the working directory opened from Python, whichever function opens them."""
            if rec.depth or event not in ("open", "os.rename"):
                return
            if event == "os.rename":
                path, do = args[1], "put"
            else:
                path, mode, flags = args
                write = any(c in mode for c in "wax+") if isinstance(mode, str) else bool((flags or 0) & (os.O_WRONLY | os.O_RDWR))
                do = "put" if write else "get"
            if isinstance(path, (str, bytes, os.PathLike)):
                path = os.path.realpath(os.fsdecode(path))
                if os.path.dirname(path) == here and path.endswith((".msh", ".xdmf", ".vtk", ".vtu")):
                    e = {"do": do, "f": base(path)}
                    if not rec.log or rec.log[-1] != e:
                        rec.log.append(e)

        sys.addaudithook(heard)
        wrap(dolfinx.mesh, "create_mesh", lambda *a, **k: {"do": "create"})
        wrap(dolfinx.io.gmshio, "model_to_mesh", lambda *a, **k: {"do": "create"})
        Real = dolfinx.io.XDMFFile  # noqa: N806

        class File(Real):
            def _event(self, do):
                if not rec.depth:
                    rec.log.append({"do": do, "f": base(self._rec_name)})

            def __init__(self, comm, filename, file_mode="w", *a, **k):
                self._rec_name, self._rec_open = filename, True
                self._event("open" if file_mode == "r" else "openw")
                rec.depth += 1
                try:
                    super().__init__(comm, filename, file_mode, *a, **k)
                finally:
                    rec.depth -= 1

            def close(self):
                if self._rec_open:
                    self._rec_open = False
                    self._event("close")
                rec.depth += 1
                try:
                    super().close()
                finally:
                    rec.depth -= 1

        for name in ("read_mesh", "read_meshtags", "write_mesh", "write_meshtags", "write_function"):
            def method(self, *a, _n=name, **k):
                self._event("read" if _n.startswith("read") else "change")
                rec.depth += 1
                try:
                    return getattr(Real, _n)(self, *a, **k)
                finally:
                    rec.depth -= 1

            setattr(File, name, method)
        dolfinx.io.XDMFFile = File


class OtherRank:
    """The world communicator as another process sees it."""

    def __init__(self, comm, rank, size):
        self._comm, self.rank, self.size = comm, rank, size

    def Get_rank(self):  # noqa: N802
        return self.rank

    def Get_size(self):  # noqa: N802
        return self.size

    def __getattr__(self, name):
        return getattr(self._comm, name)


def digest(got):
    import hashlib

    h = hashlib.sha256()
    for m in got if isinstance(got, list) else [got]:
        h.update(np.ascontiguousarray(m.points).tobytes() + np.ascontiguousarray(m.all_cells).tobytes() + b"|")
    return h.hexdigest()


def job_history(args):
    ev = Events()
    import gmsh
    from mpi4py import MPI

    real, size = MPI.COMM_WORLD, args.get("size", 2)
    out, digests = [[] for _ in range(size)], []
    for n, (name, kw) in enumerate(args["calls"], 1):
        for p in range(size):
            before = bool(gmsh.isInitialized())
            ev.log = out[p]
            ev.log.append({"do": "call", "n": n})
            MPI.COMM_WORLD = OtherRank(real, p, size) if p else real
            try:
                got = call(name, kw)
            except BaseException as e:  # noqa: BLE001
                ev.log.append({"do": "failed", "why": f"{type(e).__name__}: {e}", "n": n})
                digests += [None] if p == 0 else []
            else:
                if p == 0:
                    digests.append(digest(got))
                ev.log.append({"do": "return", "n": n})
            finally:
                MPI.COMM_WORLD = real
                ev.log = []
            if gmsh.isInitialized():
                if opened(out[p]) == 0 and not before:  # although everything recorded says otherwise
                    out[p].append({"do": "failed", "why": "gmsh is left initialised", "n": n})
                if p or args.get("alone"):
                    gmsh.finalize()
    return {"programs": out, "digests": digests}


def opened(log):
    return sum(e["do"] == "init" for e in log) - sum(e["do"] == "finalize" for e in log)


def arguments(name, i):
    if name == "get_mesh_convex":
        return {"n_ref": 2, "init_h_scale": (5.0, 3.0)[i % 2]}
    if name == "get_mesh_hierarchy_fitted_disc":
        return {"n_ref": 1, "eta": (0.6, 0.8)[i % 2], "h_init": (5.0, 3.0)[i % 2]}
    if name == "get_mesh_inclusion":
        return {"h_init": (2.0, 3.0)[i % 2], "order": 2 - i % 2}
    if name == "get_mesh_inclusion_square":
        return {"h_init": 5.0, "eta": (0.6, 1.5)[i % 2]}
    if name == "get_mesh_bottom_data":
        return {"h_init": (5.0, 3.0)[i % 2], "eta": (0.6, 0.5)[i % 2]}
    h = {"init_h_scale": (5.0, 3.0)[i % 2]}
    return h if name == "create_initial_mesh_convex" else {"n_ref": 0 if "3d" in name else 1, **h}


def walks(pairs, rng, parts):
    """Sequences of calls in which every ordered pair of neighbours in `pairs` occurs."""
    left = set(pairs)
    out = []
    size = -(-len(left) // parts)
    while left:
        at = sorted(left)[rng.integers(len(left))][0]
        walk = [at]
        while left and len(walk) <= size:
            nxt = sorted(b for a, b in left if a == at)
            if not nxt:
                break
            at2 = nxt[rng.integers(len(nxt))]
            left.discard((at, at2))
            at = at2
            walk.append(at)
        out.append(walk)
    return out


def check_P22(ck):
    from concurrent.futures import ThreadPoolExecutor

    r = ck.tlc("MCSession", out="histories.json", workers="1", consts={"MaxCalls": "3" if ck.thorough else "2", "Size": "2"}, timeout=800)
    ck.tlc("MCSession", out="histories3.json", workers="1", consts={"MaxCalls": "1", "Size": "4" if ck.thorough else "3"}, timeout=800)
    rng = np.random.default_rng(ck.seed)
    variants = (0, 1)
    names = {k: [(n, i) for n in v for i in variants] for k, v in KINDS.items()}
    pairs = {(a, b) for h in r.data if len(h) == 2 for a in names[h[0]] for b in names[h[1]]}
    if not ck.thorough:
        # every pair of generators, and every call after itself with the same and with other arguments
        pairs = {(a, b) for a, b in pairs if a[0] == b[0] or a[1] == (len(a[0]) + len(b[0])) % 2 and b[1] == len(b[0]) % 2}
    seqs = walks(pairs, rng, 7)
    if ck.thorough:
        flat = [x for v in names.values() for x in v]
        for h in r.data:
            if len(h) == 3:
                seqs.append([names[k][rng.integers(len(names[k]))] for k in h])
        seqs += [[flat[rng.integers(len(flat))] for _ in range(12)] for _ in range(10)]
    singles = sorted({x for s in seqs for x in s})
    ref = {}
    res = ck.run_many([("c_meshes:job_history", {"calls": [(n, arguments(n, i))], "alone": True}, {}) for n, i in singles])
    logs = []
    for x, got in zip(singles, res):
        d = ck.answer(got, f"{x[0]} in a process of its own")
        if d:
            ref[x] = d["digests"][0]
            logs.append(([x], d))
    res = ck.run_many([("c_meshes:job_history", {"calls": [(n, arguments(n, i)) for n, i in s]}, {}) for s in seqs])
    for s, got in zip(seqs, res):
        d = ck.answer(got, f"calls {s}")
        if d:
            logs.append((s, d))
    # more processes
    sizes = [(x, m) for x in singles if x[1] == 0 for m in ((3, 4, 5) if ck.thorough else (3 + len(x[0]) % 2,))]
    res = ck.run_many([("c_meshes:job_history", {"calls": [(n, arguments(n, i))], "alone": True, "size": m}, {}) for (n, i), m in sizes])
    for (x, m), got in zip(sizes, res):
        d = ck.answer(got, f"{x[0]} on {m} processes")
        if d:
            logs.append(([x], d))
    n, progs = 0, []
    for s, d in logs:
        prog = [[] for _ in d["programs"]]
        for p in range(len(prog)):
            for e in d["programs"][p]:
                prog[p].append({k: v for k, v in e.items() if k != "why"})
                if p == 0 and e["do"] == "return":
                    prog[p].append({"do": "result", "n": e["n"], "same": d["digests"][e["n"] - 1] == ref.get(s[e["n"] - 1])})
        n += len(s)
        ck.evals += sum(map(len, prog))
        progs.append(prog)
    with ThreadPoolExecutor(6) as ex:
        verdicts = list(ex.map(lambda x: ck.trace_check("SessionTrace", x[1], name=f"session{x[0]}").data, enumerate(progs)))
    for (s, d), v in zip(logs, verdicts):
        if not v["accepted"]:
            why = [e for p in d["programs"] for e in p if e["do"] == "failed"][:2]
            ck.violation(v["bad"], {"calls": [(a, arguments(a, i)) for a, i in s], "at": v.get("at"), "why": why})
    ck.cov["generator calls recorded on each of several processes"] = n
    ck.cov["ordered pairs of calls"] = len(pairs)
    ck.sample({"history": seqs[0]})
    ck.assumptions += ["the other processes are this one with another rank: their steps are recorded on their own and interleaved by TLC",
                       "opening, reading and closing an XDMF file are done by all processes together"]
