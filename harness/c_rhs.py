"""P14-P16: right-hand sides and data domains against spec/MCRhs.tla and spec/Forms.tla."""
from __future__ import annotations

import json
import os
from fractions import Fraction

import numpy as np

from harness.common import SETUPS

# data in space: name -> function of coordinates (UFL or numpy), degree
SPACE = {"one": (lambda x: 1.0 + 0 * x[0], 0), "lin": (lambda x: 2.0 - 3.0 * x[0], 1), "quad": (lambda x: x[0] * x[0] - 0.3 * x[0] + 1.0, 2)}
# the rule in time has points with seven digits
TOL = 2e-6


# ---- in the worker ----------------------------------------------------------
def loads(P, space, ind, msh, g):  # noqa: N803
    """(ind g, v) for the nodal basis of a scalar space, ordered by position."""
    import ufl
    from dolfinx import fem
    from dolfinx.fem.petsc import assemble_vector

    v = ufl.TestFunction(space)
    dx = ufl.Measure("dx", domain=msh, metadata={"quadrature_degree": 9})
    b = assemble_vector(fem.form(ind * SPACE[g][0](ufl.SpatialCoordinate(msh)) * v * dx))
    return b.array.copy()[P.order_of(space)]


def domain(P, msh, name):  # noqa: N803
    """What the caller passes for a data domain, and what it means on a mesh."""
    import ufl
    from dolfinx import fem

    from dxss.space_time import DataDomain

    kind, _, base = name.rpartition(":")
    if kind == "":
        return DataDomain(indicator_function=P.INDICATORS[base]), lambda m: P.ref_indicator(m, base)
    if kind == "fun":
        f = P.ref_indicator(msh, base)
        return DataDomain(indicator_function=f, fitted=False), lambda m: f if m is msh else P.ref_indicator(m, base)
    if kind == "expr":
        e = {"left": lambda x: ufl.conditional(ufl.le(x[0], 0.37), 1, 0),
             "outer": lambda x: ufl.conditional(ufl.Or(ufl.le(x[0], 0.37), ufl.ge(x[0], 0.7)), 1, 0),
             "smooth": lambda x: 1.0 + x[0],
             "none": lambda x: ufl.conditional(ufl.le(x[0], -1.0), 1, 0)}[base]
        return (DataDomain(indicator_function=e(ufl.SpatialCoordinate(msh)), fitted=False),
                lambda m: e(ufl.SpatialCoordinate(m)))
    if kind == "cg":
        f = fem.Function(fem.FunctionSpace(msh, ("CG", 1)))
        f.interpolate(lambda x: 1.0 + x[0])
        return DataDomain(indicator_function=f, fitted=False), lambda m: 1.0 + ufl.SpatialCoordinate(m)[0]
    raise KeyError(name)


def job_rhs(args):
    """args: case, mesh, ind, loads {pow: [..]}, init_m, init_k, what."""
    from harness import problem as P

    case, out, n = args["case"], [], 0
    N, q = case["N"], case["q"]  # noqa: N806
    msh = P.mesh(args["mesh"])
    rng = np.random.default_rng(args["seed"])
    from dxss.space_time import ValueAndDerivative

    def fr(v):
        return float(Fraction(v[0], v[1]))

    lay = None
    times = []

    def rhs(v, initial=None):
        nonlocal lay, ind
        om, ref = domain(P, msh, args["ind"])
        ind = ref(msh)
        st = P.make(case, msh, omega=om, solution=ValueAndDerivative(v, lambda t, x: 0.0 * x[0]))  # noqa: ARG005
        if initial is not None:
            st.u1_0.x.array[:] = initial[0](st.fes_u1_0)
            st.u2_0.x.array[:] = initial[1](st.fes_u2_0)
        lay = lay or P.layout(st.fes, case, N)
        b = st.get_spacetime_rhs()
        return st, b.array.copy()

    ind = None

    def compare(b, want, what, tol):
        nonlocal n
        n += 1
        scale = max(np.abs(w).max() for w in want.values()) if want else 0.0
        scale = scale or fr(args["gd"]) or 1.0
        bad = []
        for blk, d in lay.items():
            w = want.get(blk)
            e = np.abs(b[d] - (w if w is not None else 0.0)).max()
            # the form carries a constant of 1e-20, so that no block is empty
            if not e <= (tol if w is not None else 1e-11) * scale + 1e-19:
                bad.append([P.NAMES[blk[0]], blk[1], blk[2], float(e / scale)])
        if bad:
            out.append({"what": what, "blocks [component, slab, node, relative error]": bad[:8]})

    space = None
    powers = sorted(map(int, args["loads"])) if "data" in args["what"] else []
    for m in powers:
        for g in (["one", "lin", "quad"] if m == 0 else ["lin"] if m < 3 else ["quad"]):
            amp = [1.0, 2.0**-30, 2.0**20][(m + len(g)) % 3]

            def v(t, x, m=m, g=g, amp=amp):
                times.append(float(t))
                return amp * t**m * SPACE[g][0](x)

            st, b = rhs(v)
            space = st.fes_u1_0
            load = loads(P, space, ind, msh, g)
            vals = [amp * fr(x) for x in args["loads"][str(m)]]
            want = {(1, s, t): vals[s * (q + 1) + t] * load for s in range(N) for t in range(q + 1)}
            compare(b, want, f"data t^{m} {g}", TOL * (1 + 2 * max(0, m - 3)))
    if times and not (min(times) >= -1e-12 and max(times) <= P.total(case) + 1e-12):
        out.append({"what": "data evaluated outside the time interval", "times": [min(times), max(times)]})
    if "local" in args["what"]:
        dt = P.total(case) / N
        for s in range(N):
            lo, hi = (s + 1e-6) * dt, (s + 1 - 1e-6) * dt
            st, b = rhs(lambda t, x, lo=lo, hi=hi: (1.0 if lo < t < hi else 0.0) * (2.0 - 3.0 * x[0]))
            n += 1
            scale = fr(args["gd"]) * dt
            bad = [[P.NAMES[blk[0]], blk[1], blk[2]] for blk, d in lay.items()
                   if (blk[0] != 1 or blk[1] != s) and np.abs(b[d]).max() > 1e-11 * scale]
            if bad:
                out.append({"what": "data of one slab enters another", "data in slab": s, "found in": bad[:6]})
            if args["ind"].rpartition(":")[2] != "none" and not any(np.abs(b[lay[1, s, t]]).max() > 1e-6 * scale for t in range(q + 1)):
                out.append({"what": "data of a slab does not enter", "slab": s})
        # linear in the data
    if "initial" in args["what"]:
        # sizes of the data and of the two initial functions
        for d, *sizes in ((1.0, 1.0, 1.0), (2.0**-30, 2.0**-28, 2.0**-32), (0.0, 2.0**-30, 0.0), (0.0, 0.0, 1.0), (1.0, 0.0, 0.0), (0.0, 2.0**20, 2.0**-10)):
            init = {}

            def pick(key, size):
                def f(space, key=key, size=size, init=init):
                    init[key] = (space, size * rng.standard_normal(space.dofmap.index_map.size_local))
                    return init[key][1]

                return f

            st, b = rhs(lambda t, x, d=d: d * (1.0 + t) * SPACE["lin"][0](x), (pick("u1", sizes[0]), pick("u2", sizes[1])))
            load = loads(P, st.fes_u1_0, ind, msh, "lin")
            v0, v1 = ([d * fr(x) for x in args["loads"][m]] for m in ("0", "1"))
            want = {(1, s, t): (v0[s * (q + 1) + t] + v1[s * (q + 1) + t]) * load for s in range(N) for t in range(q + 1)}
            op = P.ops(msh, case, "all")
            if case["wp"]:
                i1 = init["u1"][1][P.order_of(init["u1"][0])]
                i2 = init["u2"][1][P.order_of(init["u2"][0])]
                m, k = op["M", 0, 0], op["K", 0, 0]
                want[1, 0, 0] = want[1, 0, 0] + fr(args["init_m"]) * (m @ i1) + fr(args["init_k"]) * (k @ i1)
                want[2, 0, 0] = fr(args["init_m"]) * (m @ i2)
            compare(b, want, f"right-hand side with initial data set (sizes {d, *sizes})", TOL)
    if "repeat" in args["what"]:
        st, b = rhs(lambda t, x: t * SPACE["lin"][0](x))
        n += 1
        st.prepare_precondition_gmres()
        b2 = st.get_spacetime_rhs().array.copy()
        st.setup_rhs()
        b3 = st.get_spacetime_rhs().array.copy()
        from dolfinx.fem.petsc import assemble_vector

        b4 = assemble_vector(st.get_spacetime_lfi()).array.copy()
        for x, what in ((b2, "after the preparation"), (b3, "set up again"), (b4, "from its form")):
            if not np.abs(x - b).max() <= 1e-12 * max(1e-30, np.abs(b).max()):
                out.append({"what": f"right-hand side {what} differs"})
    return {"bad": out, "n": n}


def job_domain(args):
    """One description of a data domain used for two problems on different meshes, in one process."""
    from harness import problem as P

    with open(args["tables"]) as f:
        t = json.load(f)[args["index"]]
    case, out, n = args["case"], [], 0
    ma, mb = P.mesh(args["mesh"]), P.mesh(args["coarse"])
    om, ref = domain(P, ma, args["ind"])
    before = (om.indicator_function, om.fitted)
    first = None
    fitted = om.fitted
    for msh in (ma, mb, ma) if fitted else (ma, ma):
        st = P.make(case, msh, omega=om)
        st.prepare_precondition_gmres()
        ind = ref(msh)
        op = P.ops(msh, case, ind)
        lay, lay_p = P.layout(st.fes, case, case["N"]), P.layout(st.fes_p, case, 1)
        for mat, rows, where, what in ((st.get_slab_matrix(), t["jump"], lay_p, "slab matrix"),
                                       (st.get_slab_matrix_first_slab(), t["first"], lay_p, "matrix of the first slab"),
                                       (st.get_spacetime_matrix(), t["mat"], lay, "space-time matrix"),
                                       (st.get_spacetime_matrix(precond=True), t["pre"], lay, "preconditioning matrix")):
            n += 1
            r = P.compare(P.dense(mat), rows, where, op, what)
            if r:
                out.append(r)
        if msh is ma:
            st.prepare_coarse_grid_correction(mb)
            indc = ref(mb)
            n += 1
            r = P.compare(P.dense(st.get_spacetime_matrix_coarse()), t["mat"], P.layout(st.fes_coarse, case, case["N"]),
                          P.ops(mb, case, indc), "coarse space-time matrix")
            if r and not args.get("nocoarse"):
                out.append(r)
        first = first or st
        if om.indicator_function is not before[0] or om.fitted != before[1]:
            out.append({"what": "the caller's description of the data domain was modified"})
    # no data at all: no data terms
    if args["ind"].rpartition(":")[2] == "none":
        n += 1
        b = first.get_spacetime_rhs().array
        if np.abs(b).max() > 1e-14:
            out.append({"what": "right-hand side without a data domain", "largest entry": float(np.abs(b).max())})
    return {"bad": out, "n": n}


# ---- checks -------------------------------------------------------------------
def rhs_tables(ck):
    r = ck.tlc("MCRhs", out="rhs.json", workers="1", consts={"Ns": "{1, 2, 3, 4, 5}"} if ck.thorough else {"Ns": "{1, 2, 3}"})
    many = ck.tlc("MCRhs", out="many.json", workers="1", consts={"Ns": "{11}", "MaxPower": "2", "SetupIds": "{2}"})
    tab = {}
    for x in r.data + many.data:
        e = tab.setdefault((x["q"], x["N"], x["setup"]), {"loads": {}, "init_m": x["init_m"], "init_k": x["init_k"], "gd": SETUPS[x["setup"] - 1]["g"][0]})
        e["loads"][str(x["pow"])] = x["load"]
    return tab


def run_rhs(ck, cases, clause, what):
    from harness.c_forms import report

    tab = rhs_tables(ck)
    jobs = [("c_rhs:job_rhs", {"case": c, "mesh": c["mesh"], "ind": c["ind"], "what": what, **tab[c["q"], c["N"], c["setup"]]}, c["env"])
            for c in cases]
    report(ck, cases, ck.run_many(jobs), clause)
    ck.sample({"loads for q = 1, two slabs, data t^2": tab[1, 2, 1]["loads"]["2"]})


def check_P14(ck):
    from harness.c_forms import INTERLEAVE, SCRAMBLE, case

    cs = []
    inds = ["left", "expr:left", "outer", "all", "graded", "fun:outer"]
    i = 0
    for q in range(4):
        for N in ((1, 2, 3, 4, 5) if ck.thorough else (1, 2, 3)):  # noqa: N806
            for v in range(3 if ck.thorough else 1):
                i += 1
                cs.append(case(q, (q + i) % 4, N, 1 + (i + v) % 3, 1 + i % 2, mesh=["line", "line3"][i % 2] if v < 2 else "square",
                               ind=inds[(i + v) % 6] if (i % 2 == 0 or v == 2) else ["left", "all", "graded"][i % 3],
                               env=[{}, SCRAMBLE, INTERLEAVE][(i + v) % 3]))
    cs += [case(1, 1, 3, 2, mesh="square", ind="outer", env=SCRAMBLE), case(2, 1, 2, 1, mesh="cube", ind="graded"),
           case(1, 1, 2, 2, jumps=True, mesh="line"), case(1, 2, 2, 2, mesh="square", ind="graded")]
    for c in cs:
        # conditionals have to follow the cells
        if c["ind"].startswith("expr") and c["mesh"] != "line":
            c["mesh"] = "line"
    for i, c in enumerate(cs):
        c["setup"] = 1 + i % 3
    # steps that do not add up to the total time in floating point
    cs += [case(1, 1, 11, 1, mesh="line3", setup=2), case(2, 1, 11, 1, mesh="line3", ind="graded", setup=2, env=SCRAMBLE)]
    run_rhs(ck, cs, "right-hand side", ["data", "local", "repeat"])


def check_P15(ck):
    from harness import c_forms
    from harness.c_forms import SCRAMBLE, case, report, run_cases, spec_tables

    cs = []
    grid = [("line8", "line", "left"), ("line8", "line", "none"), ("line8", "line", "all"), ("line8", "line", "expr:left"),
            ("line", "line3", "graded"), ("square", "squarecoarse", "outer"), ("square", "squarecoarse", "graded"),
            ("square", "squarecoarse", "expr:smooth"), ("line8", "line", "expr:none"), ("square", "squarecoarse", "none"),
            ("line", "lineb", "left"), ("square", "squareb", "outer"), ("line", "line3", "expr:smooth"), ("line", "line3", "fun:left"), ("line", "line3", "cg:smooth")]
    for i, (m, mc, ind) in enumerate(grid):
        for v in range(3 if ck.thorough else 1):
            cs.append(case(1 + (i + v) % 2, 1 + (i // 2) % 2, [2, 1, 3][(i + v) % 3] if m != "square" else 2, 2 if m != "square" else 1 + v % 2,
                           1 + i % 2, mesh=m, coarse=mc, ind=ind, env=SCRAMBLE if i % 3 == 0 else {}))
    for i, c in enumerate(cs):
        c["setup"] = 1 + i % 3
    path, order = spec_tables(ck, cs)
    # a graded or functional indicator is a different function on the coarse mesh
    jobs = [("c_rhs:job_domain", {"case": c, "mesh": c["mesh"], "coarse": c["coarse"], "ind": c["ind"], "tables": path, "index": i,
                                  "nocoarse": c["ind"] in ("graded", "fun:left", "cg:smooth", "outer") or
                                  (c["ind"] == "left" and c["mesh"] == "square")}, c["env"]) for i, c in enumerate(cs)]
    report(ck, cs, ck.run_many(jobs), "data domain")
    rc = [case(c["q"], c["qs"], c["N"], c["k"], c["ks"], mesh=c["mesh"], ind=c["ind"], env=c["env"], setup=c["setup"]) for c in cs]
    run_rhs(ck, rc, "data domain, right-hand side", ["data"])
    ac = [case(1, 1, 2, 2, mesh="line", ind="expr:left"), case(1, 1, 2, 2, mesh="line", ind="none"), case(2, 1, 2, 1, mesh="square", ind="outer")]
    ac = [c for c in ac if ":" not in c["ind"]]
    run_cases(ck, "c_forms:job_apply", ac, "data domain, operator", {"random": 2})
    _ = c_forms, os
