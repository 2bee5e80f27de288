"""P18 (measured errors) and P23 (plots and output) against spec/MCErrors.tla and spec/MCPlots.tla."""
from __future__ import annotations

import contextlib
import io
import json
import os
from fractions import Fraction

import numpy as np

KEYS = ("L2-u1-T", "L-infty-L2-error-u", "L-infty-L2-error-ut", "L2-L2-error-u_t")
WINDOW = 50  # the resolution of sampling that is taken for granted: some sample in every part of T / WINDOW
# everything is proportional to the exact solution and the vector
SIZES = (1.0, 2.0**-40, 1.0, 2.0**20, 2.0**-90)
TOL = 1e-5  # the rule in time has points with seven digits


def poly(c):
    return np.polynomial.Polynomial([float(Fraction(v[0], v[1])) for v in c] or [0.0])


def g(x):
    """Norm one in L2 on the unit interval, square and cube."""
    return 2.0 - 3.0 * x[0]


def reference(rec, total):
    """Norms and admissible ranges of the sampled ones, from the error polynomials of the specification."""
    N = rec["N"]  # noqa: N806
    dt = total / N
    errs = [poly(c) for c in rec["err"]]
    ders = [p.deriv() / dt for p in errs]
    s = np.linspace(0.0, 1.0, 2001)

    def rng(ps):
        sup = max(np.abs(p(s)).max() for p in ps)
        low = max(abs(ps[0](0.0)), abs(ps[-1](1.0)))
        # t on a fine grid, both one-sided values at the ends of slabs
        t = np.concatenate([(n + s) * dt for n in range(N)])
        v = np.concatenate([np.abs(p(s)) for p in ps])
        for w in range(WINDOW):
            a, b = w * total / WINDOW, (w + 1) * total / WINDOW
            inside = (t >= a - 1e-12) & (t <= b + 1e-12)
            if inside.any():
                low = max(low, v[inside].min())
        return float(low), float(sup)

    sq = sum(((p * p).integ()(1.0) - (p * p).integ()(0.0)) * dt for p in ders)
    return {"end": abs(float(Fraction(*rec["end"]))), "u": rng(errs), "ut": rng(ders), "l2": float(np.sqrt(max(sq, 0.0)))}


def spread(make, u, world):
    """The errors as reported by every process of a world, each with its part of all integrals."""
    import threading

    import dolfinx.fem as fem

    from harness.worlds import Process, World

    w, here, whole = World(world["size"]), threading.local(), fem.assemble_scalar

    def part(*a, **k):
        here.n += 1
        return whole(*a, **k) * (world["split"][(here.n - 1) % len(world["split"])][here.p] / 4)

    def program(p, st):
        def go():
            here.n, here.p = 0, p
            return st.measured_errors(u)

        return go

    sts = []
    for p in range(w.size):
        st = make()
        st.msh.comm = Process(w, p, st.msh.comm)
        sts.append(st)
    fem.assemble_scalar = part
    try:
        return w.run([program(p, st) for p, st in enumerate(sts)])
    finally:
        fem.assemble_scalar = whole


def job_errors(args):
    from harness import problem as P

    with open(args["tables"]) as f:
        recs = json.load(f)
    from dxss.space_time import ValueAndDerivative

    out, n = [], 0
    rng = np.random.default_rng(args["seed"])
    msh = P.mesh(args["mesh"])
    for i in args["indices"]:
        rec = recs[i]
        q, N, m = rec["q"], rec["N"], rec["m"]  # noqa: N806
        case = {**args["case"], "q": q, "N": N, "setup": rec["setup"]}
        f = SIZES[i % len(SIZES)]
        sol = ValueAndDerivative(lambda t, x, m=m, f=f: f * t**m * g(x), lambda t, x, m=m, f=f: f * (m * t ** (m - 1) if m else 0.0) * g(x))


        def make(msh=msh, case=case, sol=sol):
            st = P.make(case, msh, "left", solution=sol, setup=not args["unprepared"])
            if args["unprepared"]:
                st.setup_spacetime_finite_elements()
            return st

        st = make()
        lay = P.layout(st.fes, case, N)
        sp = st.fes.sub(0).sub(0).collapse()[0]
        gx = f * g(sp.tabulate_dof_coordinates()[P.order_of(sp)].T)
        a = 50.0 * f * rng.standard_normal(sum(len(d) for d in lay.values()))
        for s in range(N):
            for t in range(q + 1):
                a[lay[1, s, t]] = float(Fraction(*rec["nodes"][s][t])) * gx
        u = P.vec(len(a), a)
        with contextlib.redirect_stdout(io.StringIO()):
            e = st.measured_errors(u, verbose=bool(i % 2))
            again = st.measured_errors(u) if i % 3 == 0 else e
        n += 1
        what = {"q": q, "N": N, "exact": f"t^{m}", "defect": rec["defect"], "size": f}
        if not np.array_equal(u.array, a):
            out.append({**what, "what": "the vector was modified"})
        ref = reference(rec, P.total(case))
        bad = []
        if any(k not in e for k in KEYS):
            out.append({**what, "what": "norms missing", "reported": sorted(e)})
            continue
        if any(e[k] != again[k] for k in KEYS):
            bad.append("not repeatable")
        if args["worlds"] and i % args["every"] == 0:
            world = args["worlds"][i // args["every"] % len(args["worlds"])]
            with contextlib.redirect_stdout(io.StringIO()):
                got = spread(lambda: make(P.mesh(args["mesh"])), u, world)
            n += len(got)
            for p, d in enumerate(got):
                if isinstance(d, BaseException):
                    bad.append(["on several processes", world, p, f"{type(d).__name__}: {d}"])
                elif any(k not in d or not abs(d[k] - e[k]) <= 1e-9 * max(abs(v) for v in e.values()) for k in KEYS):
                    bad.append(["on several processes", world, p, {k: d.get(k) for k in KEYS}, e])
        scale = max(1.0, ref["ut"][1])
        e = {k: v / f for k, v in e.items()}
        if not abs(e[KEYS[0]] - ref["end"]) <= 1e-9 * scale:
            bad.append(["final-time norm", e[KEYS[0]], ref["end"]])
        for k, (lo, hi) in ((KEYS[1], ref["u"]), (KEYS[2], ref["ut"])):
            if not lo - 1e-9 * scale - 1e-6 * lo <= e[k] <= hi + 1e-9 * scale + 1e-6 * hi:
                bad.append([k, e[k], "not between", lo, hi])
        if not abs(e[KEYS[3]] - ref["l2"]) <= 1e-9 * scale + TOL * ref["l2"]:
            bad.append([KEYS[3], e[KEYS[3]], ref["l2"]])
        if bad:
            out.append({**what, "wrong": bad})
    return {"bad": out[:20], "n": n}


def check_P18(ck):
    from harness.c_forms import INTERLEAVE, SCRAMBLE, report

    consts = {"Ns": "{1, 2, 3, 4, 5, 6, 13, 14}", "MaxPower": "3", "Defects": '{"none", "node", "rough"}'}
    r = ck.tlc("MCErrors", out="errors.json", workers="1", consts=consts if ck.thorough else None, timeout=800)
    more = ck.tlc("MCErrors", out="more.json", workers="1",
                  consts={"Ns": "{6, 13, 14}", "Qs": "{1, 2}", "MaxPower": "1", "Defects": '{"none", "rough"}'}) if not ck.thorough else None
    # steps that do not add up to the total time in floating point
    many = ck.tlc("MCErrors", out="many.json", workers="1", consts={"Ns": "{11}", "Qs": "{1}", "MaxPower": "1", "SetupIds": "{2}"})
    recs = r.data + (more.data if more else []) + many.data
    ck.rng = np.random.default_rng(ck.seed)
    if ck.thorough:
        pick = [i for i, x in enumerate(recs) if x["N"] <= 4 or x["defect"][0] != "node" or
                x["defect"][1] in (0, x["N"] - 1) and x["m"] == 1]
    else:
        # every kind of defect in every place once, with some power
        seen, pick = set(), []
        for i in ck.rng.permutation(len(recs)):
            x = recs[i]
            key = (x["q"], x["N"], tuple(x["defect"])) if x["N"] <= 3 or x["defect"][0] != "node" else None
            if key and key not in seen:
                seen.add(key)
                pick.append(int(i))
        # exact solutions in all powers
        pick += [i for i, x in enumerate(recs) if x["defect"][0] == "none" and x["N"] in (2, 3) and i not in pick]
    path = ck.scratch + "/recs.json"
    with open(path, "w") as f:
        json.dump(recs, f)
    # on several processes
    w = ck.tlc("MCWorld", out="world.json", workers="1", consts={"Sizes": "{1, 2, 3}"} if ck.thorough else None)
    worlds = [w.data[int(i)] for i in ck.rng.permutation(len(w.data))]
    ck.cov["ways to spread the integrals over processes"] = len(worlds)
    jobs, cases, envs = [], [], [{}, SCRAMBLE, INTERLEAVE]
    pars = 14
    for j in range(pars):
        case = {"qs": j % 3, "k": 1 + j % 2, "ks": 1 + (j // 2) % 2, "jumps": False, "wp": j % 4 == 3}
        a = {"tables": path, "indices": pick[j::pars], "mesh": ["line3", "line", "squarecoarse", "line3", "line3"][j % 5], "case": case,
             "unprepared": j % 2 == 0, "worlds": worlds[j::pars][:200], "every": 12 if ck.thorough else 5}
        jobs.append(("c_errors:job_errors", a, envs[j % 3]))
        cases.append({**case, "mesh": a["mesh"], "records": len(a["indices"])})
    report(ck, cases, ck.run_many(jobs, timeout=850), "measured errors")
    ck.cov["records of the specification compared"] = len(pick)
    ck.sample({k: recs[-1][k] for k in ("q", "N", "m", "defect", "end")})


# ---- P23 ----------------------------------------------------------------------
class Canvas:
    """Records what is drawn and lets everything else happen off screen."""

    shown = 0

    def __enter__(self):
        import matplotlib.axes
        import matplotlib.pyplot as plt

        self.cls, self.plt, self.drawn = matplotlib.axes.Axes, plt, []
        self.orig, self.show = self.cls.pcolormesh, plt.show
        canvas = self

        def pcolormesh(ax, *a, **k):
            if ax.get_label() != "<colorbar>":
                canvas.drawn.append([np.array(v, dtype=float) for v in a])
            return canvas.orig(ax, *a, **k)

        self.cls.pcolormesh = pcolormesh

        def show(*a, **k):
            Canvas.shown += 1
            if Canvas.shown % 16 == 1:
                plt.gcf().canvas.draw()
            plt.close("all")

        plt.show = show
        return self

    def __exit__(self, *exc):
        self.cls.pcolormesh, self.plt.show = self.orig, self.show
        self.plt.close("all")


def fr(v):
    return float(Fraction(*v))


def off(got, want, size=1.0):
    return not (got.shape == want.shape and np.all(np.isfinite(got)) and
                np.abs(got - want).max() <= 1e-9 * max(size, np.abs(want).max()))


def picture(drawn, i, x, t, want, what, size=1.0):
    if len(drawn) <= i:
        return [[what, "not drawn"]]
    d = drawn[i]
    if len(d) != 3:
        return [[what, "drawn without its axes"]]
    bad = []
    if off(d[0], x):
        bad.append([what, "points in space"])
    if off(d[1], t):
        bad.append([what, "points in time", d[1][:6].tolist(), t[:6].tolist()])
    if off(d[2], want, size):
        j = np.unravel_index(np.argmax(np.abs(d[2] - want)), want.shape) if d[2].shape == want.shape else None
        bad.append([what, "shape" if j is None else [[int(v) for v in j], float(d[2][j]), "specified", float(want[j])]])
    return bad


def state(st, P):  # noqa: N803
    """What the solver would compute next."""
    from dolfinx.fem.petsc import assemble_matrix

    form = assemble_matrix(st.get_spacetime_bfi())
    form.assemble()
    return [P.dense(form), P.dense(st.get_slab_matrix()), st.get_spacetime_rhs().array.copy()]


def job_plots(args):
    import os

    import dolfinx.io as dio
    from dxh import evaluate_function_at_points
    from dolfinx import fem

    from dxss.space_time import ValueAndDerivative
    from harness import problem as P

    with open(args["tables"]) as f:
        recs = json.load(f)
    os.chdir(args["dir"])
    out, n, plotted = [], 0, 0
    rng = np.random.default_rng(args["seed"])
    msh = P.mesh(args["mesh"])
    for i in args["indices"]:
        rec = recs[i]
        q, N, m, sub = rec["q"], rec["N"], rec["m"], rec["sub"]  # noqa: N806
        case = {**args["case"], "q": q, "N": N, "setup": rec["setup"]}
        f = SIZES[i % len(SIZES)]
        sol = ValueAndDerivative(lambda t, x, m=m, f=f: f * t**m * g(x), lambda t, x, m=m, f=f: f * (m * t ** (m - 1) if m else 0.0) * g(x))
        st = P.make(case, msh, "left", solution=sol)
        if case["wp"]:
            st.u1_0.x.array[:] = rng.standard_normal(len(st.u1_0.x.array))
            st.u2_0.x.array[:] = rng.standard_normal(len(st.u2_0.x.array))
        lay = P.layout(st.fes, case, N)
        sp = st.fes.sub(0).sub(0).collapse()[0]
        order = P.order_of(sp)
        gx = f * g(sp.tabulate_dof_coordinates()[order].T)
        rough = f * rng.standard_normal(len(gx))
        what = {"q": q, "N": N, "exact": f"t^{m}", "rough": rec["rough"], "rows per slab": sub, "size": f}
        a = 50.0 * f * rng.standard_normal(sum(len(d) for d in lay.values()))

        def fill(shape, a=a, lay=lay, rec=rec, N=N, q=q):  # noqa: N803
            for s in range(N):
                for t in range(q + 1):
                    a[lay[1, s, t]] = fr(rec["nodes"][s][t]) * shape
                    a[lay[2, s, t]] = fr(rec["velocity"][s][t]) * shape
            return P.vec(len(a), a)

        before = state(st, P) if i % 2 else None
        bad = []
        nsp = (1, 2, 7, 12)[i % 4]
        x = np.linspace(0.0, 1.0, nsp)
        t = np.array([fr(r["t"]) for r in rec["rows"]])
        rows = {k: np.array([fr(r[k]) for r in rec["rows"]]) for k in ("v", "dv", "err", "derr")}
        silent = io.StringIO()
        flat = msh.tdim == 1
        if flat and nsp > 1 and len(t) > 1:
            for absolute, shape in ((False, rough), (True, rough), (False, gx)):
                u = fill(shape)
                fn = fem.Function(sp)
                fn.x.array[order] = shape
                sx = np.asarray(evaluate_function_at_points(fn, np.array([(p, 0, 0) for p in x]))).ravel()
                with Canvas() as cv, contextlib.redirect_stdout(silent):
                    st.plot(u, n_space=nsp, n_time_subdiv=sub, **({"abs_val": True} if absolute else {}))
                tr = np.abs if absolute else (lambda v: v)
                bad += picture(cv.drawn, 0, x, t, tr(np.outer(rows["v"], sx)), "plot, values", f)
                bad += picture(cv.drawn, 1, x, t, tr(np.outer(rows["dv"], sx)), "plot, derivatives in time", f)
                if len(cv.drawn) > 2:
                    bad.append(["plot", "more than two pictures"])
                if not np.array_equal(u.array, a):
                    bad.append(["plot", "the vector was modified"])
            u = fill(gx)
            with Canvas() as cv, contextlib.redirect_stdout(silent):
                st.plot_error(u, n_space=nsp, n_time_subdiv=sub)
            bad += picture(cv.drawn, 0, x, t, np.outer(rows["dv"], f * g([x])), "plot_error, derivatives in time", f)
            bad += picture(cv.drawn, 1, x, t, np.abs(np.outer(rows["err"], f * g([x]))), "plot_error, errors", f)
            bad += picture(cv.drawn, 2, x, t, np.abs(np.outer(rows["derr"], f * g([x]))), "plot_error, errors of the derivative", f)
            if not np.array_equal(u.array, a):
                bad.append(["plot_error", "the vector was modified"])
            n += 4
        if i % 8 == 0 and flat:  # as called by the drivers
            u = fill(gx)
            with Canvas() as cv, contextlib.redirect_stdout(silent):
                st.plot_error(u)
            d = cv.drawn
            if len(d) != 3 or any(len(p) != 3 or p[2].shape != (10 * N, 100) for p in d):
                bad.append(["plot_error", "default numbers of points"])
            else:
                for k, key in ((1, "err"), (2, "derr")):
                    # the rows at the starts of slabs are in both tables
                    w = np.abs(np.outer(rows[key][::sub], f * g([np.linspace(0, 1, 100)])))
                    if off(d[k][2][::10], w, f):
                        bad.append(["plot_error with default numbers of points", key])
            n += 1
        if m and sub == 1:
            u = fill(gx)
            del dio.WRITTEN[:]
            name = [None, f"out{i}", f"error-h0.5-q1.{i}", f"an error {i}", os.path.join(os.getcwd(), f"in.here-{i}-u"), f"abserr-cube-GCC-order{i}"][plotted % 6]
            plotted += 1
            with contextlib.redirect_stdout(silent):
                st.plot_para_view(u, **({"name": name} if name else {}))
            got = {(w[0], w[2].name): w for w in dio.WRITTEN if w[1] == "function"}
            for c, (suffix, label) in enumerate((("-u.xdmf", "u-abserr"), ("-ut.xdmf", "ut-abserr"))):
                key = ((name or "abserr") + suffix, label)
                if key not in got:
                    bad.append(["plot_para_view", "not written", list(key), [list(k) for k in got]])
                    continue
                w = got[key]
                v = w[2].function_space
                want = np.zeros(len(gx))
                want[P.order_of(v)] = np.abs(fr(rec["end"][c]) * f * g(v.tabulate_dof_coordinates()[P.order_of(v)].T))
                if off(np.asarray(w[4], dtype=float), want, f):
                    bad.append(["plot_para_view", label, "size", float(np.abs(w[4]).max()), "specified", float(np.abs(want).max())])
                files = [e for e in dio.WRITTEN if e[0] == key[0]]
                if files[0][1] != "mesh" or files[0][2] is not msh:
                    bad.append(["plot_para_view", "field written without its mesh"])
            if not np.array_equal(u.array, a):
                bad.append(["plot_para_view", "the vector was modified"])
            n += 1
        if before is not None:
            after = state(st, P)
            for k, b, c in zip(("space-time matrix", "slab matrix", "right-hand side"), before, after):
                if off(c, b, np.abs(b).max() + 1e-300):
                    bad.append(["state changed by output", k])
            n += 1
        if bad:
            out.append({**what, "what": "plots", "wrong": bad[:6]})
    return {"bad": out[:20], "n": n}


def check_P23(ck):
    from harness.c_forms import INTERLEAVE, SCRAMBLE, report

    consts = {"Ns": "{1, 2, 3, 4, 5, 6}", "MaxPower": "3", "Subs": "{1, 2, 3, 4, 5, 7}"}
    r = ck.tlc("MCPlots", out="plots.json", workers="1", consts=consts if ck.thorough else None, timeout=800)
    few = ck.tlc("MCPlots", out="fine.json", workers="1", consts={"Ns": "{1, 2}", "Qs": "{1, 2}", "MaxPower": "1", "Subs": "{23, 60, 101}"})
    # steps that do not add up to the total time in floating point
    many = ck.tlc("MCPlots", out="many.json", workers="1", consts={"Ns": "{11}", "Qs": "{1}", "MaxPower": "1", "Subs": "{2, 3}", "SetupIds": "{2}"})
    recs = r.data + few.data + many.data
    rng = np.random.default_rng(ck.seed)
    pick = [int(i) for i in rng.permutation(len(recs))]
    if not ck.thorough:
        # of every degree and number of slabs and kind of values some, with one and with more rows per slab
        seen, few = {}, []
        for i in pick:
            x = recs[i]
            key = (x["q"], x["N"], x["rough"], x["sub"] == 1) if x["sub"] < 20 else (x["sub"], x["rough"])
            if seen.setdefault(key, 0) < 2:
                seen[key] += 1
                few.append(i)
        pick = few
    path = ck.scratch + "/recs.json"
    with open(path, "w") as f:
        json.dump(recs, f)
    jobs, cases, envs = [], [], [{}, SCRAMBLE, INTERLEAVE]
    pars = 16
    for j in range(pars):
        case = {"qs": j % 3, "k": 1 + j % 2, "ks": 1 + (j // 2) % 2, "jumps": False, "wp": j % 2 == 1}
        a = {"tables": path, "indices": pick[j::pars], "mesh": ["line3", "line", "square", "line8", "line3"][j % 5], "case": case}
        jobs.append(("c_errors:job_plots", a, envs[j % 3]))
        cases.append({**case, "mesh": a["mesh"], "records": len(a["indices"])})
    report(ck, cases, ck.run_many(jobs, timeout=850), "plots and output")
    ck.cov["records of the specification compared"] = len(pick)
    ck.sample({k: recs[-1][k] for k in ("q", "N", "m", "rough", "sub", "end")})
