"""P13: every call on a solver object hands out what was asked for, in any order of the calls."""
from __future__ import annotations

import contextlib
import io
import random

import numpy as np

PREFIX = {"first": ["prepare"], "firstform": ["prepare"], "coarse": ["preparecoarse"], "setcoarsesolver": ["preparecoarse"],
          "apply": ["prepare"], "marchref": ["setsolvers", "prepare"], "marchimp": ["prepare", "setsolvers"],
          "transfer": ["preparecoarse"], "twolevel": ["prepare", "preparecoarse", "setsolvers", "setcoarsesolver"]}


# ---- in the worker ----------------------------------------------------------
class Object:
    """One SpaceTime object and the calls that can be made on it; every call returns a list of arrays."""

    def __init__(self, ctx):
        from harness import problem as P

        self.P, self.ctx = P, ctx
        self.st = P.make(ctx["case"], ctx["msh"], "left")
        if ctx["case"]["wp"]:
            rng = np.random.default_rng(3)
            self.st.u1_0.x.array[:] = rng.standard_normal(len(self.st.u1_0.x.array))
            self.st.u2_0.x.array[:] = rng.standard_normal(len(self.st.u2_0.x.array))
        self.kept = []

    def hand(self, mat):
        d = self.P.dense(mat)
        self.kept.append((mat, d))
        return [d]

    def form(self, form):
        from dolfinx.fem.petsc import assemble_matrix

        m = assemble_matrix(form)
        m.assemble()
        return [self.P.dense(m)]

    def vec(self, name):
        return self.P.vec(len(self.ctx[name]), self.ctx[name])

    def out(self, name):
        v = self.P.vec(len(self.ctx[name]))
        v.array[:] = 3.25
        return v

    def call(self, name):
        st = self.st
        with contextlib.redirect_stdout(io.StringIO()):
            return getattr(self, "do_" + name)(st)

    def do_matrix(self, st):
        return self.hand(st.get_spacetime_matrix())

    def do_matrixpre(self, st):
        return self.hand(st.get_spacetime_matrix(precond=True))

    def do_form(self, st):
        return self.form(st.get_spacetime_bfi())

    def do_formpre(self, st):
        return self.form(st.get_spacetime_bfi(precond=True))

    def do_slab(self, st):
        return self.hand(st.get_slab_matrix())

    def do_slabform(self, st):
        return self.form(st.get_slab_bfi())

    def do_first(self, st):
        return self.hand(st.get_slab_matrix_first_slab())

    def do_firstform(self, st):
        return self.form(st.get_slab_bfi_first_slab())

    def do_rhs(self, st):
        b = st.get_spacetime_rhs()
        return [b.array.copy()]

    def do_linearform(self, st):
        from dolfinx.fem.petsc import assemble_vector

        return [assemble_vector(st.get_spacetime_lfi()).array.copy()]

    def do_setuprhs(self, st):
        st.setup_rhs()
        return []

    def do_prepare(self, st):
        st.prepare_precondition_gmres()
        return []

    def do_preparecoarse(self, st):
        st.prepare_coarse_grid_correction(self.ctx["coarse"])
        return []

    def do_coarse(self, st):
        return self.hand(st.get_spacetime_matrix_coarse())

    def do_setsolvers(self, st):
        st.set_solver_first_slab(self.ctx["first solver"])
        st.set_solver_slab(self.ctx["slab solver"])
        return []

    def do_setcoarsesolver(self, st):
        st.set_solver_coarse(self.ctx["coarse solver"])
        return []

    def do_apply(self, st):
        x, y = self.vec("v"), self.out("v")
        st.apply_spacetime_matrix(x, y)
        return [y.array_r.copy(), x.array_r.copy()]

    def do_marchref(self, st):
        x, y = self.vec("w"), self.out("w")
        st.pre_time_marching(x, y)
        return [y.array_r.copy(), x.array_r.copy()]

    def do_marchimp(self, st):
        x, y = self.vec("v"), self.out("v")
        st.pre_time_marching_improved(x, y)
        return [y.array_r.copy(), x.array_r.copy()]

    def do_transfer(self, st):
        a, b, c = self.vec("c"), self.out("v"), self.out("c")
        st.prolongation(a, b)
        st.restriction(c, b)
        return [b.array_r.copy(), c.array_r.copy()]

    def do_twolevel(self, st):
        x, y = self.vec("w"), self.out("w")
        st.pre_twolvl(x, y)
        return [y.array_r.copy(), x.array_r.copy()]

    def do_errors(self, st):
        v = self.vec("w")
        e = st.measured_errors(v)
        return [np.array([e[k] for k in sorted(e)]), v.array_r.copy()]

    def do_paraview(self, st):
        from dolfinx import io as dio

        dio.WRITTEN.clear()
        v = self.vec("w")
        st.plot_para_view(v, name="life")
        return [np.concatenate([w[4] for w in dio.WRITTEN if w[1] == "function"]), v.array_r.copy()]

    def plotted(self, f, v):
        import matplotlib.pyplot as plt

        got = []
        orig, show = plt.pcolormesh, plt.show
        plt.pcolormesh = lambda *a, **k: (got.extend(np.asarray(x, dtype=float).ravel() for x in a[:3]), orig(*a, **k))[1]
        plt.show = lambda *a, **k: plt.close("all")
        try:
            f(v, n_space=5, n_time_subdiv=2)
        finally:
            plt.pcolormesh, plt.show = orig, show
            plt.close("all")
        return [*got, v.array_r.copy()]

    def do_plot(self, st):
        return self.plotted(st.plot, self.vec("v"))

    def do_ploterror(self, st):
        return self.plotted(st.plot_error, self.vec("w"))


def job_life(args):
    from harness import problem as P
    from dxss.space_time import ValueAndDerivative

    case = args["case"]
    ctx = {"case": case, "msh": P.mesh(args["mesh"]), "coarse": P.mesh(args["coarse"])}
    rng = np.random.default_rng(args["seed"])
    _ = ValueAndDerivative
    # what every call is to hand out: from an object that was asked for nothing else
    probe = Object(ctx)
    slab = P.dense(probe.st.get_slab_matrix())
    first = P.dense(probe.st.get_slab_matrix_first_slab())
    probe.st.prepare_coarse_grid_correction(ctx["coarse"])
    coarse = P.dense(probe.st.get_spacetime_matrix_coarse())
    n, nc = probe.st.get_spacetime_rhs().getSize(), len(coarse)
    shift = lambda m: 1e-3 * np.eye(m)  # noqa: E731
    ctx.update({"v": rng.standard_normal(n), "w": rng.standard_normal(n), "c": rng.standard_normal(nc),
                "first solver": P.Exact(first + shift(len(first))), "slab solver": P.Exact(slab + shift(len(slab))),
                "coarse solver": P.Exact(coarse + shift(nc))})
    want, out, calls = {}, [], 0
    for name in args["calls"]:
        o = Object(ctx)
        for p in PREFIX.get(name, []):
            o.call(p)
        want[name] = o.call(name)

    def differs(a, b):
        if len(a) != len(b):
            return True
        for x, y in zip(a, b):
            if x.shape != y.shape or not np.all(np.isfinite(x)):
                return True
            if x.size and np.abs(x - y).max() > 1e-9 * max(1e-30, np.abs(y).max()):
                return True
        return False

    distinct = {name: sum(1 for other in want if other != name and not differs(want[other], want[name])) for name in want}
    for walk in args["walks"]:
        o = Object(ctx)
        for i, name in enumerate(walk):
            calls += 1
            try:
                got = o.call(name)
            except Exception as e:  # noqa: BLE001 - the call fails in this history only
                out.append({"what": f"{name} fails", "history": walk[: i + 1], "error": f"{type(e).__name__}: {e}"[:300]})
                break
            if differs(got, want[name]):
                like = [k for k in want if k != name and not differs(got, want[k])]
                out.append({"what": f"{name} differs from what a new object hands out", "history": walk[: i + 1], "equals": like})
                break
        else:
            if any(np.abs(P.dense(m) - d).max() > 1e-12 * np.abs(d).max() for m, d in o.kept):
                out.append({"what": "a matrix handed out earlier was modified", "history": walk})
        if len(out) > 5:
            break
    return {"bad": out, "n": calls, "ambiguous": distinct}


# ---- check --------------------------------------------------------------------
def covering_walks(states, rng, limit=30):
    """Walks from the initial state over every edge of the graph."""
    key = lambda k, h: (k, tuple(sorted(h)))  # noqa: E731
    graph = {key(s["kind"], s["have"]): [(c, key(k, h)) for c, k, h in s["next"]] for s in states}
    start = key("none", [])
    todo = {(s, c) for s, es in graph.items() for c, _t in es}
    walks = []

    def path_to_todo(frm):
        seen, queue = {frm: []}, [frm]
        for s in queue:
            if any((s, c) in todo for c, _ in graph[s]):
                return s, seen[s]
            for c, t in graph[s]:
                if t not in seen:
                    seen[t] = [*seen[s], c]
                    queue.append(t)
        return None, None

    while todo:
        s, walk = start, []
        while len(walk) < limit:
            # calls that stay in the state first, then those that lead on
            here = [(c, t) for c, t in graph[s] if (s, c) in todo]
            stay = [x for x in here if x[1] == s]
            if stay or here:
                c, t = rng.choice(stay or here)
                todo.discard((s, c))
                walk.append(c)
                s = t
                continue
            s2, p = path_to_todo(s)
            if s2 is None:
                break
            walk += p
            s = s2
        walks.append(walk)
    return walks


def check_P13(ck):
    from harness.c_forms import SCRAMBLE, case, report

    rng = random.Random(ck.seed)
    graphs = {j: ck.tlc("MCLife", out=f"life{j}.json", workers="1", consts={"Jumps": "TRUE" if j else "FALSE"}).data["states"] for j in (False, True)}
    cs = [case(1, 1, 2, 1, mesh="line8", coarse="line", env=SCRAMBLE), case(2, 1, 3, 2, 1, wp=True, mesh="line8", coarse="line3"),
          case(1, 1, 2, 1, jumps=True, mesh="line8", coarse="line3")]
    if ck.thorough:
        cs += [case(1, 2, 2, 2, 1, mesh="line8", coarse="line3"), case(1, 1, 2, 1, mesh="square", coarse="squarecoarse", env=SCRAMBLE),
               case(2, 2, 2, 2, wp=True, jumps=True, mesh="line8", coarse="line3"), case(3, 0, 2, 1, mesh="line8", coarse="line")]
    jobs, meta, total, size = [], [], 0, 16 if ck.thorough else 8
    for i, c in enumerate(cs):
        states = graphs[c["jumps"]]
        calls = sorted({x[0] for s in states for x in s["next"]})
        walks = covering_walks(states, rng)
        if ck.thorough:
            key = lambda k, h: (k, tuple(sorted(h)))  # noqa: E731
            graph = {key(s["kind"], s["have"]): [(a, key(k, h)) for a, k, h in s["next"]] for s in states}
            for _ in range(60):
                s, w = key("none", []), []
                for _step in range(20):
                    a, s = rng.choice(graph[s])
                    w.append(a)
                walks.append(w)
        # every state's edges on the first configurations, a sample of the walks on the others
        if i >= (3 if ck.thorough else 1):
            walks = rng.sample(walks, min(len(walks), 32 if ck.thorough else 10))
        if c["mesh"] == "square":
            drop = {"plot", "ploterror"}
            walks, calls = [[x for x in w if x not in drop] for w in walks], [x for x in calls if x not in drop]
        total += sum(map(len, walks))
        for part in range(0, len(walks), size):
            jobs.append(("c_life:job_life", {"case": c, "mesh": c["mesh"], "coarse": c["coarse"], "calls": calls,
                                             "walks": walks[part:part + size]}, c["env"]))
            meta.append(c)
        ck.sample({"history": walks[0]})
    report(ck, meta, ck.run_many(jobs), "history")
    ck.cov.update(edges=sum(len(s["next"]) for s in graphs[False]), calls_replayed=total, exhaustive=True)
