"""P05: the quadrature rules of spec/Quadrature.tla replayed on dxss.precomp_time_int.QuadRule."""
from __future__ import annotations

import random
from fractions import Fraction

import numpy as np

from harness.common import close, frac


def overwrite(seq):
    """What a caller may do with a result that is its own."""
    try:
        for i in range(len(seq)):
            seq[i] = -1e9 - i
    except TypeError:
        pass  # not to be changed by anyone


def eval_rules(args):
    from dxss.precomp_time_int import QuadRule

    def ask(qr, a, b):
        p, w = qr.current_pts(a, b), qr.t_weights(b - a)
        got = [float(x) for x in p], [float(x) for x in w]
        overwrite(p)
        overwrite(w)
        return got

    out = []
    for name, n in args["rules"]:
        qr, again = QuadRule(name, n), QuadRule(name, n)
        rows = [None] * len(args["intervals"])
        for i, (a, b) in enumerate(args["intervals"]):
            rows[i] = dict(zip(("p", "w"), ask(qr, a, b)))
        # another object, other histories of intervals
        for i in args["order"]:
            a, b = args["intervals"][i]
            rows[i].update(zip(("p2", "w2"), ask(again, a, b)))
            rows[i].update(zip(("p3", "w3"), ask(QuadRule(name, n), a, b)))
        out.append(rows)
    return out


def check_P05(ck):
    t = ck.tlc("MCQuadrature", out="quad.json").data
    ivs = [(float(frac(a)), float(frac(b))) for a, b in t["intervals"]]
    moments = [[float(frac(m)) for m in row] for row in t["moments"]]
    rnd = random.Random(ck.seed)
    for _ in range(400 if ck.thorough else 40):
        a = rnd.choice([0.0, rnd.uniform(-10, 10), rnd.uniform(0, 1)])
        ivs.append((a, a + 10 ** rnd.uniform(-3, 1)))
        if rnd.random() < 0.3:
            # short and long ones, away from zero as far as numbers of this kind allow
            ln = 10 ** rnd.choice([rnd.uniform(-12, -3), rnd.uniform(1, 9), -8.0])
            ivs[-1] = (ln * rnd.choice([0.0, rnd.uniform(-20, 20), -1.0]),) * 2
            ivs[-1] = (ivs[-1][0], ivs[-1][0] + ln)
        moments.append([(ivs[-1][1] - ivs[-1][0]) / (k + 1) for k in range(9)])
    data = ck.answer(ck.run("c_quad:eval_rules", {"rules": [[r["name"], r["n"]] for r in t["rules"]], "intervals": ivs,
                                                           "order": rnd.sample(range(len(ivs)), len(ivs))}),
                     "evaluate the rules")
    if data is None:
        return
    for r, poly, rows in zip(t["rules"], t["nodepoly"], data):
        tab = r["digits"] > 0
        poly = [float(frac(c)) for c in poly]
        roots = np.sort(np.real(np.roots(poly[::-1])))
        for (a, b), mom, row in zip(ivs, moments, rows):
            ln, n = b - a, r["n"]
            info = {"rule": r["name"], "n": n, "interval": [a, b], "points": row["p"], "weights": row["w"]}
            if not ck.expect(len(row["p"]) == n and len(row["w"]) == n, "number of points", info):
                continue
            same = row["p"] == row["p2"] == row["p3"] and row["w"] == row["w2"] == row["w3"]
            ck.expect(same, "same for every object and history", {**info, "others": [row[k] for k in ("p2", "p3", "w2", "w3")]})
            # rounding of the end points is relative to their size
            fuzz = 4e-16 * max(abs(a), abs(b)) / ln
            loc = [(p - a) / ln for p in row["p"]]
            w = [x / ln for x in row["w"]]
            ck.expect(all(-1e-12 - fuzz <= x <= 1 + 1e-12 + fuzz for x in loc), "points inside", info)
            ck.expect(abs(sum(w) - 1) <= (2e-6 if tab else 1e-12) , "weights sum to the length", info)
            ck.expect(all(x > 0 for x in w), "positive weights", info)
            if r["left"]:
                ck.expect(min(abs(x) for x in loc) <= 1e-12 + fuzz, "left end point", info)
            for k in range(r["deg"] + 1):
                got = sum(x * y**k for x, y in zip(w, loc))
                tol = 2e-6 if tab else 1e-11
                ck.expect(abs(got - mom[k] / ln) <= tol + 50 * fuzz, "exact to its order", {**info, "degree": k, "got": got * ln, "spec": mom[k]})
            # the rule with these properties is unique: nodes and weights one by one
            o = np.argsort(loc)
            for x, z in zip(np.array(loc)[o], (roots + 1) / 2):
                ck.expect(abs(x - z) <= (6e-7 if tab else 1e-10) + fuzz, "node", {**info, "node": x, "spec": z})
            wz = np.linalg.solve(np.vander((roots + 1) / 2, increasing=True).T, [1 / (k + 1) for k in range(n)])
            for x, z in zip(np.array(w)[o], wz):
                ck.expect(abs(x - z) <= (1e-6 if tab else 1e-10), "weight", {**info, "weight": x, "spec": z})
        ck.traces += 1
    ck.sample({"rule": "Gauss-Radau 3", "on [0,1]": data[3][0]})
    ck.cov.update(intervals=len(ivs), rules=len(t["rules"]), exhaustive=False)
