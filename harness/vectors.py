"""Histories of spec/MCVectors.tla: vector objects that callers keep and write to in place."""
from __future__ import annotations

import random

import numpy as np


# ---- in the worker ------------------------------------------------------------
def play(P, histories, sizes, ops, tol, rng, what):  # noqa: N803
    """ops: {kind: (call(input object, output object), reference(array))}; a tolerance relative to the reference."""
    start = [rng.standard_normal(s) for s in sizes]
    other = [rng.standard_normal(s) * (np.linalg.norm(a) / np.sqrt(s)) for s, a in zip(sizes, start)]
    keep = [P.vec(s) for s in sizes]
    bad, n = [], 0

    def put(v, a):
        nonlocal n
        if n % 2:
            v.array[:] = a
        else:
            P.vec(len(a), a).copy(v)

    for h, hist in enumerate(histories):
        objects = [P.vec(s) for s in sizes] if h % 7 == 6 else keep
        for v, a in zip(objects, start):
            put(v, a)
        now = [a.copy() for a in start]
        for step in hist:
            i, o = step["from"] - 1, step["to"] - 1
            a = {"nothing": lambda a, i: a, "negate": lambda a, i: -a, "turn": lambda a, i: np.roll(a, 1),  # noqa: ARG005
                 "other": lambda a, i: other[i], "shrink": lambda a, i: a * 2.0**-30, "zero": lambda a, i: np.zeros(len(a)),
                 "broken": lambda a, i: np.full(len(a), np.nan)}[step["write"]](now[i], i)
            if step["write"] != "nothing":
                put(objects[i], a)
            now[i] = a.copy()
            call, ref = ops[step["kind"]]
            call(objects[i], objects[o])
            n += 1
            got = objects[o].array_r.copy()
            now[o] = got
            if step["input"][0] == "broken":
                continue
            want = ref(a)
            # forms may carry a constant of this size, so that no block is empty
            if not np.abs(got - want).max() <= tol * np.abs(want).max() + 1e-17:
                bad.append({"what": f"{what}: {step['kind']} with vectors written to in place", "history": hist,
                            "input": step["input"], "relative difference": float(np.abs(got - want).max() / max(np.abs(want).max(), 1e-300))})
            if not np.array_equal(objects[i].array_r, a):
                bad.append({"what": f"{what}: {step['kind']} modifies its input", "history": hist})
        if len(bad) > 3:
            break
    return bad, n


# ---- checks -------------------------------------------------------------------
def histories(ck, part, parts=1, steps=None):
    """All histories, dealt out to the jobs so that every job has all kinds of steps."""
    steps = steps or (3 if ck.thorough or part in ("transfer", "solver") else 2)
    hs = ck.tlc("MCVectors", out=f"vectors-{part}-{steps}.json", workers="1", consts={"Part": f'"{part}"', "Steps": str(steps)}).data
    hs = [[{k: s[k] for k in ("write", "kind", "from", "to", "input")} for s in h["steps"]] for h in hs]
    if len(hs) > 8000:
        keep = random.Random(ck.seed).sample(range(len(hs)), 8000)
        hs = [hs[i] for i in sorted(keep)]
    return [hs[i::parts] for i in range(parts)]
