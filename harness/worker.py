"""Runs one job against the code under test: python -m harness.worker mod:fn args.json out.json"""
import importlib
import json
import sys
import traceback


def jsonable(o):
    import numpy as np

    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return str(o)


def main():
    job, argf, outf = sys.argv[1:4]
    with open(argf) as f:
        args = json.load(f)
    mod, fn = job.split(":")
    try:
        m = importlib.import_module("harness." + mod)
        res = {"data": getattr(m, fn)(args)}
    except BaseException as e:  # noqa: BLE001 - whatever the code under test raises
        res = {"failed": f"{type(e).__name__}: {e}", "detail": traceback.format_exc()[-3000:],
               "args": {k: v for k, v in args.items() if k != "dir"}}
    with open(outf + ".tmp", "w") as f:
        json.dump(res, f, default=jsonable)
    import os

    os.replace(outf + ".tmp", outf)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
