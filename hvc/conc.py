"""Concrete runner (executed by the project's own interpreter).

usage: python -m hvc.conc CONTRACT SEED N [MODEL.json]
prints one JSON line.
"""
import io
import json
import os
import random
import sys
import tempfile
import time
import traceback
import contextlib
import shutil
import warnings

SRC = os.environ.get("HVC_SRC", "/repo/src")
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


HERE = os.path.dirname(os.path.abspath(__file__))


def missing(e, tb):
    """A contract clause looked at a result that the code did not produce: an
    entry, item, file or public attribute that is not there, or a value of
    another kind in its place."""
    if not any(os.path.dirname(f.filename) == os.path.join(HERE, "contracts") for f in tb):
        return False
    if isinstance(e, (KeyError, IndexError, FileNotFoundError)):
        return True
    if isinstance(e, AttributeError):
        return "NoneType" in str(e) or not str(e.name or "_").startswith("_")
    kinds = ("NoneType", "not callable", "not subscriptable", "not iterable")
    return isinstance(e, TypeError) and any(k in str(e) for k in kinds)


def run_one(ct, rng, model=None):
    from . import concctx

    c = concctx.Ctx(rng, model)
    c.TOL = ct.opts.get("tol", concctx.CtxBase.TOL)
    out = {"status": "ok"}
    buf = io.StringIO()
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="hvc_")
    c.tmp = tmp
    os.chdir(tmp)
    try:
        import numpy as np

        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), np.errstate(all="ignore"):
            ct.fn(c)
        if c.failures:
            out = {"status": "fail", "failed": c.failures[:10]}
    except concctx.Discard:
        out = {"status": "discard"}
        if c.failures:
            out = {"status": "fail", "failed": c.failures[:10]}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(SRC in f.filename for f in tb)
        out = {"status": "fail" if inside or missing(e, tb) else "error",
               "failed": [f"unexpected {type(e).__name__}: {str(e)[:200]}"],
               "trace": "".join(traceback.format_tb(e.__traceback__))[-1500:]}
    finally:
        c.unpatch()
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    out["inputs"] = c.values
    out["nchecks"] = c.nchecks
    return out


def main():
    from .reg import load_all

    reg = load_all()
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as fh:
            r = json.load(fh)
        if r.get("case") is None:
            print("no failing input: obligation", r["obligation"])
            print(json.dumps(r.get("verifier"), indent=1))
            return
        o = run_one(reg[r["contract"]], random.Random(f"{r['seed']}:{r['contract']}:{r['case']}"), r.get("model"))
        print(json.dumps(o, indent=1, default=str))
        return
    cid, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    model = None
    if len(sys.argv) > 4:
        with open(sys.argv[4]) as fh:
            model = json.load(fh)
    ct = reg[cid]
    t0 = time.time()
    budget = float(os.environ.get("HVC_CONC_BUDGET", "120"))
    res = {"contract": cid, "ran": 0, "discarded": 0, "checks": 0, "fails": [], "errors": [],
           "examples": []}
    keys = set()
    k = 0
    tries = n * 6 if model is None else max(n, 1)
    while res["ran"] < n and k < tries and time.time() - t0 < budget:
        rng = random.Random(f"{seed}:{cid}:{k}")
        o = run_one(ct, rng, model)
        if o["status"] == "discard":
            res["discarded"] += 1
        else:
            res["ran"] += 1
            res["checks"] += o["nchecks"]
            if o["nchecks"]:
                keys.add(json.dumps(o["inputs"], default=str, sort_keys=True))
                if len(res["examples"]) < 2:
                    ex = json.dumps(o["inputs"], default=str)
                    res["examples"].append(o["inputs"] if len(ex) < 3000 else ex[:3000])
            if o["status"] == "fail":
                o["case"] = k
                res["fails"].append(o)
                if len(res["fails"]) >= 3:
                    break
            elif o["status"] == "error":
                res["errors"].append(o)
                if len(res["errors"]) >= 3:
                    break
        k += 1
    res["distinct"] = len(keys)
    res["secs"] = time.time() - t0
    sys.stdout.write("\nHVCJSON " + json.dumps(res, default=str) + "\n")


if __name__ == "__main__":
    main()
