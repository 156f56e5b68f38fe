"""Symbolic runner (executed by the verification interpreter).

usage: python3-vt -m hvc.prove CONTRACT   -> one JSON line
"""
import importlib
import json
import os
import sys
import threading
import time
import traceback

from . import coll, core, load, shims, symctx
from .core import Engine, PathEnd
from .reg import load_all
from .sym import DomainError, Unsupported, _Eng


def build_classes(E, M):
    Path = M.path.Path
    Surf = M.surface.ParametricSurface
    V = M.vector.Vector3

    class AbstractPath(Path, shims.Ghost):
        def __init__(self, c, name, at=None):
            self._c, self._name, self._at = c, name, at

        def __repr__(self):
            return f"AbstractPath({self._name})"

        def __call__(self, t):
            return V(*self._c.uf("path:" + self._name, [t], 3, self._at))

        def length(self, *a, **k):
            if self._at is None:
                return self._c.real("len:" + self._name, pos=True)
            return self._c.real("len:" + self._name, pos=True, at=self._at)

        def _hv_subst(self, pairs):
            return type(self)(self._c, self._name,
                              coll.subst(self._at, pairs) if self._at is not None else None)

        def __deepcopy__(self, memo):
            return type(self)(self._c, self._name, self._at)

    class AbstractSurface(Surf, shims.Ghost):
        def __init__(self, c, name, at=None):
            self._c, self._name, self._at = c, name, at

        def __repr__(self):
            return f"AbstractSurface({self._name})"

        def __call__(self, r, s):
            return V(*self._c.uf("surf:" + self._name, [r, s], 3, self._at))

        def _hv_subst(self, pairs):
            return type(self)(self._c, self._name,
                              coll.subst(self._at, pairs) if self._at is not None else None)

        def __deepcopy__(self, memo):
            return type(self)(self._c, self._name, self._at)

    class RecordingPath(AbstractPath):
        ts = ()

        def __call__(self, t):
            object.__setattr__(self, "ts", self.ts + (t,))
            return AbstractPath.__call__(self, t)

    class RecordingSurface(AbstractSurface):
        ts = ()

        def __call__(self, r, s):
            object.__setattr__(self, "ts", self.ts + ((r, s),))
            return AbstractSurface.__call__(self, r, s)

    E.classes = {"AbstractPath": AbstractPath, "AbstractSurface": AbstractSurface,
                 "RecordingPath": RecordingPath, "RecordingSurface": RecordingSurface}


def target_digest(finder, ct):
    """Which source text the targets were taken from."""
    import hashlib

    out = {}
    for t in ct.targets:
        mod = t.split(":")[0]
        p = os.path.join(finder.src, "hypervehicle", *mod.split(".")) + ".py"
        if p in finder.files:
            out[t] = hashlib.sha256(finder.files[p].encode()).hexdigest()[:16]
    return out


def prove(cid, tier="quick"):
    reg = load_all()
    ct = reg[cid]
    t0 = time.time()
    hv = shims.HV()
    finder = load.load(hv)
    wall = ct.opts.get("wall", 120) * (4 if tier == "thorough" else 1)
    wall *= 1.5 if core.SLOW > 1 else 1
    E = Engine(cid, timeout=ct.opts.get("timeout", 4000), wall=wall,
               max_paths=ct.opts.get("max_paths", 400))
    res = {"contract": cid, "status": "error"}
    _Eng.cur = E
    try:
        M = symctx.Mods()
        for n in symctx.Mods.NAMES:
            getattr(M, n)
        build_classes(E, M)
        from . import stubs

        stubs.install(E, M, ct)
    except Exception as e:
        res.update(status="unsupported", reason=f"loading: {type(e).__name__}: {e}",
                   trace=traceback.format_exc()[-1500:], obligations=[])
        return res
    unsupported = []

    def overrun():
        # a back end that cannot be interrupted: report what is there
        res.update(status="unsupported", obligations=[o.asdict() for o in list(E.results)],
                   budget="time budget (back end did not return)", paths=E.paths,
                   used=sorted(E.used), assumed=sorted(E.assumed))
        os.write(1, ("\nHVCJSON " + json.dumps(res, default=str) + "\n").encode())
        os._exit(0)

    dog = threading.Timer(wall * 1.15 + 15, overrun)
    dog.daemon = True
    dog.start()

    def once():
        stubs.reset(E)
        c = symctx.Ctx(E)
        try:
            ct.fn(c)
        except PathEnd:
            raise
        except core.Budget:
            raise
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-6:]
            unsupported.append(f"{e} @ {' '.join(loc)}")
        except RecursionError as e:
            unsupported.append("recursion")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-6:]
            import z3

            nm = f"no unexpected {type(e).__name__}"
            before = len(E.results)
            if E.is_new():
                E._prove(nm, z3.BoolVal(False))
                for o in E.results[before:]:
                    if o.status == "refuted":
                        o.exact = False
                    o.detail = f"{type(e).__name__}: {e} @ {' '.join(loc)}"

    try:
        E.explore(once)
        budget = None
    except core.Budget as e:
        budget = str(e)
    except Unsupported as e:
        budget = str(e)
    dog.cancel()
    obs = [o.asdict() for o in E.results]
    st = "proved"
    if budget or unsupported:
        st = "unsupported"
    if any(o["status"] == "unknown" for o in obs):
        st = "unknown"
    if any(o["status"] == "refuted" for o in obs):
        st = "refuted"
    if not obs and st == "proved":
        st = "vacuous"
    res.update(
        status=st, obligations=obs, paths=E.paths,
        unsupported=sorted(set(unsupported))[:8], budget=budget,
        used=sorted(E.used), assumed=sorted(E.assumed), notes=sorted(E.notes),
        secs=time.time() - t0, solver=core._STATS, source=target_digest(finder, ct),
    )
    return res


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    sys.setrecursionlimit(4000)
    r = prove(sys.argv[1], tier)
    sys.stdout.write("\nHVCJSON " + json.dumps(r, default=str) + "\n")


if __name__ == "__main__":
    main()
