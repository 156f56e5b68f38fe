"""Contract context, concrete side: the same contract text executed against the
real package on generated or replayed inputs."""
import builtins
import copy
import importlib
import types
import math
import random

import numpy as np


class Discard(Exception):
    """The generated input does not satisfy the precondition."""


class Failed(Exception):
    pass


class Mods:
    from_names = {
        "vector": "geometry.vector", "path": "geometry.path", "surface": "geometry.surface",
        "geometry": "geometry.geometry", "component": "components.component",
        "composite": "components.composite", "polygon": "components.polygon",
        "swept": "components.swept", "revolved": "components.revolved",
        "wing": "components.wing", "fin": "components.fin", "common": "components.common",
        "constants": "components.constants",
        "vehicle": "vehicle", "utilities": "utilities", "generator": "generator",
    }

    def __getattr__(self, k):
        if k not in self.from_names:
            raise AttributeError(k)
        return importlib.import_module("hypervehicle." + self.from_names[k])


def isvec(v):
    return type(v).__name__ == "Vector3"


def comps(v):
    return [v.x, v.y, v.z]


SPECIAL = [0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 0.25, 3.0, 10.0, -0.5]


_words = []


def words():
    """Identifiers among the text constants of the verified source; those it
    compares names with come as often as all the others together."""
    if not _words:
        import ast
        import os

        every, tested = set(), set()

        def texts(*nodes):
            return {x.value for n in nodes for x in ast.walk(n)
                    if isinstance(x, ast.Constant) and isinstance(x.value, str)
                    and 1 < len(x.value) < 30 and x.value.replace("_", "a").isalnum()}

        src = os.environ.get("HVC_SRC", "/repo/src")
        for d, _, fs in os.walk(os.path.join(src, "hypervehicle")):
            for f in fs:
                if not f.endswith(".py") or os.path.basename(d) == "hangar":
                    continue
                with open(os.path.join(d, f)) as fh:
                    t = ast.parse(fh.read())
                every |= texts(t)
                for x in ast.walk(t):
                    if isinstance(x, ast.Compare):
                        tested |= texts(x.left, *x.comparators)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) \
                            and x.func.attr in ("startswith", "endswith", "find", "split", "replace", "count"):
                        tested |= texts(*x.args)
        tested, every = sorted(tested), sorted(every)
        _words.extend(tested * max(1, len(every) // max(1, len(tested))) + every)
    return _words


class CtxBase:
    symbolic = False
    concrete = True

    def __init__(self, rng, model=None):
        self.rng = rng
        self.M = Mods()
        self.values = {}
        self.model = model or {}
        self.mv = self.model.get("values", {})
        self.mf = self.model.get("funcs", {})
        self.mc = self.model.get("choices", {})
        self.failures = []
        self.nchecks = 0
        self.log = []
        self.tmp = None
        self.patched = []
        # one case in four looks closely at limits and special values
        self.close_up = rng.random() < 0.25

    # ------------------------------------------------------------- inputs
    def _draw(self, lo, hi, pos):
        r = self.rng
        for _ in range(50):
            u = r.random()
            if self.close_up and r.random() < 0.4:
                v = r.choice([float(x) for x in (lo, hi) if x is not None] or [0.0, 0.0, 1.0, -1.0])
                v += r.choice([-1, 1]) * 10 ** r.uniform(-9, -1)
                if pos:
                    v = abs(v)
            elif lo is not None and hi is not None:
                if u < 0.12:
                    v = float(lo)
                elif u < 0.24:
                    v = float(hi)
                else:
                    v = r.uniform(lo, hi)
            elif u < 0.3:
                v = r.choice(SPECIAL)
            elif u < 0.8:
                v = r.gauss(0, 2)
            else:
                v = r.gauss(0, 20)
            if pos and v <= 0:
                v = abs(v)
            if lo is not None and v < lo:
                v = lo + abs(v)
            if hi is not None and v > hi:
                v = hi - abs(v)
            if pos and v <= 1e-3:
                continue
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return float(v)
        raise Discard("range")

    def real(self, name, lo=None, hi=None, pos=False, at=None, nonzero=False):
        key = name if at is None else f"{name}[{at}]"
        if key in self.values:
            return self.values[key]
        v = None
        if at is None:
            v = self.mv.get(name)
        else:
            for args, vals in self.mf.get(name, ()):
                if args[0] == at:
                    v = vals[0]
        if v is None:
            for _ in range(50):
                v = self._draw(lo, hi, pos)
                if not (nonzero and abs(v) < 1e-3):
                    break
        else:
            v = float(v)
            if lo is not None and v < lo or hi is not None and v > hi or (pos and v <= 0):
                raise Discard("model out of range")
        self.values[key] = v
        return v

    def pos(self, name, hi=None, at=None):
        return self.real(name, hi=hi, pos=True, at=at)

    def unit(self, name):
        return self.real(name, 0.0, 1.0)

    def int(self, name, lo=None, hi=None, sample=None, at=None):
        v = self.mv.get(name)
        if at is not None:
            for args, vals in self.mf.get(name, ()):
                if args[0] == at:
                    v = vals[0]
            name = f"{name}[{at}]"
        if name in self.values:
            return self.values[name]
        if v is None:
            a, b = sample or (lo if lo is not None else -5, hi if hi is not None else (lo or 0) + 5)
            if sample and hi is None and a >= 1 and self.rng.random() < 0.04:
                b = max(b, 12)
            v = self.rng.randint(a, b)
        if sample and v > max(sample[1], 12):
            raise Discard("model too large")
        self.values[name] = builtins.int(v)
        return self.values[name]

    def vec(self, name, at=None, scale=None):
        return self.M.vector.Vector3(*[self.real(name + "." + a, at=at) for a in "xyz"])

    def choice(self, name, options):
        i = self.mc.get(name)
        if i is None:
            i = self.rng.randrange(len(options))
        self.values[name] = i
        return options[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def _smooth(self, name, nargs, ret, at=None):
        """A generic smooth function, or one through the model's points."""
        pts = self.mf.get(name)
        if pts and at is not None:
            pts = [(a[1:], v) for a, v in pts if a[0] == at]
        key = f"fn:{name}[{at}]"
        if pts and any(len(a) == nargs for a, _ in pts):
            pts = [(np.array(a, float), np.array(v, float)) for a, v in pts]
            self.values[key] = [[list(map(float, a)), list(map(float, v))] for a, v in pts]

            def f(*a):
                x = np.array([float(t) for t in a])
                ds = sorted((float(np.abs(x - p).max()), i) for i, (p, _) in enumerate(pts))
                if ds[0][0] == 0 or len(pts) == 1 or nargs > 1:
                    return list(pts[ds[0][1]][1])
                order = sorted(pts, key=lambda q: q[0][0])
                xs = [q[0][0] for q in order]
                return [float(np.interp(x[0], xs, [q[1][k] for q in order])) for k in range(ret)]

            return f
        r = random.Random(f"{self.rng.random()}{key}")
        co = [[r.gauss(0, 1) for _ in range(3 * nargs + 1)] for _ in range(ret)]
        fr = [[r.uniform(0.5, 2.5) for _ in range(nargs)] for _ in range(ret)]
        self.values[key] = {"coef": co, "freq": fr}

        def f(*a):
            out = []
            for k in range(ret):
                v = co[k][0]
                for i, t in enumerate(a):
                    t = t if isinstance(t, np.ndarray) else float(t)
                    v = v + co[k][1 + 3 * i] * t + co[k][2 + 3 * i] * np.sin(fr[k][i] * t + i)
                    v = v + co[k][3 + 3 * i] * 0.3 * np.cos(1.7 * fr[k][i] * t)
                out.append(v if isinstance(v, np.ndarray) else float(v))
            return out

        return f

    def apath(self, name, at=None, length=None):
        V = self.M.vector.Vector3
        f = self._smooth("path:" + name, 1, 3, at)

        class RandomPath(self.M.path.Path):
            def __repr__(s):
                return f"RandomPath({name})"

            def __call__(s, t):
                return V(*f(t))

        return RandomPath()

    def asurf(self, name, at=None):
        V = self.M.vector.Vector3
        f = self._smooth("surf:" + name, 2, 3, at)

        class RandomSurface(self.M.surface.ParametricSurface):
            def __repr__(s):
                return f"RandomSurface({name})"

            def __call__(s, r, q):
                return V(*f(r, q))

        return RandomSurface()

    def recpath(self, name):
        p = self.apath(name)

        class RecordingPath(self.M.path.Path):
            ts = []

            def __repr__(s):
                return "RecordingPath"

            def __call__(s, t):
                s.ts = s.ts + [t]
                return p(t)

        return RecordingPath()

    def recsurf(self, name):
        p = self.asurf(name)

        class RecordingSurface(self.M.surface.ParametricSurface):
            ts = []

            def __repr__(s):
                return "RecordingSurface"

            def __call__(s, r, q):
                s.ts = s.ts + [(r, q)]
                return p(r, q)

        return RecordingSurface()

    def afun(self, name, nargs, at=None, lo=None, hi=None, pos=False):
        f = self._smooth(name, nargs, 1, at)

        def g(*a):
            v = f(*a)[0]
            if pos:
                v = abs(v) + 0.05
            if lo is not None and hi is not None:
                v = lo + (hi - lo) * (0.5 + 0.5 * np.sin(v))
            elif lo is not None:
                v = lo + abs(v)
            elif hi is not None:
                v = hi - abs(v)
            return v

        return g

    def vecfun(self, name, params, zonly=False, deps=None):
        V = self.M.vector.Vector3
        use_p = deps or params
        f = self._smooth(name, len(use_p), 1 if zonly else 3)

        def g(*a, **k):
            vals = dict(zip(params, a))
            vals.update(k)
            o = f(*[vals.get(p, 0.0) for p in use_p])
            return V(0.0, 0.0, o[0]) if zonly else V(*o)

        return g

    def _many(self, sample):
        """Now and then a collection is much larger than usual."""
        return (sample[0], 12) if self.rng.random() < 0.06 else sample

    def seq(self, name, lo, mk, sample=(1, 5), n=None):
        n = n if n is not None else self.int(name + ".n", lo, sample=self._many((max(lo, sample[0]), sample[1])))
        return [mk(i) for i in range(n)]

    def pair(self, i, j):
        return 1000 * i + j

    def mapping(self, name, mk, sample=(1, 4), n=None):
        if n is None:
            n = self.int(name + ".n", 1, sample=self._many(sample))
        return {k: mk(i) for i, k in enumerate(self._names(name, n))}

    def _names(self, name, n):
        """Names of the entries; now and then made of texts the code mentions."""
        known = self.values.get("names of " + name)
        if known is not None and len(known) >= n:
            return known[:n]
        out = [f"{name}{i}" for i in range(n)]
        r = random.Random(f"{self.rng.random()}{name}")
        if r.random() < 0.35 and words():
            w = r.choice(words())
            for i in range(n):
                if r.random() < 0.7:
                    k = r.choice([f"{name}{i}{w}", f"{name}{i}_{w}", f"{w}{i}", w])
                    if k not in out:
                        out[i] = k
        out[:len(known or ())] = known or ()
        self.values["names of " + name] = out
        return out

    def numbered(self, prefix, n, mk):
        return {f"{prefix}{i}": mk(i) for i in range(n)}

    def not_named(self, m, text):
        if text in m:
            raise Discard()

    def hv_list(self, items):
        return list(items)

    def hv_dict(self, d):
        return dict(d)

    # ------------------------------------------------------------- logic
    def assume(self, cond):
        if not np.all(cond):
            raise Discard()

    def check(self, name, cond):
        self.nchecks += 1
        if not builtins.bool(np.all(cond)):
            self.failures.append(name)

    lemma = check

    TOL = 1e-8

    def _eq(self, a, b, tol=None):
        if a is b:
            return True
        if isvec(a):
            bs = comps(b) if isvec(b) else b
            return all(self._eq(x, y, tol) for x, y in zip(comps(a), bs))
        if isinstance(a, (str, builtins.bool, type(None))) or isinstance(b, (str, type(None))):
            return a == b
        a, b = np.asarray(a, float), np.asarray(b, float)
        if a.shape != b.shape and a.size != b.size:
            return False
        if np.isnan(a).any() or np.isnan(b).any():
            return False
        t = (tol or self.TOL) * (1 + np.abs(a) + np.abs(b) + self.scale)
        return builtins.bool(np.all(np.abs(a - b) <= t))

    scale = 0.0

    def eq(self, a, b, tol=None):
        return self._eq(a, b, tol)

    def close(self, a, b, tol=1e-6):
        if isvec(a):
            bs = comps(b) if isvec(b) else b
            return all(abs(x - y) <= tol * 1.01 + 1e-9 for x, y in zip(comps(a), bs))
        return abs(a - b) <= tol * 1.01 + 1e-9

    def check_vec(self, name, v, w, tol=None):
        if not isvec(v):
            self.check(name + " [is a vector]", False)
            return
        ws = comps(w) if isvec(w) else w
        for a, x, y in zip("xyz", comps(v), ws):
            if tol is None:
                self.check(f"{name} [{a}]", self._eq(x, y))
            else:
                self.check(f"{name} [{a}]", abs(x - y) <= tol * 1.01 + 1e-9)
                if x != x or y != y:
                    self.check(f"{name} [{a}] is a number", False)

    def same_vec(self, v, w):
        return self._eq(v, w)

    def raises(self, fn, *exc):
        try:
            fn()
        except (exc or Exception):
            return True
        return False

    def And(self, *a):
        return all(builtins.bool(x) for x in a)

    def Or(self, *a):
        return any(builtins.bool(x) for x in a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or builtins.bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return math.sqrt(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def atan2(self, y, x):
        return math.atan2(y, x)

    def pow(self, b, e):
        return b ** e

    def abs(self, x):
        return abs(x)

    def floor(self, x):
        return math.floor(x)

    def toreal(self, i):
        return float(i)

    pi = math.pi

    def norm(self, v):
        return math.sqrt(sum(x * x for x in comps(v)))

    def is_concrete_true(self, b):
        return builtins.bool(b)

    def note(self, s):
        pass

    # ------------------------------------------------- unbounded collections
    def each(self, seq, name="q"):
        if isinstance(seq, dict):
            yield from seq.items()
        else:
            yield from enumerate(seq)

    def index(self, name, n):
        return self.int(name, 0, sample=(0, n - 1)) if n > 0 else self._discard()

    def _discard(self):
        raise Discard()

    def length(self, x):
        return len(x)

    def getitem(self, x, i):
        return x[i]

    def total(self, n, f, rep=None):
        return sum(f(k) for k in range(n))

    def witness(self, *idx):
        pass

    def increasing(self, seq, key):
        seq.sort(key=key)
        v = [key(x) for x in seq]
        self.assume(all(a < b - 1e-6 for a, b in zip(v, v[1:])))

    def total_over(self, d, f):
        return sum(f(k) for k in d)

    def prefix(self, n, f, k, rep=None):
        return sum(f(i) for i in range(k))

    def frame(self, names=("e1", "e2", "e3")):
        m = np.array([[self.real(f"{n}.{a}") for a in "xyz"] for n in names])
        q, r = np.linalg.qr(m + 0.01 * np.eye(3))
        if np.abs(np.diag(r)).min() < 1e-6:
            raise Discard()
        if np.linalg.det(q) < 0:
            q[:, 2] *= -1
        V = self.M.vector.Vector3
        return [V(*map(float, q[:, i])) for i in range(3)]

    def hint_norm(self, *a):
        pass

    symbolic_ranges = hint_norm

    hint_angle = hint_root = exact_rounding = hint_norm

    def induct(self, *a, **k):
        pass

    induct_triangle = triangle = induct

    def monotone_prefix(self, *a, **k):
        pass

    def single_term(self, *a, **k):
        pass

    def instantiate(self, *a):
        pass

    def invariant(self, *a, **k):
        pass

    def recorder(self):
        return []

    def watch(self, log, obj, method, ret=None):
        obj.__dict__[method] = lambda *a, **k: (log.append((obj, method, a, k)), ret)[1]

    def rounds(self, log, seq, obj, *outer):
        log = [e[1:] for e in log if e[0] is obj]
        n = len(seq)
        k, rest = divmod(len(log), n) if n else (0, len(log))
        self.check("as many calls for every element", rest == 0)
        for i, el in enumerate(seq):
            yield i, el, log[i * k:(i + 1) * k]

    def calls(self, log, obj, *outer):
        return [e[1:] for e in log if e[0] is obj]

    def history(self, v, kind, n, mk):
        out = []
        for i in range(n):
            k = mk(i)
            k.componenttype = kind
            v.add_component(k)
            out.append((f"{kind}_{i + 1}", k))
        return out

    def text(self, *parts):
        return "".join(str(p) for p in parts)

    def label(self, name, i):
        return f"{name}{i}"

    def last(self, seq):
        return seq[-1]

    def tally(self, seq, keys, kind):
        return lambda k, i: sum(1 for j in range(i) if kind(j) == k)

    def patch(self, mod, name, fn):
        self.patched.append((mod, name, getattr(mod, name)))
        setattr(mod, name, fn)

    def unpatch(self):
        for mod, name, fn in reversed(self.patched):
            setattr(mod, name, fn)
        self.patched = []

    def entries(self, d):
        for i, (k, v) in enumerate(d.items()):
            yield i, k, v

    def loop(self, seq):
        return enumerate(seq)

    def families(self, key, *seqs):
        return None

    def deepcopy(self, x):
        return copy.deepcopy(x)

    def uses(self, name):
        pass

    def rare(self):
        """True for a few samples: behaviour too slow to run every time."""
        self.values.setdefault("rare", self.rng.random() < 0.05)
        return self.values["rare"]

    def stl_files(self, fn, here=False, over=()):
        import os
        import shutil
        import tempfile

        from stl import mesh

        d = tempfile.mkdtemp(prefix="hvc")
        cwd = os.getcwd()
        try:
            os.chdir(d)
            os.mkdir("DIR")
            if here:
                os.chdir("DIR")
            fn("." if here else "DIR")
            out = {}
            for root, _, names in os.walk(d):
                for n in names:
                    p = os.path.join(root, n)
                    rel = os.path.relpath(p, os.path.join(d, "DIR"))
                    out[rel if not rel.startswith("..") else "outside:" + rel[3:]] = mesh.Mesh.from_file(p)
            return out
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)

    def per_key(self, d, name, mk):
        return {k: mk(name, i) for i, k in enumerate(d)}

    # ------------------------------------------------------------- meshes
    def solid(self, name, i):
        """A random tetrahedron."""
        from stl import Mesh

        p = np.array([[self.real(f"{name}{a}{k}", at=i) for a in "xyz"] for k in range(4)])
        vol = np.linalg.det(p[1:] - p[0])
        if abs(vol) < 1e-2:
            raise Discard()
        inside_out = random.Random(f"{vol}").random() < 0.15  # as after a reflection
        if (vol < 0) != inside_out:
            p[[0, 1]] = p[[1, 0]]
        m = Mesh(np.zeros(4, dtype=Mesh.dtype))
        for t, q in enumerate([(0, 2, 1), (0, 1, 3), (1, 2, 3), (0, 3, 2)]):
            m.vectors[t] = p[list(q)]
        m.update_normals()
        return m

    def trimesh(self, name, n, i):
        """A mesh of n random triangles; few coordinates, so vertices coincide."""
        from stl import Mesh

        m = Mesh(np.zeros(n, dtype=Mesh.dtype))
        for t in range(n):
            for v in range(3):
                for k in range(3):
                    m.vectors[t][v][k] = self.int(f"{name}.{t}.{v}.{k}", at=i, sample=(0, 2)) / 4
        return m

    def vertices(self, what, table, n, cols):
        self.check(what + ": has the columns", all(c in table.columns for c in cols))
        got = table[list(cols)].to_numpy(dtype=float)
        want = np.array([[float(f(t, v)) for f in cols.values()] for t in range(n) for v in range(3)])
        near = lambda a, b: np.all(np.abs(b - a) <= 1e-4 * (1 + np.abs(a)), axis=1).any()
        self.check(what + ": every vertex listed", all(near(w, got) for w in want))
        self.check(what + ": nothing else listed", all(near(g, want) for g in got))

    def position(self, d, key):
        return list(d).index(key)

    def record(self, **kw):
        return types.SimpleNamespace(**kw)

    def table(self, cols):
        import pandas as pd

        return pd.DataFrame(cols)

    def columns(self, table):
        return list(table.columns)

    def changed(self, kw, params):
        return {k: kw[k] for k in params if kw[k] != params[k]}

    def area(self, mesh):
        return float(np.sum(mesh.areas))

    def column(self, table, col):
        return dict(table[col])

    def mesh_is(self, what, m, entries):
        import numpy as np

        f = self.M.utilities.surfce_to_stl
        want = np.concatenate([f(p, nr, ns, **cl).vectors for _, p, nr, ns, cl in entries]).reshape(-1, 9)
        got = np.asarray(m.vectors).reshape(-1, 9)
        self.check(what + ": one part per patch", got.shape == want.shape)
        if got.shape == want.shape and not np.array_equal(got, want):
            got, want = [v[np.lexsort(v.T)] for v in (got, want)]
            self.check(what + ": patch", np.allclose(got, want, rtol=1e-5, atol=1e-5))

    def cells(self, m, ni, nj):
        for i in range(ni):
            for j in range(nj):
                yield i, j

    def tri(self, m, t, q, guard=None):
        return [float(x) for x in m.vectors[t][q]]

    def ntri(self, m):
        return len(m.vectors)

    def fam_log(self):
        return self.log


class Ctx(CtxBase):
    pass
