"""Path explorer and proof-obligation dispatcher."""
import itertools
import os
import shutil
import signal
import subprocess
import tempfile
import threading
import time
from fractions import Fraction

import z3

from . import sym
from .sym import (ATAN2, COS, EXP, INCOMPLETE, LOG, PI, POW, R, ROUND, SIN,
                  SQRT, TAN, SymBool, SymInt, SymReal, Unsupported, _Eng,
                  numeral, rv, to_bool, to_int, to_real)


class PathEnd(BaseException):
    """This path has been fully accounted for (loop step, infeasible, ...)."""


class Budget(Unsupported):
    pass


# ------------------------------------------------------------------ solving
_STATS = {}


def _stat(backend, dt):
    s = _STATS.setdefault(backend, [0, 0.0])
    s[0] += 1
    s[1] += dt


def walk(z, seen, out):
    stack = [z]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(t)
        stack.extend(t.children())


def shape(c):
    """The names in c: the order of terms may differ between executions."""
    if not z3.is_expr(c):
        return c
    return frozenset(t.decl().name() for t in subterms([c]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED)


def subterms(fmls):
    seen, out = set(), []
    for f in fmls:
        walk(f, seen, out)
    return out


def uf_apps(fmls):
    return [
        t
        for t in subterms(fmls)
        if z3.is_app(t)
        and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
        and t.num_args() > 0
    ]


def uses_incomplete(fmls):
    for t in subterms(fmls):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            # facts about sums and arbitrary elements are only instantiated
            # where the rules need them
            if nm in INCOMPLETE or nm.startswith("idx!") or (nm.startswith("sum") and nm[3:].isdigit()):
                return True
    return False


def has_ints(fmls):
    for t in subterms(fmls):
        if t.sort() == z3.IntSort():
            return True
    return False


def ackermannise(fmls):
    """Replace uninterpreted applications by constants + congruence."""
    apps = uf_apps(fmls)
    if not apps:
        return fmls, {}
    depth = {}

    def dep(t):
        i = t.get_id()
        if i not in depth:
            depth[i] = 1 + max([dep(c) for c in t.children()], default=0)
        return depth[i]

    apps.sort(key=dep)
    subs = []
    names = {}
    groups = {}
    extra = []
    for k, a in enumerate(apps):
        args = [z3.substitute(c, *subs) if subs else c for c in a.children()]
        v = z3.Const(f"ack!{k}", a.sort())
        g = groups.setdefault(a.decl().name() + str(a.decl().arity()), [])
        for (oargs, ov) in g:
            diffs = []
            trivially_diff = False
            for x, y in zip(args, oargs):
                d = z3.simplify(x == y)
                if z3.is_false(d):
                    trivially_diff = True
                elif not z3.is_true(d):
                    diffs.append(d)
            if trivially_diff:
                continue
            extra.append(z3.Implies(z3.And(*diffs) if diffs else z3.BoolVal(True), v == ov))
        g.append((args, v))
        subs.append((a, v))
        names[v.decl().name()] = a
        if len(extra) > 600:
            raise Unsupported("too many congruence instances")
    # substitute innermost-last: outer applications first
    out = []
    rs = list(reversed(subs))
    for f in fmls:
        out.append(z3.substitute(f, *rs))
    return out + extra, names


SLOW = float(os.environ.get("HVC_SLOW", "1"))


class Watchdog:
    """Interrupts z3 when it overruns its own timeout."""

    def __init__(self):
        self.lock = threading.Lock()
        self.deadline = None
        self.thread = None

    def loop(self):
        while True:
            time.sleep(0.25)
            with self.lock:
                if self.deadline is not None and time.time() > self.deadline:
                    z3.main_ctx().interrupt()

    def check(self, s, ms):
        if self.thread is None:
            self.thread = threading.Thread(target=self.loop, daemon=True)
            self.thread.start()
        with self.lock:
            self.deadline = time.time() + ms / 1000 * 1.2 + 0.5
        try:
            return s.check()
        except z3.Z3Exception:
            return z3.unknown
        finally:
            with self.lock:
                self.deadline = None


WATCH = Watchdog()


def _nlsat(fmls, timeout):
    timeout = int(timeout * SLOW)
    t0 = time.time()
    g, names = ackermannise(fmls)
    if has_ints(g):
        return "unknown", None
    tac = z3.Then(
        z3.With("simplify", som=False), "propagate-values", "elim-term-ite", "solve-eqs",
        "purify-arith", "elim-term-ite", "solve-eqs", "simplify",
        z3.TryFor(z3.Tactic("qfnra-nlsat"), timeout),
    )
    s = tac.solver()
    s.set("timeout", timeout)
    s.add(*g)
    r = WATCH.check(s, timeout)
    _stat("z3-nlsat", time.time() - t0)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        try:
            m = s.model()
        except z3.Z3Exception:
            return "unknown", None
        return "sat", AckModel(m, names)
    return "unknown", None


class AckModel:
    """Model of the ackermannised problem, evaluating original terms."""

    def __init__(self, m, names):
        self.m = m
        self.subs = [(t, z3.Const(n, t.sort())) for n, t in names.items()]

    def eval(self, t):
        if self.subs:
            t = z3.substitute(t, *reversed(self.subs))
        return self.m.eval(t, model_completion=True)


class Z3Model:
    def __init__(self, m):
        self.m = m

    def eval(self, t):
        return self.m.eval(t, model_completion=True)


def _z3default(fmls, timeout):
    timeout = int(timeout * SLOW)
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*fmls)
    r = WATCH.check(s, timeout)
    _stat("z3", time.time() - t0)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        return "sat", Z3Model(s.model())
    return "unknown", None


def _unsat_apart(fmls, timeout):
    """Decided in a child process: z3 does not always heed interrupts."""
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            WATCH.__init__()
            if _z3default(fmls, timeout)[0] == "unsat" or _nlsat(fmls, timeout)[0] == "unsat":
                code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    end = t0 + (timeout * 2.4 * SLOW + 1000) / 1000
    while True:
        done, st = os.waitpid(pid, os.WNOHANG)
        if done:
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            st = 1
            break
        time.sleep(0.005)
    _stat("z3", time.time() - t0)
    return st == 0


def _cvc5(fmls, timeout):
    timeout = int(timeout * SLOW)
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown", None
    t0 = time.time()
    s = z3.Solver()
    s.add(*fmls)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(txt)
        fn = fh.name
    try:
        p = subprocess.run(
            [exe, "--nl-ext-tplanes", f"--tlimit={timeout}", fn],
            capture_output=True, text=True, timeout=timeout / 1000 + 5,
        )
        out = p.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired:
        out = "unknown"
    finally:
        os.unlink(fn)
    _stat("cvc5", time.time() - t0)
    if out == "unsat":
        return "unsat", None
    return "unknown", None


def fnum(v):
    """float of a model value."""
    n = numeral(v)
    if n is not None:
        return float(n)
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise Unsupported("non-numeric model value")


def poly_zero(d):
    s = z3.simplify(d, som=True, blast_distinct=True)
    n = numeral(s)
    return n is not None and n == 0


def ratfun_zero(lhs, rhs, timeout=6):
    """lhs - rhs == 0 as rational functions over opaque atoms."""
    from . import alg

    t0 = time.time()
    r = _timed(lambda: alg.zero_mod(lhs - rhs, []), timeout)
    _stat("sympy", time.time() - t0)
    return bool(r)


class _Alarm(Exception):
    pass


def _timed(fn, secs):
    import signal

    def h(*a):
        raise _Alarm()

    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return fn()
    except _Alarm:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def ideal_member(goal, eqs, secs=8, gb=True):
    """goal (an equation) follows from the equations eqs: division by them,
    then by a Groebner basis of them."""
    from . import alg

    t0 = time.time()
    r = _timed(lambda: alg.zero_mod(goal.arg(0) - goal.arg(1),
                                    [e.arg(0) - e.arg(1) for e in eqs], gb), secs)
    _stat("sympy-ideal", time.time() - t0)
    return bool(r)


# ------------------------------------------------------------------- engine
class Obligation:
    __slots__ = ("name", "status", "backend", "secs", "model", "exact", "detail", "path")

    def __init__(self, name, status, backend="", secs=0.0, model=None, exact=True, detail=""):
        self.name = name
        self.status = status
        self.backend = backend
        self.secs = secs
        self.model = model
        self.exact = exact
        self.detail = detail

    def asdict(self):
        return {k: getattr(self, k, None) for k in
                ("name", "status", "backend", "secs", "model", "exact", "detail")}


def squares(z):
    """The roots, when z is a sum of squares, else nothing."""
    parts = [z]
    while any(z3.is_add(p) for p in parts):
        parts = [q for p in parts for q in (p.children() if z3.is_add(p) else [p])]
    out = []
    for p in parts:
        k = p.children()
        if z3.is_mul(p) and len(k) == 2 and k[0].eq(k[1]):
            out.append(k[0])
        else:
            return []
    return out


class Engine:
    def __init__(self, name, timeout=4000, wall=120, max_paths=400):
        self.name = name
        self.timeout = timeout
        self.deadline = time.time() + wall
        self.max_paths = max_paths
        self.results = []
        self.trail = []
        self.answers = {}
        self.used = set()
        self.assumed = set()
        self.paths = 0
        self.notes = set()
        self.reset()

    # -- per path state
    def reset(self):
        self.pos = 0
        self.prefix = 0
        self.asked = 0
        self.proving = False
        self.pc = []
        self.texts = False
        self.other_names = set()
        self.facts = []
        self.cache = {}
        self.pows = []
        self.inputs = {}
        self.funcs = {}
        self.choices = {}
        self.fresh_n = itertools.count()
        self.tokens = {}
        self.tok_of = {}
        self.loops = []
        self.log = []
        self.tallies = []
        self.sums = []
        self.subs = []
        self.reps = {}
        self.invariants = []
        self.norm_bounds = False
        self.extremes = []
        self.members = []
        self.universals = []
        self.witnesses = []
        self.orders = []
        self.keys_at = {}
        self.symsets = {}
        self.sqrt_defs = {}
        self.interp_idx = []
        self.root_hints = []
        self.undecided = set()
        self.searching = False
        self.round_exact = False
        self.onapp = {}
        self.sqrt_hints = []
        self.atan_hints = []
        self.algebra = False
        self.sym_ranges = None
        self.unforced = 0
        self.nobs = 0
        self.axiom(z3.And(PI > rv(Fraction(314159, 100000)), PI < rv(Fraction(31416, 10000))))

    # -- exploration
    def explore(self, fn):
        prev = _Eng.cur
        _Eng.cur = self
        try:
            while True:
                self.reset()
                self.newfrom = len(self.trail)
                self.paths += 1
                if self.paths > self.max_paths:
                    raise Budget("path budget exceeded")
                try:
                    fn()
                except PathEnd:
                    pass
                while self.trail and not (self.trail[-1][1]):
                    self.trail.pop()
                if not self.trail:
                    return
                v, alts, _, key = self.trail[-1]
                self.trail[-1] = (alts[0], alts[1:], False, key)
        finally:
            _Eng.cur = prev

    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time budget exceeded")

    def choose(self, options):
        """Explore every option (list) exhaustively."""
        self.tick()
        if self.pos < len(self.trail):
            v = self.replayed(len(options))
        else:
            v = options[0]
            self.trail.append((v, list(options[1:]), len(options) == 1, len(options)))
        self.decided(v)
        return v

    def replayed(self, key):
        """A path is re-executed up to its last decision: the decisions met on
        the way have to be the recorded ones."""
        v, _, _, k = self.trail[self.pos]
        if k != key:
            raise Unsupported("a re-executed path differs from the recorded one")
        return v

    def decided(self, v):
        if not self.trail[self.pos][2]:
            self.unforced += 1
        self.pos += 1
        self.prefix = hash((self.prefix, v))

    def answer(self, key, compute):
        """An answer that depends on a time limit or on what was proved: the
        same one whenever the path is re-executed."""
        if self.proving:
            return compute()
        self.asked += 1
        k = (self.prefix, self.asked)
        if k not in self.answers:
            self.proving = True
            try:
                self.answers[k] = (shape(key), compute())
            finally:
                self.proving = False
        was, v = self.answers[k]
        if was != shape(key):
            raise Unsupported("a re-executed path differs from the recorded one")
        return v

    def sides(self, c):
        """Whether c can hold and whether it can fail on this path."""
        fs = self.pc + self.facts
        if len(fs) > 60:
            nc = z3.simplify(z3.Not(c))
            for h in reversed(self.pc):
                if h.eq(c):
                    return True, False
                if h.eq(nc) or z3.is_not(h) and h.arg(0).eq(c):
                    return False, True
            near = self.relevant(fs, c, 1)
            for g, r in ((c, (False, True)), (nc, (True, False))):
                s = z3.Solver()
                s.set("timeout", 150)
                s.add(*near, g)
                t0 = time.time()
                a = WATCH.check(s, 150)
                _stat("z3-feas", time.time() - t0)
                if a == z3.unsat:
                    return r
        return self.feasible(c), self.feasible(z3.Not(c))

    def feasible(self, c):
        fm = self.pc + self.facts + [c]
        s = z3.Solver()
        s.set("timeout", int(400 * SLOW))
        s.add(*fm)
        t0 = time.time()
        r = WATCH.check(s, 400 * SLOW)
        _stat("z3-feas", time.time() - t0)
        if r == z3.unknown:
            try:
                r2, _ = _nlsat(fm, 400)
                return r2 != "unsat"
            except Unsupported:
                return True
        return r != z3.unsat

    def canon(self, z):
        """Replace arithmetic subterms that algebra shows constant zero."""
        if z3.is_app(z) and z.sort() == R and numeral(z) is None:
            if z.decl().kind() == z3.Z3_OP_ITE:
                return z3.simplify(z3.If(self.canon(z.arg(0)), self.canon(z.arg(1)), self.canon(z.arg(2))))
            if z.num_args() and z.decl().kind() != z3.Z3_OP_UNINTERPRETED and self.ident(z, z3.RealVal(0)):
                return z3.RealVal(0)
            return z
        if z3.is_bool(z) and z.num_args():
            if z.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) \
                    and z.arg(0).sort() == R:
                a, b = self.canon(z.arg(0)), self.canon(z.arg(1))
                return z3.simplify(z.decl()(a, b))
            if z.decl().kind() in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR):
                cs = [self.canon(c) for c in z.children()]
                return z3.simplify({z3.Z3_OP_NOT: lambda c: z3.Not(c[0]),
                                    z3.Z3_OP_AND: lambda c: z3.And(*c),
                                    z3.Z3_OP_OR: lambda c: z3.Or(*c)}[z.decl().kind()](cs))
        return z

    def branch(self, c):
        c = z3.simplify(c)
        if self.algebra and not z3.is_true(c) and not z3.is_false(c):
            c = self.canon(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.tick()
        if self.subs:
            return self._sub_branch(c)
        key = shape(c)
        if self.pos < len(self.trail):
            v = self.replayed(key)
        else:
            t, f = self.sides(c)
            if t and f:
                v, alts = True, [False]
            elif t:
                v, alts = True, []
            else:
                v, alts = False, []
                if not f:
                    raise PathEnd()
            self.trail.append((v, alts, not alts, key))
        self.decided(v)
        lit = c if v else z3.Not(c)
        if not any(h.eq(lit) for h in self.pc):
            self.pc.append(lit)
        return v

    # -- local exploration of a loop body (paths merged afterwards)
    def sub_begin(self):
        g = self.pos
        excl = self.choose([()])
        sub = {"trail": [], "pos": 0, "mark": len(self.pc), "excl": excl, "g": g,
               "n": 0}
        self.subs.append(sub)
        return sub

    def _sub_branch(self, c):
        sub = self.subs[-1]
        tr = sub["trail"]
        if sub["pos"] < len(tr):
            v = tr[sub["pos"]][0]
        else:
            pre = tuple(t[0] for t in tr)
            ok = []
            for v in (True, False):
                if pre + (v,) in sub["excl"]:
                    continue
                w = c if v else z3.Not(c)
                if self.answer(w, lambda: self.feasible(w)):
                    ok.append(v)
            if not ok:
                raise PathEnd()
            v = ok[0]
            tr.append((v, ok[1:]))
        sub["pos"] += 1
        self.pc.append(c if v else z3.Not(c))
        return v

    def sub_cond(self, sub):
        cs = self.pc[sub["mark"]:]
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def sub_next(self, sub):
        sub["n"] += 1
        if sub["n"] > 64:
            raise Unsupported("too many paths through a loop body")
        del self.pc[sub["mark"]:]
        tr = sub["trail"]
        while tr and not tr[-1][1]:
            tr.pop()
        if not tr:
            return False
        v, alts = tr[-1]
        tr[-1] = (alts[0], alts[1:])
        sub["pos"] = 0
        return True

    def sub_end(self, sub):
        assert self.subs[-1] is sub
        self.subs.pop()

    def sub_abort(self, sub):
        """The body left the loop early on this local path: keep this path and
        schedule one that explores the remaining ones."""
        while self.subs and self.subs[-1] is not sub:
            self.subs.pop()
        if self.subs:
            self.subs.pop()
        pre = tuple(t[0] for t in sub["trail"])
        v, alts, f, key = self.trail[sub["g"]]
        if pre and not alts:
            self.trail[sub["g"]] = (v, [tuple(sub["excl"]) + (pre,)], False, key)
        # decisions after the abort are recorded on the global trail

    # -- small proofs used by the rules
    def implied(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return self.answer(z, lambda: self._implied(z))

    def _implied(self, z):
        s = z3.Solver()
        s.set("timeout", int(500 * SLOW))
        s.add(*self.pc, *self.facts, z3.Not(z))
        t0 = time.time()
        r = WATCH.check(s, 500 * SLOW)
        _stat("z3-rule", time.time() - t0)
        return r == z3.unsat

    def check_inv(self, name, cond):
        """Preservation of a supplied invariant: failure is not a refutation."""
        before = len(self.results)
        self.check(name, cond)
        for o in self.results[before:]:
            if o.status == "refuted":
                o.status = "unknown"
                o.detail = "invariant not preserved: " + o.detail

    # -- representatives
    def rep_for(self, n, k=0):
        from .coll import Rep

        nz = z3.simplify(n.z)
        key = ("rep", nz.get_id(), k)
        if key not in self.cache:
            c = sum(1 for q in self.cache if q[0] == "rep")
            self.cache[key] = (Rep(f"r{c}", SymInt(nz)), nz)
        r = self.cache[key][0]
        self.reps[r.tok] = r
        return r

    def rep_of_size(self, rep):
        """Loops over the indices of a collection use its own arbitrary index."""
        if not isinstance(rep.n, SymInt):
            return
        nz = z3.simplify(rep.n.z)
        if not z3.is_int_value(nz):
            self.cache.setdefault(("rep", nz.get_id(), 0), (rep, nz))

    def rep_bounds(self, rep):
        key = ("repb", rep.name)
        if key not in self.cache:
            self.cache[key] = (True,)
            self.reps[rep.tok] = rep
            self.axiom(z3.And(rep.idx.z >= 0, rep.idx.z < rep.n.z))

    def reps_in(self, key):
        out = [r for t, r in self.reps.items() if t in key]
        if not out and "\u27ea" in key:
            raise Unsupported("unknown representative key")
        return out

    def find_invariant(self, loop, lst):
        for inv in self.invariants:
            if inv.applies(loop, lst):
                return inv
        return None

    def sub_forked(self, loop):
        return (not loop.local_mode) and self.unforced > loop.unforced0

    def body_fresh(self, z, start):
        for t in subterms([z]):
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if "!" in nm:
                    tail = nm.rsplit("!", 1)[1]
                    if tail.isdigit() and int(tail) >= start:
                        return True
        return False

    def prefix_sum(self, rep, d):
        """S with S(0)=0, S(k+1)=S(k)+d(k); equal summands share S."""
        d = z3.simplify(d, som=True)
        def found(r, e, S):
            if r is not rep:
                # the same sum over another arbitrary index of equal range
                key = ("sumat", S.name(), rep.name)
                if key not in self.cache:
                    self.cache[key] = (rep,)
                    k = rep.idx.z
                    self.axiom(S(k + 1) == S(k) + d)
            return S

        same = []
        for (r, e, S) in self.sums:
            if r is not rep:
                if not (r.n.z.eq(rep.n.z) or self.implied(r.n.z == rep.n.z)):
                    continue
                e = z3.simplify(z3.substitute(e, (r.idx.z, rep.idx.z)), som=True)
            if e.eq(d) or poly_zero(e - d):
                return found(r, e, S)
            same.append((r, e, S))
        from . import alg

        for (r, e, S) in same:
            if alg.has_div(e) or alg.has_div(d):
                if ratfun_zero(e, d, 3):
                    return found(r, e, S)
                continue
            if self.answer(e != d, lambda: _unsat_apart(self.hyps() + [e != d], 1500)):
                return found(r, e, S)
        S = z3.Function(f"sum{len(self.sums)}", z3.IntSort(), R)
        self.sums.append((rep, d, S))
        self.axiom(S(z3.IntVal(0)) == 0)
        k = rep.idx.z
        self.axiom(S(k + 1) == S(k) + d)

        def unfold(t):
            j = z3.simplify(t.arg(0))
            key = ("unfold", S.name(), j.get_id())
            if key in self.cache:
                return
            dj = z3.substitute(d, (rep.idx.z, j))
            self.cache[key] = (j, dj)
            self.axiom(z3.Implies(z3.And(j >= 0, j < rep.n.z), S(j + 1) == S(j) + dj))
            self.reinstantiate(dj)

        self.onapp[S.name()] = unfold
        return S

    def fold_sum(self, z, rep):
        """S(k) + d(k) written as S(k + 1)."""
        if z.sort() != R:
            return None
        for (r, d, S) in self.sums:
            sk = S(rep.idx.z)
            if not any(t.eq(sk) for t in subterms([z])):
                continue
            dk = d if r is rep else z3.substitute(d, (r.idx.z, rep.idx.z))
            rest = z3.simplify(z - sk - dk, som=True)
            sub = subterms([rest])
            if any(t.eq(sk) for t in sub) or len(sub) > len(subterms([z])):
                continue
            return z3.simplify(rest + S(rep.idx.z + 1), som=True)
        return None

    def renorm(self, z):
        for _ in range(3):
            pairs = self.renormal([z])
            if not pairs:
                break
            z = z3.substitute(z, *pairs)
        return z

    def renormal(self, zs):
        """Applications whose arguments are no longer in normal form."""
        pairs = []
        for t in uf_apps(zs):
            if any(a.sort() != R for a in t.children()):
                continue
            args = [self.normal(a) for a in t.children()]
            if any(not a.eq(b) for a, b in zip(args, t.children())):
                pairs.append((t, t.decl()(*args)))
        return pairs

    def reinstantiate(self, z):
        """Facts that come with function applications, for terms obtained by
        replacing the arbitrary index."""
        for t in subterms([z]):
            if not z3.is_app(t) or t.num_args() == 0 or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            d = t.decl()
            nm = d.name()
            if d.eq(SQRT):
                self.app_sqrt(t.arg(0))
            elif d.eq(SIN) or d.eq(COS):
                self.app_trig(t.arg(0))
            elif d.eq(ATAN2):
                self.app_atan2(t.arg(0), t.arg(1))
            elif nm in self.onapp:
                self.onapp[nm](t)

    def universal(self, n, f):
        """f(j) holds for every 0 <= j < n."""
        self.universals.append((n, f))
        self._inst(n, f, self.witnesses)
        if self.witnesses and not self.feasible(z3.BoolVal(True)):
            raise PathEnd()

    def witness(self, j):
        """Use every universally quantified fact at index j, now and later."""
        if any(w.z.eq(j.z) for w in self.witnesses):
            return
        self.witnesses.append(j)
        self.inst_universals([j])
        for o in self.orders:
            self._order(o, [j], self.witnesses)

    def increasing(self, n, f):
        """f(0) < f(1) < ... < f(n-1)."""
        self.orders.append((n, f))
        self._order((n, f), self.witnesses, self.witnesses)

    def _order(self, o, aa, bb):
        n, f = o
        nz = to_int(n)
        for a in aa:
            for b in bb:
                for x, y in ((a, b), (b, a)):
                    if not x.z.eq(y.z):
                        self.axiom(z3.Implies(z3.And(x.z >= 0, x.z < y.z, y.z < nz),
                                              to_real(f(x)) < to_real(f(y))))

    def _inst(self, n, f, idxs):
        for j in idxs:
            jz = to_int(j)
            self.axiom(z3.Implies(z3.And(jz >= 0, jz < to_int(n)), to_bool(f(j))))

    def inst_universals(self, idxs):
        for n, f in list(self.universals):
            for j in idxs:
                jz = to_int(j)
                self.axiom(z3.Implies(z3.And(jz >= 0, jz < to_int(n)), to_bool(f(j))))
        for v, val, fx in list(self.extremes):
            for j in idxs:
                jz = to_int(j)
                self.axiom(z3.Implies(z3.And(jz >= 0, jz < v._n.z), to_bool(fx(j))))

    def event(self, ev):
        ctx = tuple((L.rep, L.serial) for L in self.loops if L.body and not L.closed)
        for L in self.loops:
            if L.local_mode and L.body:
                raise Unsupported("logged call in a merged loop body")
        self.log.append((ctx, ev))

    # -- logic
    def axiom(self, z):
        self.facts.append(z)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        z = z3.simplify(to_bool(c))
        if z3.is_false(z):
            raise PathEnd()
        if z3.is_true(z):
            return
        self.pc.append(z)

    def fresh(self, base, sort="real"):
        n = f"{base}!{next(self.fresh_n)}"
        if sort == "real":
            return SymReal(z3.Real(n))
        if sort == "int":
            return SymInt(z3.Int(n))
        return SymBool(z3.Bool(n))

    def is_new(self):
        """Obligations on a re-executed prefix were already discharged."""
        return self.pos >= self.newfrom

    def record(self, name, status, **k):
        if self.is_new():
            if self.texts and status == "refuted":
                k["exact"] = False
            self.results.append(Obligation(name, status, **k))

    def check(self, name, cond, assume_after=True):
        self.nobs += 1
        if isinstance(cond, bool) or type(cond).__name__ in ("bool_", "bool"):
            cond = bool(cond)
            if not self.is_new():
                return cond
            if cond:
                self.record(name, "proved", backend="evaluation")
                return True
            # false on this path: refuted if the path is reachable
            self._refute(name, z3.BoolVal(False))
            return False
        z = to_bool(cond)
        if self.is_new():
            self.tick()
            self._prove(name, z)
        if assume_after:
            self.facts.append(z)
        return True

    def _refute(self, name, z):
        self._prove(name, z)

    def hyps(self):
        ax = []
        # monotonicity of exponentials with a common base
        for (b1, e1, v1), (b2, e2, v2) in itertools.combinations(self.pows, 2):
            if b1.eq(b2):
                ax.append(z3.Implies(z3.And(b1 > 1, e1 < e2), v1 < v2))
                ax.append(z3.Implies(z3.And(b1 > 1, e2 < e1), v2 < v1))
                ax.append(z3.Implies(z3.And(b1 > 0, b1 < 1, e1 < e2), v1 > v2))
                ax.append(z3.Implies(z3.And(b1 > 0, b1 < 1, e2 < e1), v2 > v1))
                ax.append(z3.Implies(e1 == e2, v1 == v2))
                ax.append(z3.Implies(z3.And(b1 > 0, e1 == -e2), v1 * v2 == 1))
        return self.pc + self.facts + ax

    def _parts(self, z):
        z = z3.simplify(z) if z3.is_true(z3.simplify(z)) else z
        if z3.is_and(z):
            for c in z.children():
                yield from self._parts(c)
        else:
            yield z

    def equations(self):
        return [h for a in self.pc + self.facts for h in self._parts(a)
                if z3.is_eq(h) and h.arg(0).sort() == R]

    def ident(self, a, b):
        """a == b by algebra alone (used to recognise hinted values)."""
        if poly_zero(a - b):
            return True
        eqs = self.equations()
        return ideal_member(a == b, eqs, 5, gb=False)

    def relevant(self, hyps, goal, rounds=None):
        """Cone of influence by shared uninterpreted symbols."""

        def syms(t):
            known = self.symsets.get(t.get_id())
            if known is not None:
                return known[1]
            r = set()
            for s in subterms([t]):
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(s.get_id() if s.num_args() else s.decl().name())
            self.symsets[t.get_id()] = (t, r)
            return r

        hs = [(h, syms(h)) for h in hyps]
        cur = syms(goal)
        sel, changed = set(), True
        while changed and rounds != 0:
            changed = False
            new = set(cur)
            for k, (h, s) in enumerate(hs):
                if k not in sel and (s & cur):
                    sel.add(k)
                    if s - new:
                        new |= s
                        changed = True
            cur = new
            if rounds is not None:
                rounds -= 1
        return [h for k, (h, s) in enumerate(hs) if k in sel]

    def _prove(self, name, z):
        was, self.proving = self.proving, True
        try:
            self._prove0(name, z)
        finally:
            self.proving = was

    def _prove0(self, name, z):
        t0 = time.time()
        worst = None
        for part in self._parts(z):
            st, be, model, exact = self._prove1(part)
            if st != "proved":
                worst = (st, be, model, exact, part)
                break
            last = be
        dt = time.time() - t0
        if worst is None:
            self.record(name, "proved", backend=last, secs=dt)
        else:
            st, be, model, exact, part = worst
            d = str(z3.simplify(part))
            self.record(name, st, backend=be, secs=dt, model=model, exact=exact,
                        detail=d[:1500])

    def _prove1(self, goal):
        """-> (status, backend, model, exact)"""
        g = goal
        if z3.is_eq(g) and g.arg(0).sort() == R:
            if poly_zero(g.arg(0) - g.arg(1)):
                return "proved", "normal-form", None, True
        gs = z3.simplify(g)
        if z3.is_true(gs):
            return "proved", "simplify", None, True
        hy = self.hyps()
        full = hy + [z3.Not(g)]
        exact = lambda: not uses_incomplete(self.relevant(hy, g) + [g])
        if self.algebra and z3.is_eq(g) and g.arg(0).sort() == R:
            if ideal_member(g, self.equations(), 10, gb=False):
                return "proved", "sympy-ideal", None, True
        r, m = _z3default(full, min(1500, self.timeout))
        if r == "unsat":
            return "proved", "z3", None, True
        if r == "sat":
            return self._sat(m, exact())
        if z3.is_eq(g) and g.arg(0).sort() == R:
            if ratfun_zero(g.arg(0), g.arg(1)):
                return "proved", "sympy-cancel", None, True
            eqs = self.equations()
            if eqs and ideal_member(g, eqs):
                return "proved", "sympy-ideal", None, True
        n0 = 0
        for d in (1, 2, 3):
            near = self.relevant(hy, g, d)
            if len(near) == n0 or len(near) == len(hy):
                break
            n0 = len(near)
            r, m = _z3default(near + [z3.Not(g)], 800)
            if r == "unsat":
                return "proved", "z3", None, True
        if self._relaxed(hy, g):
            return "proved", "z3-nlsat", None, True
        for hyp, is_full in ((self.relevant(hy, g), False), (hy, True)):
            if not is_full and len(hyp) == len(hy):
                continue
            fm = hyp + [z3.Not(g)]
            try:
                r, m = _nlsat(fm, self.timeout)
            except Unsupported:
                r, m = "unknown", None
            if r == "unsat":
                return "proved", "z3-nlsat", None, True
            if r == "sat" and is_full:
                return self._sat(m, exact())
            self.tick()
        r, m = _z3default(full, self.timeout)
        if r == "unsat":
            return "proved", "z3", None, True
        if r == "sat":
            return self._sat(m, exact())
        r, m = _cvc5(full, self.timeout)
        if r == "unsat":
            return "proved", "cvc5", None, True
        return "unknown", "", None, exact()

    def _relaxed(self, hy, g):
        from . import alg

        keep = [h for a in hy for h in self._parts(a) if h.get_id() not in self.sqrt_defs]
        n0 = -1
        for d in (2, 4, None):
            near = self.relevant(keep, g, d)
            if len(near) == n0:
                continue
            n0 = len(near)
            rx = alg.Relax()
            fm = [rx.form(h, True) for h in near] + [rx.form(g, False)]
            r, _ = _nlsat(fm + rx.side, 1500)
            if r == "unsat":
                return True
            self.tick()
        return False

    def _sat(self, m, exact):
        return "refuted", "z3", self.extract(m), exact

    def extract(self, m):
        """Model -> plain JSON of the named inputs."""
        out = {"values": {}, "funcs": {}, "choices": dict(self.choices)}
        try:
            for n, t in self.inputs.items():
                v = m.eval(t)
                if t.sort() == z3.BoolSort():
                    out["values"][n] = z3.is_true(v)
                elif t.sort() == z3.IntSort():
                    out["values"][n] = v.as_long()
                else:
                    out["values"][n] = fnum(v)
            for n, apps in self.funcs.items():
                pts = []
                for args, vals in apps:
                    pts.append([[fnum(m.eval(a)) for a in args],
                                [fnum(m.eval(v)) for v in vals]])
                out["funcs"][n] = pts
        except Exception as e:
            out["incomplete"] = str(e)
        return out

    def _decided(self, c):
        return self.answer(c, lambda: self._decide(c))

    def _decide(self, c):
        apps = lambda z: any(z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in subterms([z]))
        """1 or 0 where the path settles c, from the facts about its terms
        where these suffice."""
        fs = self.pc + self.facts
        known = None
        if len(fs) > 60:
            for d in (1, 3):
                near = self.relevant(fs, c, d)
                if d == 1:
                    # undecided before, and nothing was learnt since
                    known = (c.hash(), tuple(h.get_id() for h in near))
                    if known in self.undecided:
                        return None
                open_ = 0
                for v, g in ((1, z3.Not(c)), (0, c)):
                    s = z3.Solver()
                    s.set("timeout", 150)
                    s.add(*near, g)
                    t0 = time.time()
                    r = WATCH.check(s, 150)
                    _stat("z3-rule", time.time() - t0)
                    if r == z3.unsat:
                        return v
                    open_ += r == z3.sat
                if open_ == 2 and not apps(c):
                    break
            else:
                open_ = 0
            if open_ == 2:
                self.undecided.add(known)
                return None
        r = 1 if self.implied(c) else 0 if self.implied(z3.Not(c)) else None
        if r is None and known:
            self.undecided.add(known)
        return r

    # -- known functions
    def settle(self, z):
        """Drop alternatives that the current path rules out."""
        for _ in range(12):
            for t in subterms([z]):
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() == R:
                    key = ("settle", t.arg(0).get_id(), len(self.pc))
                    if key not in self.cache:
                        c = t.arg(0)
                        self.cache[key] = (self._decided(c), c)
                    r = self.cache[key][0]
                    if r is not None:
                        z = z3.substitute(z, (t, t.arg(1) if r else t.arg(2)))
                        break
            else:
                break
        return z

    def normal(self, z):
        from . import alg

        z = z3.simplify(self.settle(z), som=True)
        if not alg.has_div(z):
            return z
        key = ("normal", z.get_id())
        if key not in self.cache:
            t = _timed(lambda: alg.canon_term(z), 3)
            self.cache[key] = (z3.simplify(t, som=True) if t is not None else z, z)
        return self.cache[key][0]

    def app_sqrt(self, z):
        zs = self.normal(z)
        key = ("sqrt", zs.get_id())
        if key not in self.cache:
            for h in self.sqrt_hints:
                if self.ident(zs, h * h):
                    self.cache[key] = (h, zs)
                    return h
            t = SQRT(zs)
            self.cache[key] = (t, zs)
            d = t * t == zs
            self.sqrt_defs[d.get_id()] = d
            self.axiom(z3.And(t >= 0, d))
            if self.norm_bounds:
                # the root of a sum of squares bounds each of the roots
                for x in squares(z):
                    self.axiom(z3.And(x <= t, -x <= t))
        return self.cache[key][0]

    def app_trig(self, zs):
        key = ("trig", zs.get_id())
        if key not in self.cache:
            s, c = SIN(zs), COS(zs)
            self.cache[key] = (s, c, zs)
            self.axiom(z3.And(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
            # sign on the first quadrants, and values at multiples of pi/2
            self.axiom(z3.Implies(zs == 0, z3.And(s == 0, c == 1)))
            self.axiom(z3.Implies(2 * zs == PI, z3.And(s == 1, c == 0)))
            self.axiom(z3.Implies(2 * zs == -PI, z3.And(s == -1, c == 0)))
            self.axiom(z3.Implies(zs == PI, z3.And(s == 0, c == -1)))
            self.axiom(z3.Implies(zs == 2 * PI, z3.And(s == 0, c == 1)))
            self.axiom(z3.Implies(z3.And(2 * zs < PI, 2 * zs > -PI), c > 0))
            self.axiom(z3.Implies(z3.And(zs > 0, zs < PI), s > 0))
            self.axiom(z3.Implies(z3.And(zs < 0, zs > -PI), s < 0))
            self.axiom(z3.Implies(z3.And(2 * zs > PI, 2 * zs < 3 * PI), c < 0))
            q = numeral(z3.simplify(z3.substitute(zs, (PI, z3.RealVal(1)))))
            if q is not None and numeral(z3.simplify(z3.substitute(zs, (PI, z3.RealVal(0))))) == 0:
                import math

                if q % 1 in (Fraction(1, 4), Fraction(3, 4)):
                    self.axiom(s == c if q % 1 == Fraction(1, 4) else s == -c)
                eps = Fraction(1, 10 ** 12)
                for f, v in ((s, math.sin(math.pi * float(q))), (c, math.cos(math.pi * float(q)))):
                    self.axiom(z3.And(f <= rv(Fraction(v) + eps), f >= rv(Fraction(v) - eps)))
        s, c, _ = self.cache[key]
        return s, c

    def app_tan(self, z):
        zs = z3.simplify(z, som=True)
        key = ("tan", zs.get_id())
        if key not in self.cache:
            s = to_real(sym.m_sin(SymReal(zs)))
            c = to_real(sym.m_cos(SymReal(zs)))
            t = TAN(zs)
            self.cache[key] = (t, zs)
            self.axiom(z3.Implies(c != 0, t * c == s))
            # pi/2 is not representable: the library returns a huge finite value
            big = rv(Fraction(10 ** 15))
            self.axiom(z3.Implies(c == 0, z3.Or(t >= big, t <= -big)))
            self.axiom(z3.Implies(2 * zs == PI, t >= big))
            self.axiom(z3.Implies(2 * zs == -PI, t <= -big))
        return self.cache[key][0]

    def app_atan2(self, y, x):
        key = ("atan2", z3.simplify(y).get_id(), z3.simplify(x).get_id())
        if key not in self.cache:
            for phi, k, sn, cn in self.atan_hints:
                if self.ident(y, k * sn) and self.ident(x, k * cn):
                    self.cache[key] = (phi,)
                    return phi
            t = ATAN2(z3.simplify(y), z3.simplify(x))
            self.cache[key] = (t, z3.simplify(y), z3.simplify(x))
            r = self.app_sqrt(x * x + y * y)
            s, c = self.app_trig(t)
            self.axiom(z3.Implies(z3.Or(x != 0, y != 0), z3.And(c * r == x, s * r == y)))
            self.axiom(z3.And(t > -PI, t <= PI))
            self.axiom(z3.Implies(x > 0, z3.And(2 * t < PI, 2 * t > -PI)))
            self.axiom(z3.Implies(z3.And(x > 0, y == 0), t == 0))
            self.axiom(z3.Implies(y > 0, t > 0))
            self.axiom(z3.Implies(y < 0, t < 0))
        return self.cache[key][0]

    def app_pow(self, b, e):
        b, e = z3.simplify(b), z3.simplify(e, som=True)
        key = ("pow", b.get_id(), e.get_id())
        if key not in self.cache:
            t = POW(b, e)
            self.cache[key] = (t, b, e)
            for b1, e1, t1 in self.pows:
                if b1.eq(b):
                    self.axiom(z3.Implies(z3.And(b > 1, e < e1), t < t1))
                    self.axiom(z3.Implies(z3.And(b > 1, e > e1), t > t1))
                    if z3.simplify(e + e1).eq(z3.RealVal(0)):
                        self.axiom(z3.Implies(b > 0, t * t1 == 1))
                if e1.eq(e):
                    self.axiom(z3.Implies(z3.And(b > 0, e > 0, b < b1), t < t1))
                    self.axiom(z3.Implies(z3.And(b1 > 0, e > 0, b1 < b), t1 < t))
            # the value half way between two exponents is their geometric mean
            same = [(e1, t1) for b1, e1, t1 in self.pows if b1.eq(b)] + [(e, t)]
            for i, (u, tu) in enumerate(same):
                for v, tv in same[:i]:
                    for w, tw in same if u.eq(e) or v.eq(e) else [(e, t)]:
                        if z3.simplify(u + v - 2 * w, som=True).eq(z3.RealVal(0)):
                            self.axiom(z3.Implies(b > 0, tu * tv == tw * tw))
            self.pows.append((b, e, t))
            self.axiom(z3.Implies(b > 0, t > 0))
            self.axiom(z3.Implies(e == 0, t == 1))
            self.axiom(z3.Implies(e == 1, t == b))
            self.axiom(z3.Implies(z3.And(e == -1, b != 0), t * b == 1))
            self.axiom(z3.Implies(b == 1, t == 1))
            self.axiom(z3.Implies(z3.And(b == 0, e > 0), t == 0))
            self.axiom(z3.Implies(z3.And(b > 1, e > 0), t > 1))
            self.axiom(z3.Implies(z3.And(b > 1, e < 0), t < 1))
            self.axiom(z3.Implies(z3.And(b > 1, e < 1), t < b))
            self.axiom(z3.Implies(z3.And(b > 1, e > 1), t > b))
            self.axiom(z3.Implies(z3.And(b > 1, e > -1), t * b > 1))
            self.axiom(z3.Implies(z3.And(b > 0, b < 1, e > 0), t < 1))
            self.axiom(z3.Implies(z3.And(b > 0, b < 1, e < 0), t > 1))
        return self.cache[key][0]

    def app_round(self, z, n):
        if self.round_exact:
            self.assumed.add(f"rounding to {n} digits is treated as exact")
            return z
        zs = z3.simplify(z, som=True)
        key = ("round", zs.get_id(), n)
        if key not in self.cache:
            t = ROUND(zs, z3.IntVal(n))
            self.cache[key] = (t, zs)
            h = rv(Fraction(1, 2) / Fraction(10) ** n)
            self.axiom(z3.And(t - zs <= h, zs - t <= h))
            self.axiom(z3.And(*[z3.And(z3.Implies(zs >= k, t >= k), z3.Implies(zs <= k, t <= k)) for k in (0, 1)]))
            self.axiom(z3.Implies(zs == 0, t == 0))
            self.axiom(z3.Implies(zs == 1, t == 1))
        return self.cache[key][0]

    # -- strings that carry symbolic numbers
    def token(self, v):
        z = z3.simplify(v.z)
        key = (type(v).__name__, z.get_id())
        if key not in self.tok_of:
            self.cache[("token", z.get_id())] = (z,)
            t = f"⟦{len(self.tokens)}{self.index_family(v)}⟧"
            self.tok_of[key] = t
            self.tokens[t] = v
        return self.tok_of[key]

    def key_at(self, rep, z):
        """Key of the element of rep at index z."""
        z = z3.simplify(z)
        for t, (r, j) in self.keys_at.items():
            if r is rep and j.z.eq(z):
                return t
        t = f"⟦@{len(self.keys_at)}⟧"
        self.keys_at[t] = (rep, SymInt(z))
        return t

    def index_family(self, v):
        """Token of the collection v numbers the elements of, one to one."""
        from .coll import mentions

        z = v.z
        if z.sort() != z3.IntSort():
            return ""
        for t in self.tallies:
            d = z3.simplify(z - t.count(t.kind(), t.rep.idx).z, som=True)
            if z3.is_int_value(d):
                return t.rep.tok
        for r in self.reps.values():
            if mentions(z, r.idx.z):
                d = z3.simplify(z3.substitute(z, (r.idx.z, r.idx.z + 1)) - z, som=True)
                if z3.is_int_value(d) and d.as_long() != 0:
                    return r.tok
        return ""

    def untoken(self, s):
        return self.tokens.get(s)
