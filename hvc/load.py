"""Load the project's source for verification.

Every module of the package is read from the working tree on every run, parsed,
instrumented and executed in this interpreter.  The instrumentation is purely
mechanical and is the complete list of what differs from the text in /repo:

 1. a module sees the verifier's versions of the numeric/collection builtins
    and of third-party modules (shims.py) - they extend the originals to
    symbolic values and behave identically on ordinary ones;
 2. list/dict displays and comprehensions build the verifier's list/dict;
 3. every `for` loop asks the verifier for its iterator, which is the ordinary
    one unless the iterated object is symbolic;
 4. attribute and item stores are reported to the verifier beforehand;
 5. a dict passed as keyword arguments is converted to an ordinary dict first;
 6. a `while` loop that counts a name up by one to a bound is run as the `for`
    loop over that range (the bound is checked to stay what it was); other
    `while` loops report every iteration.

Nothing is dropped or rewritten by hand.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

SRC = os.environ.get("HVC_SRC", "/repo/src")
PKG = "hypervehicle"

_MUT = {"append", "extend", "insert", "pop", "update", "clear", "remove", "sort",
        "reverse", "setdefault", "popitem"}


def _hv(attr):
    return ast.Attribute(ast.Name("__hv__", ast.Load()), attr, ast.Load())


def _call(attr, *args):
    return ast.Call(_hv(attr), list(args), [])


def _pure(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def _lam(e):
    return ast.Lambda(
        ast.arguments([], [], None, [], [], None, []), e
    )


def _load(e):
    e = ast.parse(ast.unparse(e), mode="eval").body
    return e


def _store(e):
    e = _load(e)
    e.ctx = ast.Store()
    return e


class _Places(ast.NodeVisitor):
    """Lvalues assigned / containers mutated inside a loop body."""

    def __init__(self):
        self.assign = {}
        self.mutate = {}

    def _target(self, t):
        if isinstance(t, ast.Name):
            self.assign[t.id] = t
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self._target(x)
        elif isinstance(t, ast.Starred):
            self._target(t.value)
        elif isinstance(t, ast.Attribute):
            if _pure(t):
                self.assign[ast.unparse(t)] = t
        elif isinstance(t, ast.Subscript):
            if _pure(t.value):
                self.mutate[ast.unparse(t.value)] = t.value

    def visit_Assign(self, n):
        for t in n.targets:
            self._target(t)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self._target(n.target)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self._target(n.target)
        self.generic_visit(n)

    def visit_For(self, n):
        self._target(n.target)
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        self._target(n.target)
        self.generic_visit(n)

    def visit_With(self, n):
        for i in n.items:
            if i.optional_vars is not None:
                self._target(i.optional_vars)
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in _MUT and _pure(f.value):
            self.mutate[ast.unparse(f.value)] = f.value
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.assign[n.name] = ast.Name(n.name, ast.Load())

    def visit_Lambda(self, n):
        pass

    def visit_ClassDef(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators:
            self.visit(g.iter)

    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.n = 0

    # ---- scopes
    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        self.stack.append(("f", n.name))
        n.body = self._body(n.body)
        self.stack.pop()
        return n

    def visit_ClassDef(self, n):
        self.stack.append(("c", n.name))
        n.body = [self.visit(b) for b in n.body]
        self.stack.pop()
        return n

    def infun(self):
        return bool(self.stack) and self.stack[-1][0] == "f"

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # ---- calls
    def visit_Call(self, n):
        self.generic_visit(n)
        for k in n.keywords:
            if k.arg is None:
                k.value = _call("kw", k.value)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        return _call("fs", n)

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n

    # ---- displays
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return _call("L", n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return _call("D", n)

    def _gens(self, n):
        for g in n.generators:
            g.iter = _call("ci", g.iter)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return _call("lc", _lam(self._gens(n)))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return _call("dc", _lam(self._gens(n)))

    def visit_GeneratorExp(self, n):
        # generator arguments are materialised as lists (evaluation order of
        # the consumers used here does not depend on laziness)
        self.generic_visit(n)
        lc = ast.ListComp(n.elt, n.generators)
        return _call("lc", _lam(self._gens(lc)))

    # ---- writes
    def _writes(self, targets):
        out = []
        for t in targets:
            if isinstance(t, (ast.Tuple, ast.List)):
                out += self._writes(t.elts)
            elif isinstance(t, ast.Attribute) and _pure(t.value):
                out.append(
                    ast.Expr(_call("w", _load(t.value), ast.Constant(t.attr)))
                )
            elif isinstance(t, ast.Subscript) and _pure(t.value):
                out.append(ast.Expr(_call("w", _load(t.value), ast.Constant(None))))
        return out

    def visit_Assign(self, n):
        if not self.infun():
            n.value = self.visit(n.value)
            return n
        w = self._writes(n.targets)
        self.generic_visit(n)
        return w + [n]

    def visit_AugAssign(self, n):
        if not self.infun():
            n.value = self.visit(n.value)
            return n
        w = self._writes([n.target])
        self.generic_visit(n)
        return w + [n]

    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value is not None else None
        if not self.infun() or n.value is None:
            return n
        return self._writes([n.target]) + [n]

    def visit_arguments(self, n):
        # annotations are not evaluated differently; defaults are
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n

    # ---- loops
    def visit_While(self, n):
        if self.infun() and _counting(n):
            return self._count(n)
        self.n += 1
        w = f"__hvw{self.n}"
        n.test = self.visit(n.test)
        n.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(w, ast.Load()), "tick", ast.Load()),
                                    [], []))] + self._body(n.body)
        n.orelse = self._body(n.orelse)
        out = [ast.Assign([ast.Name(w, ast.Store())], _call("wloop")), n]
        ast.copy_location(out[0], n)
        return out

    def _count(self, n):
        """`while i < bound: ...; i += 1` as a loop over the range."""
        self.n += 1
        lo, hi = f"__hva{self.n}", f"__hvb{self.n}"
        i, bound = n.test.left.id, n.test.comparators[0]
        step = isinstance(n.test.ops[0], ast.LtE)

        def stop():
            e = _load(bound)
            return ast.BinOp(e, ast.Add(), ast.Constant(1)) if step else e

        def name(k): return ast.Name(k, ast.Load())

        loop = ast.For(
            ast.Name(i, ast.Store()), _call("wrange", name(lo), name(hi)),
            n.body[:-1] + [ast.Expr(_call("wsame", name(hi), stop()))],
            [ast.Assign([ast.Name(i, ast.Store())], _call("wend", name(lo), name(hi)))] + n.orelse,
            None)
        ast.copy_location(loop, n)
        ast.fix_missing_locations(loop)
        start = [ast.Assign([ast.Name(lo, ast.Store())], name(i)),
                 ast.Assign([ast.Name(hi, ast.Store())], stop())]
        for b in start:
            ast.copy_location(b, n)
            ast.fix_missing_locations(b)
        return self._body(start) + self.visit_For(loop, counted=True)

    def visit_For(self, n, counted=False):
        if not self.infun():
            self.generic_visit(n)
            return n
        pl = _Places()
        for b in n.body:
            pl.visit(b)
        tg = _Places()
        tg._target(n.target)
        self.n += 1
        v = f"__hvl{self.n}"
        # attributes of the element, or of objects made in the body, belong to
        # the iteration (an object carried over from before is not tracked)
        assigns = [(k, e) for k, e in pl.assign.items()
                   if k not in tg.assign and not (
                       "." in k and (k.split(".")[0] in tg.assign or k.split(".")[0] in pl.assign))]
        mut = [(k, e) for k, e in pl.mutate.items() if k not in pl.assign]
        targets = [(k, e) for k, e in tg.assign.items() if isinstance(e, ast.Name)]
        name = ".".join(x[1] for x in self.stack)
        line = n.lineno

        def L(): return ast.Name(v, ast.Load())

        setup = ast.Assign(
            [ast.Name(v, ast.Store())],
            _call("loop", self.visit(n.iter), ast.Constant(f"{self.mod}:{name}"),
                  ast.Constant(line)),
        )
        places = ast.If(
            ast.Attribute(L(), "sym", ast.Load()),
            [ast.Expr(ast.Call(
                ast.Attribute(L(), "places", ast.Load()),
                [ast.List([ast.Tuple([ast.Constant(k), _lam(_load(e))], ast.Load())
                           for k, e in assigns], ast.Load()),
                 ast.List([ast.Tuple([ast.Constant(k), _lam(_load(e))], ast.Load())
                           for k, e in mut], ast.Load()),
                 ast.List([ast.Tuple([ast.Constant(k), _lam(_load(e))], ast.Load())
                           for k, e in targets], ast.Load()),
                 ast.Constant(_exits(n.body)),
                 ast.Constant(_fresh(n.body))],
                []))],
            [],
        )

        def setters():
            return [
                ast.Assign([_store(e)], ast.Call(ast.Attribute(L(), "val", ast.Load()),
                                                 [ast.Constant(k)], []))
                for k, e in assigns
            ]

        head = ast.If(ast.Attribute(L(), "sym", ast.Load()), setters() + [ast.Pass()], [])
        after = ast.If(
            ast.Attribute(L(), "sym", ast.Load()),
            setters()
            + [ast.Assign([_store(e)], ast.Call(ast.Attribute(L(), "target", ast.Load()),
                                                [ast.Constant(k)], []))
               for k, e in targets if not counted]
            + [ast.Expr(ast.Call(ast.Attribute(L(), "done", ast.Load()), [], []))],
            [],
        )
        loop = ast.For(n.target, L(), [head] + self._body(n.body), self._body(n.orelse), None)
        guarded = ast.Try(
            [loop], [], [],
            [ast.Expr(ast.Call(ast.Attribute(L(), "leave", ast.Load()), [], []))],
        )
        out = [setup, places, guarded, after]
        for o in out:
            ast.copy_location(o, n)
        return out


def _counting(n):
    """A while loop that counts one name up, by one at the end of every
    iteration, to a bound its body does not touch."""
    t = n.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE))
            and isinstance(t.left, ast.Name) and len(n.body) > 1):
        return False
    i, last = t.left.id, n.body[-1]
    if isinstance(last, ast.AugAssign):
        up = isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) \
            and last.target.id == i and _one(last.value)
    elif isinstance(last, ast.Assign) and len(last.targets) == 1:
        v = last.value
        up = isinstance(last.targets[0], ast.Name) and last.targets[0].id == i \
            and isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) \
            and isinstance(v.left, ast.Name) and v.left.id == i and _one(v.right)
    else:
        up = False
    if not up:
        return False
    for x in ast.walk(t.comparators[0]):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id == "len"):
                return False
        elif not isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator,
                                ast.expr_context, ast.Subscript)):
            return False
    pl = _Places()
    for b in n.body[:-1]:
        pl.visit(b)
        if any(isinstance(x, (ast.Continue, ast.Global, ast.Nonlocal)) for x in ast.walk(b)):
            return False
    names = {ast.unparse(x) for x in ast.walk(t.comparators[0]) if isinstance(x, (ast.Name, ast.Attribute))}
    sub = any(isinstance(x, ast.Subscript) for x in ast.walk(t.comparators[0]))
    return i not in pl.assign and i not in names and not names & set(pl.assign) \
        and not (sub and names & set(pl.mutate))


def _one(e):
    return isinstance(e, ast.Constant) and e.value == 1 and isinstance(e.value, int)


def _fresh(body):
    """Names every iteration assigns before it reads them."""
    seen, out = set(), []
    for b in body:
        names = [x.id for x in ast.walk(b) if isinstance(x, ast.Name)]
        if isinstance(b, ast.Assign):
            read = {x.id for x in ast.walk(b.value) if isinstance(x, ast.Name)}
            for t in b.targets:
                if isinstance(t, ast.Name) and t.id not in seen and t.id not in read:
                    out.append(t.id)
        seen.update(names)
    return tuple(out)


def _exits(body):
    """The loop body can leave the loop by break, return or raise."""
    for b in body:
        if isinstance(b, (ast.Break, ast.Return, ast.Raise)):
            return True
        if isinstance(b, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        nested = isinstance(b, (ast.For, ast.While))
        for f in ("body", "orelse", "finalbody", "handlers"):
            sub = getattr(b, f, None)
            if not isinstance(sub, list):
                continue
            sub = [s for h in sub for s in (h.body if isinstance(h, ast.ExceptHandler) else [h])]
            if nested and f == "body":
                if any(isinstance(x, (ast.Return, ast.Raise)) for s in sub for x in ast.walk(s)):
                    return True
            elif _exits(sub):
                return True
    return False


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, hv, src=None):
        self.hv = hv
        self.src = src or SRC
        self.files = {}

    def path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None, False

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        p, pkg = self.path(name)
        if p is None:
            return None
        return importlib.util.spec_from_file_location(
            name, p, loader=self,
            submodule_search_locations=[os.path.dirname(p)] if pkg else None,
        )

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        p, _ = self.path(module.__name__)
        with open(p) as fh:
            text = fh.read()
        tree = ast.parse(text, p)
        tree = Instrument(module.__name__).visit(tree)
        ast.fix_missing_locations(tree)
        self.files[p] = text
        code = compile(tree, p, "exec")
        module.__dict__["__hv__"] = self.hv
        module.__dict__["__builtins__"] = self.hv.builtins
        exec(code, module.__dict__)


def load(hv, src=None):
    """Fresh instrumented copy of the package; returns the finder."""
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + ".")]:
        del sys.modules[k]
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    f = Finder(hv, src)
    sys.meta_path.insert(0, f)
    return f
