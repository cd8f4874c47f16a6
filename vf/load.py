"""Loads the real source of /repo, applying a fixed list of rewrites, and runs it over symbolic values.

Rewrites (everything else is executed as written, by CPython):
  * module imports resolve to models (numpy, scipy.special, time, ...) or to other modules of /repo loaded the same way;
  * float literals become exact rationals (decimal reading);
  * `for` / `while` / comprehensions over symbolic ranges go through the loop rules of vf.loops;
  * list displays become lists that may have symbolic length; `str % x` goes through a formatting helper;
  * built-ins that must return C integers (len, range, int, isinstance, ...) are replaced by equivalents;
  * classes without bases get a base class that records attribute writes.
"""
import ast
import warnings as _w
_w.simplefilter("ignore", SyntaxWarning)
import builtins
import importlib
import os
import re
import sys
import types
from fractions import Fraction
from . import terms as T
from .terms import TRUE, FALSE, ZERO, ONE, const, add, sub, mul, lt, le, eq, and_, or_, not_
from .ctx import Ctx, Unsupported, PathEnd
from . import sym, npm, loops
from .sym import S, Arr, lift, out, cx, is_num, s_max, s_min, s_add
from .vlist import VList

REPO = os.environ.get("VF_REPO", "/repo")


class VObj:
    """Base of every class of the code under verification: attribute writes are recorded."""

    def __setattr__(self, name, val):
        c = Ctx.cur
        # what a property's setter writes is recorded by itself
        if c is not None and c.loops and not isinstance(getattr(type(self), name, None), property):
            c.journal_attr(self, name)
        object.__setattr__(self, name, val)

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        c = Ctx.cur
        object.__setattr__(o, "_vf_oid", c.new_oid(o) if c is not None else 0)
        return o


class Opaque:
    """Stand-in for plotting and other libraries outside the verified code."""

    def __init__(self, name="opaque"):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        return Opaque(self._n + "." + k)

    def __call__(self, *a, **k):
        return Opaque(self._n + "()")

    def __setattr__(self, k, v):
        pass

    def __getitem__(self, k):
        return Opaque(self._n + "[]")

    def __iter__(self):
        raise Unsupported("iteration over an external object %s" % self._n)

    def __bool__(self):
        raise Unsupported("truth value of an external object %s" % self._n)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def opaque_module(name):
    m = types.ModuleType(name)
    m.__getattr__ = lambda k: Opaque(name + "." + k) if not k.startswith("__") else (_ for _ in ()).throw(AttributeError(k))
    return m


# ------------------------------------------------------------------ time
class TimeMod(types.ModuleType):
    def __init__(self):
        super().__init__("time")

    def _now(self):
        c = cx()
        t = T.app("clock", (const(c.ghost.setdefault("nclock", 0)),) + tuple(l.i for l in c.loops if l.i is not None), "R")
        c.ghost["nclock"] += 1
        if c.clock is not None and not c.scopes:
            c.assume(le(c.clock, t))
        else:
            if not c.scopes:
                c.assume(le(ZERO, t))
        if not c.scopes:
            c.clock = t
        r = S(t)
        c.events.append(("time", r))
        return r

    def time(self):
        return self._now()

    perf_counter = monotonic = process_time = time

    def sleep(self, s=0):
        pass


class Heap:
    """guppy: the size of the heap is read, nothing is known about it but that it is not negative"""

    def heap(self):
        c = cx()
        t = T.app("heap", (const(c.ghost.setdefault("nheap", 0)),) + tuple(l.i for l in c.loops if l.i is not None), "I")
        c.ghost["nheap"] += 1
        c.events.append(("heap", S(t)))
        return types.SimpleNamespace(size=S(t))


def default_timer():
    return MODELS["time"]._now()


def _models():
    m = {}
    m["numpy"] = npm
    m["numpy.random"] = npm.random
    m["numpy.linalg"] = npm.linalg
    sp = types.ModuleType("scipy")
    spec = types.ModuleType("scipy.special")
    spec.logsumexp = npm.logsumexp
    spec.gamma = lambda x: npm.ew(lambda s: S(T.app("Gamma", (sym.numt(s),), "R")), x)
    sp.special = spec
    sp.__getattr__ = lambda k: Opaque("scipy." + k) if not k.startswith("__") else (_ for _ in ()).throw(AttributeError(k))
    spec.__getattr__ = lambda k: Opaque("scipy.special." + k) if not k.startswith("__") else (_ for _ in ()).throw(AttributeError(k))
    m["scipy"], m["scipy.special"] = sp, spec
    m["time"] = TimeMod()
    ti = types.ModuleType("timeit")
    ti.default_timer = default_timer
    m["timeit"] = ti
    gu = types.ModuleType("guppy")
    gu.hpy = Heap
    m["guppy"] = gu
    for n in ("sys", "itertools", "abc", "copy", "math", "functools", "collections", "typing", "queue", "threading", "gc", "warnings",
              "enum", "contextlib", "operator", "logging", "string", "re", "json", "dataclasses", "numbers", "inspect", "types"):
        m[n] = importlib.import_module(n)
    it = types.ModuleType("itertools")
    it.__dict__.update(importlib.import_module("itertools").__dict__)
    it.product = lambda *a, repeat=1: VList(VList(x) if False else x for x in importlib.import_module("itertools").product(*[v_iter(x) for x in a], repeat=int(repeat)))
    m["itertools"] = it
    mt = types.ModuleType("math")
    mt.__dict__.update(importlib.import_module("math").__dict__)
    mt.sqrt, mt.exp, mt.log, mt.floor, mt.pi = npm.sqrt, npm.exp, npm.log, (lambda x: sym.out(sym.s_floor(lift(x)))), npm.pi
    mt.isnan, mt.isinf, mt.isfinite = npm.isnan, npm.isinf, npm.isfinite
    m["math"] = mt
    cp = types.ModuleType("copy")
    cp.copy = v_copy
    cp.deepcopy = v_deepcopy
    m["copy"] = cp
    return m


def v_copy(x):
    if isinstance(x, Arr):
        return x.copy()
    if isinstance(x, VList):
        return x.copy()
    return importlib.import_module("copy").copy(x)


def v_deepcopy(x, memo=None):
    from .vlist import subst_val
    if is_num(x) or x is None or isinstance(x, str):
        return x
    if isinstance(x, Arr):
        return x.copy()
    raise Unsupported("deepcopy of %r" % type(x))


MODELS = {}
LOADED = {}
FUNCS = {}       # qualified name -> (file, first line, last line) of functions seen by the generator
CALLED = set()


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = []

    def call(self, name, *args):
        return ast.Call(ast.Name(name, ast.Load()), list(args), [])

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(self.call("vf__f", ast.Constant(repr(node.value))), node)
        return node

    def visit_JoinedStr(self, node):
        # format specs are JoinedStr themselves and must stay literal
        vals = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
            vals.append(v)
        node.values = vals
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(self.call("vf__list", node), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call("vf__mod", node.left, node.right), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == "eval" and len(node.args) == 1:
            return ast.copy_location(self.call("vf__eval", node.args[0], self.call("globals"), self.call("locals")), node)
        return node

    def visit_ClassDef(self, node):
        self.fn.append(node.name)
        self.generic_visit(node)
        self.fn.pop()
        if all(isinstance(b, ast.Name) and b.id == "object" for b in node.bases):
            node.bases = [ast.Name("vf__VObj", ast.Load())]
        return node

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        q = self.mod + ":" + ".".join(self.fn)
        FUNCS[q] = (self.mod, node.lineno, node.end_lineno)
        self.generic_visit(node)
        self.fn.pop()
        mark = ast.Expr(self.call("vf__enter", ast.Constant(q)))
        k = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(k, ast.copy_location(mark, node.body[0]))
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].is_async:
            g = node.generators[0]
            args, pre = self._lam(g.target)
            body = node.elt
            lam = self._mklam(g.target, body)
            conds = [self._mklam(g.target, c) for c in g.ifs]
            return ast.copy_location(self.call("vf__comp", ast.Constant(kind), lam, g.iter, *conds), node)
        for g in node.generators:
            g.iter = self.call("vf__conc", g.iter)
        if kind == "list":
            return ast.copy_location(self.call("vf__list", node), node)
        return node

    def _lam(self, target):
        return None, None

    def _mklam(self, target, body):
        if isinstance(target, ast.Name):
            a = ast.arguments(posonlyargs=[], args=[ast.arg(target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.Lambda(a, body)
        names = []

        def flat(t):
            if isinstance(t, ast.Name):
                names.append(t.id)
                return "x"
            return [flat(e) for e in t.elts]
        shape = flat(target)
        inner = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body)
        outer = ast.arguments(posonlyargs=[], args=[ast.arg("vft__")], kwonlyargs=[], kw_defaults=[], defaults=[])
        import json
        return ast.Lambda(outer, ast.Call(inner, [ast.Starred(self.call("vf__unpack", ast.Name("vft__", ast.Load()),
                                                                     ast.Constant(json.dumps(shape))), ast.Load())], []))

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    # ------------------------------------------------------------- conditions
    def visit_IfExp(self, node):
        self.generic_visit(node)
        if not self.fn or any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return node
        lam = lambda b: ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), b)
        return ast.copy_location(self.call("vf__ifexp", node.test, lam(node.body), lam(node.orelse)), node)

    def visit_If(self, node):
        import copy as _c
        orig = _c.deepcopy(node)
        self.generic_visit(node)
        if not self.fn or any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Delete,
                                             ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef, ast.NamedExpr)) for x in ast.walk(orig)):
            return node
        self.n += 1
        C = "vfL__%d" % self.n
        names = self._names(orig.body + orig.orelse)
        meth = lambda m, *a: ast.Call(ast.Attribute(ast.Name(C, ast.Load()), m, ast.Load()), list(a), [])
        attr = lambda m: ast.Attribute(ast.Name(C, ast.Load()), m, ast.Load())
        gets = lambda: ast.Tuple([self._get(n) for n in names], ast.Load())

        def put(m):
            if names:
                return ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], meth(m, gets()))
            return ast.Expr(meth(m, gets()))
        body = [put("enter"), ast.If(attr("run_a"), node.body, []), put("mid")]
        if node.orelse:
            body.append(ast.If(attr("run_b"), node.orelse, []))
        new = [ast.Assign([ast.Name(C, ast.Store())], self.call("vf__if", node.test, ast.Constant(tuple(names)))),
               ast.Try(body, [ast.ExceptHandler(ast.Name("BaseException", ast.Load()), None, [ast.Expr(meth("abort")), ast.Raise()])], [], []),
               put("end")]
        for x in new:
            ast.copy_location(x, node)
        return new

    # ------------------------------------------------------------- loops
    def _names(self, body):
        names = []

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, ast.Store) and n.id not in names and not n.id.startswith("vfL__"):
                    names.append(n.id)

            def visit_FunctionDef(s, n):
                if n.name not in names:
                    names.append(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ClassDef(s, n):
                pass
        for b in body:
            V().visit(b)
        return names

    def _get(self, n):
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), ast.Name(n, ast.Load()))
        return self.call("vf__get", lam)

    def visit_For(self, node):
        import copy as _c
        orig = _c.deepcopy(node)
        self.generic_visit(node)
        self.n += 1
        L = "vfL__%d" % self.n
        names = [n for n in self._names(orig.body + [ast.Assign([orig.target], ast.Constant(None))])]
        site = "%s:%s:%s" % (self.mod, ".".join(self.fn), self._ordinal())
        conc = ast.For(node.target, ast.Attribute(ast.Name(L, ast.Load()), "items", ast.Load()), node.body, node.orelse)
        sb = _c.deepcopy(node.body)
        sb = [_Escape(L).visit(b) for b in sb]
        once = ast.For(_c.deepcopy(node.target), ast.Call(ast.Attribute(ast.Name(L, ast.Load()), "once", ast.Load()), [], []), sb, [])
        sym_ = []
        tup = lambda ctx_: ast.Tuple([ast.Name(n, ctx_) for n in names], ctx_)
        gets = ast.Tuple([self._get(n) for n in names], ast.Load())
        meth = lambda m, *a: ast.Call(ast.Attribute(ast.Name(L, ast.Load()), m, ast.Load()), list(a), [])
        if names:
            sym_.append(ast.Assign([tup(ast.Store())], meth("enter", gets)))
        else:
            sym_.append(ast.Expr(meth("enter", gets)))
        sym_.append(ast.Try([once], [ast.ExceptHandler(ast.Name("BaseException", ast.Load()), None,
                                                       [ast.Expr(meth("abort")), ast.Raise()])], [], []))
        gets2 = ast.Tuple([self._get(n) for n in names], ast.Load())
        if names:
            sym_.append(ast.Assign([tup(ast.Store())], meth("close", gets2)))
        else:
            sym_.append(ast.Expr(meth("close", gets2)))
        sym_ += _c.deepcopy(node.orelse)
        new = [ast.Assign([ast.Name(L, ast.Store())], self.call("vf__loop", node.iter, ast.Constant(site),
                                                               ast.Constant(tuple(names)))),
               ast.If(ast.Attribute(ast.Name(L, ast.Load()), "concrete", ast.Load()), [conc], sym_)]
        # peeled iterations run as ordinary ones first
        peel_body = _c.deepcopy(node.body)
        if not any(isinstance(x, (ast.Break, ast.Continue)) for b in peel_body for x in ast.walk(b)):
            peel = ast.For(_c.deepcopy(node.target), ast.Attribute(ast.Name(L, ast.Load()), "peeled", ast.Load()), peel_body, [])
            new[1].orelse.insert(0, peel)
        for x in new:
            ast.copy_location(x, node)
        return new

    def _ordinal(self):
        k = ".".join(self.fn)
        d = self.__dict__.setdefault("ords", {})
        d[k] = d.get(k, 0) + 1
        return d[k]

    def visit_While(self, node):
        import copy as _c
        orig = _c.deepcopy(node)
        self.generic_visit(node)
        self.n += 1
        W = "vfL__%d" % self.n
        names = self._names(orig.body + [ast.Expr(orig.test)])
        site = "%s:%s:%s" % (self.mod, ".".join(self.fn), self._ordinal())
        meth = lambda m, *a: ast.Call(ast.Attribute(ast.Name(W, ast.Load()), m, ast.Load()), list(a), [])
        tup = lambda ctx_: ast.Tuple([ast.Name(n, ctx_) for n in names], ctx_)
        gets = lambda: ast.Tuple([self._get(n) for n in names], ast.Load())
        plain = ast.While(node.test, [ast.Expr(meth("tick"))] + node.body, node.orelse)
        inv = []
        if names:
            inv.append(ast.Assign([tup(ast.Store())], meth("enter", gets())))
        else:
            inv.append(ast.Expr(meth("enter", gets())))
        once = ast.For(ast.Name("vfonce__", ast.Store()), meth("once"), _c.deepcopy(node.body), [])
        step = ast.If(ast.Attribute(ast.Name(W, ast.Load()), "completed", ast.Load()), [ast.Expr(meth("step", gets()))], [])
        inv.append(ast.If(_c.deepcopy(node.test), [once, step], _c.deepcopy(node.orelse)))
        inv.append(ast.Expr(meth("leave")))
        new = [ast.Assign([ast.Name(W, ast.Store())], self.call("vf__while", ast.Constant(site), ast.Constant(tuple(names)), self.call("locals"))),
               ast.If(ast.Attribute(ast.Name(W, ast.Load()), "plain", ast.Load()), [plain], inv)]
        for x in new:
            ast.copy_location(x, node)
        return new


class _Escape(ast.NodeTransformer):
    """return / break inside a loop body that stands for every iteration cannot be followed"""

    def __init__(self, L):
        self.L = L
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_While = visit_For

    def bad(self, n):
        return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name(self.L, ast.Load()), "bad", ast.Load()), [], [])), n)

    def visit_Return(self, n):
        return self.bad(n)

    def visit_Break(self, n):
        return n if self.depth else self.bad(n)


# ------------------------------------------------------------------ run-time helpers
def vf_f(txt):
    if txt in ("inf", "nan", "-inf"):
        return float(txt)
    r = S(T.const(Fraction(txt)))
    r.fl = True
    return r


class UNDEF:
    def __repr__(self):
        return "UNDEF"


UNDEF = loops.UNDEF


def vf_get(f):
    try:
        return f()
    except NameError:
        return UNDEF


def vf_mod(a, b):
    if isinstance(a, str):
        return str_format(a, b)
    return a % b


def _padding(x, m):
    """numbers printed in a field wider than they need are preceded by a space"""
    w, p = m.group(3), m.group(4)
    if m.group(5) != "f" or not w or w == "*" or p in (None, "*") or m.group(2):
        return ""
    k = int(w) - int(p) - 2
    if k < 1 or Ctx.cur is None:
        return ""
    c = Ctx.cur
    x = lift(x)
    if x.nan is not FALSE or x.pinf is not FALSE or x.ninf is not FALSE:
        return ""
    return " " if c.entails(lift(x >= 0).t) and c.entails(lift(x <= 10 ** k - 1).t) else ""


def str_format(fmt, args):
    import re
    if not isinstance(args, tuple):
        args = (args,) if not isinstance(args, dict) else args
    if isinstance(args, dict):
        return fmt % args
    out_, k, pos = [], 0, 0
    for m in re.finditer(r"%(\([^)]*\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])", fmt):
        out_.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out_.append("%")
            continue
        if k >= len(args):
            raise TypeError("not enough arguments for format string")
        x = args[k]
        k += 1
        x = out(x) if isinstance(x, S) else x
        if isinstance(x, Arr) and x.ndim == 0:
            x = out(lift(x))
        if isinstance(x, (S,)):
            out_.append(_padding(x, m) + sym.tok(x, m.group(0)))
        elif isinstance(x, (Arr, VList)) or (hasattr(x, "vf_token")):
            if m.group(5) not in "sra":
                if isinstance(x, Arr) and all(d is ONE for d in x._shape):
                    out_.append(sym.tok(lift(x), m.group(0)))
                    continue
                raise TypeError("%d format: a real number is required")
            out_.append(str(x) if not isinstance(x, Arr) else format(x, ""))
        else:
            if m.group(5) in "di" and isinstance(x, float):
                x = int(x)
            out_.append(m.group(0) % (x,))
    out_.append(fmt[pos:])
    if k < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out_)


def vf_unpack(t, shape):
    import json

    def go(x, sh):
        if sh == "x":
            return [x]
        it = list(v_iter(x))
        if len(it) != len(sh):
            raise ValueError("not enough values to unpack" if len(it) < len(sh) else "too many values to unpack")
        r = []
        for a, b in zip(it, sh):
            r += go(a, b)
        return r
    return go(t, json.loads(shape))


def v_iter(x):
    it = loops.as_iter(x)
    return it.items_list()


def vf_conc(x):
    return v_iter(x)


def vf_comp(kind_, f, it, *conds):
    src = loops.as_iter(it)
    if src.is_concrete():
        res = []
        for x in src.items_list():
            if all(bool(c(x)) for c in conds):
                res.append(f(x))
        return VList(res) if kind_ == "list" else res
    if conds:
        raise Unsupported("filtered comprehension over a symbolic range")
    return loops.map_symbolic(f, src)


def vf_eval(code, g, l):
    if "\x01" in code:
        # printed symbolic numbers: read back as the number where the format loses nothing
        l = dict(l)

        def name(m):
            x, spec = sym.TOKENS[m.group(0)]
            if spec not in ("", "s", "r", "%s", "%r") and not (spec in ("d", "%d") and x.sort == "I"):
                x = S(T.fresh("printed", "R"))
            nm = "vf__tok%d" % len(l)
            l[nm] = x
            return " %s " % nm
        code = re.sub("\x01[^\x02]*\x02", name, code)
    tree = ast.parse(code.strip(), mode="eval")
    tree = Rewriter("eval").visit(tree)
    ast.fix_missing_locations(tree)
    return builtins.eval(compile(tree, "<eval>", "eval"), g, l)


def vf_enter(q):
    CALLED.add(q)
    c = Ctx.cur
    h = c.ghost.get("enter_hook") if c is not None else None
    if h is not None:
        h(q)


def v_len(x):
    if isinstance(x, (Arr, VList)):
        return x.vlen()
    if hasattr(x, "vlen"):
        return x.vlen()
    return len(x)


def v_range(*a):
    if all(isinstance(out(x) if isinstance(x, S) else x, int) for x in a):
        r = range(*[out(x) if isinstance(x, S) else x for x in a])
        if len(r) <= loops.LONG or r.step not in (1, -1):
            return r
    for x in a:
        if lift(x).fl or lift(x).sort != "I":
            raise TypeError("'float' object cannot be interpreted as an integer")
    return loops.SymRange(*a)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return v_isinstance(x, cls.py)

    def __eq__(cls, o):
        return cls is o or o is cls.py

    def __hash__(cls):
        return hash(cls.py)


class v_int(metaclass=_TypeMeta):
    py = int
    vf_kind = "i"

    def __new__(cls, x=0, *a):
        if isinstance(x, str):
            return int(x, *a)
        return sym.to_int(x)


class v_float(metaclass=_TypeMeta):
    py = float
    vf_kind = "f"

    def __new__(cls, x=0.0):
        if isinstance(x, str):
            if x.strip().lower() in ("inf", "nan", "-inf", "infinity"):
                return float(x)
            return vf_f(repr(float(x)))
        if isinstance(x, Arr):
            if not all(sym.is_one(d) for d in x._shape):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
        s = lift(x)
        r = S(sym.numt(s), s.nan, s.pinf, s.ninf)
        r.fl = True
        return r


class v_bool(metaclass=_TypeMeta):
    py = bool
    vf_kind = "b"

    def __new__(cls, x=False):
        return bool(x)


class v_list(metaclass=_TypeMeta):
    py = list

    def __new__(cls, x=()):
        it = loops.as_iter(x)
        if it.is_concrete():
            return VList(it.items_list())
        return loops.map_symbolic(lambda y: y, it)


class v_tuple(metaclass=_TypeMeta):
    py = tuple

    def __new__(cls, x=()):
        return tuple(v_iter(x))


class v_str(metaclass=_TypeMeta):
    py = str

    def __new__(cls, x=""):
        return str(x) if not isinstance(x, Arr) else format(x, "")


_TYMAP = {v_int: int, v_float: float, v_bool: bool, v_list: list, v_tuple: tuple, v_str: str}


def v_isinstance(x, t):
    if isinstance(t, tuple):
        return any(v_isinstance(x, q) for q in t)
    t = _TYMAP.get(t, t)
    if isinstance(x, S):
        if t is int:
            return x.sort in ("I", "B") and not x.fl
        if t is float:
            return x.fl or x.sort == "R"
        if t is bool:
            return x.sort == "B"
        return t in (S, object)
    return isinstance(x, t)


def v_max(*a, key=None, default=None):
    xs = list(v_iter(a[0])) if len(a) == 1 and not isinstance(a[0], Arr) else list(a)
    if len(a) == 1 and isinstance(a[0], Arr):
        return a[0].max()
    if key is not None:
        best, bk = xs[0], key(xs[0])
        for x in xs[1:]:
            k = key(x)
            if bool(k > bk):
                best, bk = x, k
        return best
    if not xs:
        raise ValueError("max() arg is an empty sequence")
    r = xs[0]
    for x in xs[1:]:
        r = out(sym.s_ite(sym.simp(sym.s_lt(lift(r), lift(x)).t), lift(x), lift(r))) if is_num(r) or isinstance(r, S) else (x if bool(x > r) else r)
    return r


def v_min(*a, key=None, default=None):
    if len(a) == 1 and isinstance(a[0], Arr):
        return a[0].min()
    xs = list(v_iter(a[0])) if len(a) == 1 else list(a)
    if key is not None:
        best, bk = xs[0], key(xs[0])
        for x in xs[1:]:
            k = key(x)
            if bool(k < bk):
                best, bk = x, k
        return best
    if not xs:
        raise ValueError("min() arg is an empty sequence")
    r = xs[0]
    for x in xs[1:]:
        r = out(sym.s_ite(sym.simp(sym.s_lt(lift(x), lift(r)).t), lift(x), lift(r))) if is_num(r) or isinstance(r, S) else (x if bool(x < r) else r)
    return r


def v_sum(x, start=0):
    it = loops.as_iter(x)
    if it.is_concrete():
        r = start
        for y in it.items_list():
            r = r + y
        return r
    k = T.fresh("k", "I")
    with T.scope(k, it.n):
        s = lift(it.elem(k))
    return out(s_add(lift(start), sym.sum_flagged(it.n, k, s)))


def v_any(x):
    it = loops.as_iter(x)
    if it.is_concrete():
        for y in it.items_list():
            if bool(y):
                return True
        return False
    return out(S(T.any_(it.n, lambda k: sym.truth(it.elem(k)))))


def v_all(x):
    it = loops.as_iter(x)
    if it.is_concrete():
        for y in it.items_list():
            if not bool(y):
                return False
        return True
    return out(S(T.all_(it.n, lambda k: sym.truth(it.elem(k)))))


def v_sorted(x, key=None, reverse=False):
    xs = list(v_iter(x))
    if any(isinstance(y, S) for y in xs):
        raise Unsupported("sorting symbolic values")
    return VList(sorted(xs, key=key, reverse=reverse))


def v_round(x, n=0):
    if isinstance(x, S):
        if n == 0:
            return out(S(T.floor_(add(x.t, T.const(Fraction(1, 2))))))
        raise Unsupported("round")
    return round(x, n)


def v_abs(x):
    return abs(x)


def v_print(*a, **k):
    pass


def v_zip(*a, strict=False):
    its = [loops.as_iter(x) for x in a]
    if all(i.is_concrete() for i in its):
        return zip(*[i.items_list() for i in its])
    return loops.SymZip(its)


def v_enumerate(x, start=0):
    it = loops.as_iter(x)
    if it.is_concrete():
        return enumerate(it.items_list(), start)
    return loops.SymEnum(it, start)


def v_reversed(x):
    it = loops.as_iter(x)
    if it.is_concrete():
        return list(reversed(it.items_list()))
    return loops.SymRev(it)


def v_map(f, *xs):
    if len(xs) == 1:
        return vf_comp("list", f, xs[0])
    return vf_comp("list", lambda t: f(*t), v_zip(*xs))


def v_hasattr(o, n):
    return hasattr(o, n)


def v_open(*a, **k):
    h = cx().ghost.get("open_hook")
    if h is None:
        raise Unsupported("file access")
    return h(*a, **k)


def v_callable(x):
    return callable(x)


def v_import(name, globals=None, locals=None, fromlist=(), level=0):
    return do_import(name, fromlist)


def do_import(name, fromlist):
    if name in MODELS:
        m = MODELS[name]
        if not fromlist:
            return MODELS.get(name.split(".")[0], m)
        return m
    if name.startswith("ais_benchmarks.visualization") or name == "ais_benchmarks.utils.plot_utils":
        # plotting is not part of the verified code
        if name not in LOADED:
            par, leaf = name.rsplit(".", 1)
            LOADED[name] = opaque_module(name)
            setattr(do_import(par, ("*",)), leaf, LOADED[name])
        return LOADED[name] if fromlist else load_module("ais_benchmarks")
    if name.split(".")[0] == "ais_benchmarks":
        m = load_module(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        setattr(m, f, load_module(name + "." + f))
                    except FileNotFoundError:
                        raise ImportError("cannot import name %r from %r" % (f, name))
            return m
        return load_module("ais_benchmarks")
    if name in HOOK_MODULES:
        return HOOK_MODULES[name]
    m = opaque_module(name)
    if not fromlist and "." in name:
        return opaque_module(name.split(".")[0])
    return m


HOOK_MODULES = {}


def module_path(name):
    p = os.path.join(REPO, *name.split("."))
    if os.path.isdir(p):
        return os.path.join(p, "__init__.py"), True
    return p + ".py", False


def load_module(name):
    if name in LOADED:
        return LOADED[name]
    path, pkg = module_path(name) if not name.startswith("vfdrive_") else (
        os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "drive", name[8:] + ".py"), False)
    if not os.path.exists(path):
        if pkg:
            m = LOADED[name] = types.ModuleType(name)
            m.__path__ = [os.path.dirname(path)]
            if "." in name:
                par, leaf = name.rsplit(".", 1)
                setattr(load_module(par), leaf, m)
            return m
        raise FileNotFoundError(path)
    if "." in name:
        load_module(name.rsplit(".", 1)[0])
    if name in LOADED:
        return LOADED[name]
    src = open(path).read()
    tree = ast.parse(src, path)
    tree = Rewriter(name).visit(tree)
    ast.fix_missing_locations(tree)
    m = types.ModuleType(name)
    m.__file__ = path
    if pkg:
        m.__path__ = [os.path.dirname(path)]
    m.__package__ = name if pkg else name.rsplit(".", 1)[0]
    m.__dict__["__builtins__"] = BUILTINS
    LOADED[name] = m
    if "." in name:
        par, leaf = name.rsplit(".", 1)
        setattr(LOADED[par], leaf, m)
    try:
        exec(compile(tree, path, "exec"), m.__dict__)
    except BaseException:
        LOADED.pop(name, None)
        raise
    return m


def v_clock():
    return MODELS["time"]._now()


def _builtins():
    b = dict(builtins.__dict__)
    b.update(len=v_len, range=v_range, int=v_int, float=v_float, isinstance=v_isinstance, max=v_max, min=v_min, sum=v_sum,
             print=v_print, zip=v_zip, enumerate=v_enumerate, list=v_list, tuple=v_tuple, sorted=v_sorted, round=v_round, reversed=v_reversed,
             any=v_any, all=v_all, map=v_map, open=v_open, str=v_str, bool=v_bool, __import__=v_import,
             vf__f=vf_f, vf__get=vf_get, vf__mod=vf_mod, vf__list=VList, vf__comp=vf_comp, vf__conc=vf_conc,
             vf__unpack=vf_unpack, vf__eval=vf_eval, vf__enter=vf_enter, vf__VObj=VObj,
             vf__loop=loops.begin, vf__while=loops.begin_while, vf__if=loops.begin_if, vf__ifexp=loops.if_exp)
    return b


BUILTINS = _builtins()
MODELS.update(_models())


def reset_modules():
    """Fresh module state (module-level objects must not leak between paths)."""
    LOADED.clear()
