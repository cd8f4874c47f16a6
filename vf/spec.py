"""The specification interface, symbolic side: a harness states inputs, runs the real code, and ensures postconditions."""
import builtins
import re
import time
import traceback
import types
from fractions import Fraction
from . import terms as T
from .terms import TRUE, FALSE, ZERO, ONE, const, add, sub, mul, lt, le, eq, and_, or_, not_, implies, iff
from .ctx import Ctx, Unsupported, PathEnd, Budget, Job, Scope, STATS
from . import sym, npm, loops, load
from .sym import S, Arr, lift, out, cx, is_num, numt, truth
from .vlist import VList
from .load import VObj


MISSING = object()


class Failed(Exception):
    pass


class Obligation:
    def __init__(self, label, status, secs, detail=None, model=None):
        self.label, self.status, self.secs, self.detail, self.model = label, status, secs, detail, model


def dens_term(name, d, row, ident=()):
    """density of a point given by its coordinates; row(k) -> term"""
    if d.op == "const" and int(d.args[0]) <= T.EXPAND_MAX:
        return T.app("dens_" + name, tuple(ident) + tuple(row(const(k)) for k in range(int(d.args[0]))), "R")
    k = T.fresh("k", "I")
    with T.scope(k, d):
        b = row(k)
    return T.agg_raw("dens", (d,), (k,), b, tuple(ident) + (T.sym("dist_" + name, "I"),), "R")


class AbsDist(VObj):
    """Contract of a distribution: prob and log_prob agree, act row by row, and sampling gives points (assumed)."""

    def __init__(self, name, d, ident=(), positive=False, support=None, bounded=False):
        self.vname = name
        self.dims = out(S(lift(d).t))
        self.ident = tuple(ident)
        self.evals = 0
        self.drawn = 0
        self.calls = 0
        self.support_vals = support
        self.positive = positive
        self.bounded = bounded
        self.type = "abstract"
        self.params = {"type": "abstract", "dims": self.dims}

    def d_(self):
        return lift(self.dims).t

    def density(self, row):
        t = dens_term(self.vname, self.d_(), row, self.ident)
        return t

    def rows(self, x):
        if not isinstance(x, Arr):
            x = npm.asarray(x)
        if x.ndim == 1:
            x = x.reshape(1, self.dims)
        if x.ndim != 2 or not sym.dim_eq(x._shape[1], self.d_()):
            raise ValueError("Shape of x does not match self.dims")
        return x

    def count(self, **k):
        """ghost counters; the components of a mixture are not counted one by one"""
        own = cx().owner.get(self._vf_oid)
        for n, x in k.items():
            if own is not None:
                object.__setattr__(self, n, loops.UNDEF)
            else:
                setattr(self, n, getattr(self, n) + x)

    def prob(self, x):
        x = self.rows(x)
        g = x.getter()
        self.count(evals=out(S(x._shape[0])), calls=1)
        Ctx.cur.events.append(("prob", self, x.copy()))
        return Arr((x._shape[0],), lambda i: S(self.density(lambda k: numt(g(i, k)))), "f")

    def log_prob(self, x):
        return npm.log(self.prob(x))

    def at(self, x):
        """density at a point given as a vector (specification use; not counted)"""
        g = x.getter()
        return S(self.density(lambda k: numt(g(k))))

    def sample(self, n_samples=1):
        n = lift(n_samples).t
        fact = None
        if self.bounded and self.support_vals is not None:
            lo, hi = npm.asarray(self.support_vals[0]).getter(), npm.asarray(self.support_vals[1]).getter()
            fact = lambda e, *ix: and_(le(numt(lo(ix[-1])), e), le(e, numt(hi(ix[-1]))))
        r = npm.new_draw("sample_" + self.vname, (self, n_samples), npm._shape((n_samples, self.dims)), fact)
        self.count(drawn=n_samples)
        Ctx.cur.events.append(("sample", self, r))
        return r

    def support(self):
        return self.support_vals

    def is_ready(self):
        return True

    def wait_for_ready(self, timeout):
        return True

    def set_approximation_samples(self, *a):
        pass


class ScaledDist(AbsDist):
    """the same distribution with its density multiplied by a positive number"""

    def __init__(self, base, c):
        super().__init__(base.vname, base.dims, base.ident, base.positive, base.support_vals, base.bounded)
        self.c = lift(c).t

    def density(self, row):
        return mul(self.c, AbsDist.density(self, row))


class TabDist(AbsDist):
    def __init__(self, d, vals):
        super().__init__("tab", d)
        self.vals = vals

    def prob(self, x):
        x = self.rows(x)
        Ctx.cur.events.append(("prob", self, x.copy()))
        return self.vals.copy()

    def log_prob(self, x):
        return npm.log(self.prob(x))


def _fields(line):
    """split at whitespace outside printed values"""
    fs, cur, tok = [], "", False
    for ch in line:
        if ch == "\x01":
            tok = True
        if not tok and ch.isspace():
            if cur:
                fs.append(cur)
            cur = ""
        else:
            cur += ch
        if ch == "\x02":
            tok = False
    return fs + [cur] if cur else fs


class Clock(load.VObj):
    def __init__(self):
        self.t = S(T.fresh("clock0", "R"))

    def now(self):
        return self.t

    def advance(self, dt):
        self.t = self.t + dt


class VFile:
    def __init__(self, v, path, mode):
        self.v, self.path, self.mode = v, path, mode
        if mode.startswith("w"):
            v.ctx.ghost.setdefault("files", {})[path] = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def flush(self):
        pass

    def write(self, text):
        if self.mode[0] not in "wa":
            raise Unsupported("write to a file opened for reading")
        self.v.ctx.ghost.setdefault("files", {}).setdefault(self.path, []).append(text)
        h = self.v.ctx.ghost.get("written")
        if h:
            h(self.path, text)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def __getattr__(self, k):
        raise Unsupported("file operation %s" % k)


def _yaml_module():
    import copy
    m = load.opaque_module("yaml")

    def ld(f, Loader=None):
        ctx = Ctx.cur
        o = ctx.ghost.get("yaml", {}).get(getattr(f, "path", None))
        if o is None:
            raise Unsupported("YAML input")
        return _copy(o)
    m.load = ld
    m.safe_load = ld
    return m


def _copy(o):
    if isinstance(o, dict):
        return {k: _copy(x) for k, x in o.items()}
    if isinstance(o, VList):
        return o.copy()
    if isinstance(o, (list, tuple)):
        return VList([_copy(x) for x in o])
    return o


load.HOOK_MODULES["yaml"] = _yaml_module()
load.HOOK_MODULES["pprint"] = types.SimpleNamespace(pformat=lambda o, *a, **k: repr(o))


class WhileInv:
    """contract of a while loop: an invariant over the state at its head, checked on entry and after an arbitrary iteration,
    and a relation between the states before and after one iteration"""

    def __init__(self, v, label, inv, step, havoc, snap):
        self.v, self.label, self.inv, self.step_rel, self.hv, self.snap = v, label, inv, step, havoc, snap
        self.pre = None

    def check(self, when, env, *k):
        if when == "is preserved" and self.step_rel is not None:
            for l, c in self.step_rel(self.pre, env):
                self.v.ensure("%s, one iteration: %s" % (self.label, l), c)
                self.v.assume(c)
        for l, c in self.inv(env, *k):
            self.v.ensure("%s, invariant %s: %s" % (self.label, when, l), c() if callable(c) else c)

    def assume(self, env, *k):
        for l, c in self.inv(env, *k):
            # a part given as a function holds for the arbitrary state by the way it is made (havoc)
            if not callable(c):
                self.v.assume(c)
        self.pre = self.snap(env) if self.snap else None

    def havoc(self, key, val):
        nm = key[1] if isinstance(key, tuple) else key
        if isinstance(key, tuple) and (id(key[0]), nm) in self.hv:
            return self.hv[id(key[0]), nm](val)
        if nm in self.hv:
            return self.hv[nm](val)
        if val is loops.UNDEF or val is None or isinstance(val, str):
            return val if val is None else loops.UNDEF
        if is_num(val):
            x = lift(val)
            return S(T.fresh("st_%s" % nm, "R" if x.fl else x.sort))
        if isinstance(val, Arr):
            return sym.uf_arr("st%d_%s" % (self.v.ctx.ghost.setdefault("nst", 0), nm), val._shape, {"f": "R", "i": "I", "b": "B"}[val.kind])
        return loops.UNDEF

    def havoc_arr(self, o):
        if id(o) in self.hv:
            return self.hv[id(o)](o)
        n = self.v.ctx.ghost["nst"] = self.v.ctx.ghost.get("nst", 0) + 1
        return sym.uf_arr("st%d_arr" % n, o._shape, {"f": "R", "i": "I", "b": "B"}[o.kind])

    def havoc_list(self, o):
        for k, fn in self.hv.items():
            if isinstance(k, int) and k == id(o):
                o.adopt(fn(o))
                return
        raise Unsupported("list changed in a while loop")


class SymV:
    symbolic = True

    def __init__(self, ctx, job):
        self.ctx, self.job = ctx, job
        self.np = npm
        self.inputs = []
        self.pi = npm.pi
        self.inf = float("inf")
        self.nan = float("nan")

    # ---------------------------------------------------------------- code under verification
    def mod(self, name):
        return load.load_module(name)

    def cls(self, path):
        m, c = path.rsplit(".", 1)
        return getattr(load.load_module(m), c)

    def drive(self, name):
        """a driver of the specification: contracts/drive/<name>.py, run like the code under verification"""
        return load.load_module("vfdrive_" + name)

    def fakes(self, *mods):
        """the clock and the heap of the model: nothing to replace"""

    def while_inv(self, label, inv, step=None, havoc={}, snap=None, skip=0, fn=None):
        """attach a contract to the first while loop entered from now on (fn: in the function of that name)"""
        g = self.ctx.ghost
        used = []

        def sel(site, c):
            if used or (fn is not None and site.split(":")[1].split(".")[-1] != fn):
                return None
            used.append(site)
            return WhileInv(self, label, inv, step, havoc, snap)
        g["while_inv"] = sel

    def for_inv(self, label, inv, step=None, havoc={}, snap=None, fn=None, over=None):
        """attach a contract to the first for loop entered from now on (fn: in the function of that name; over: with that many
        iterations); inv(env, k): k iterations are completed"""
        used = []

        def sel(site, c, n):
            if over is not None and lift(over).t is not n:
                return None
            if used or (fn is not None and site.split(":")[1].split(".")[-1] != fn):
                return None
            used.append(site)
            return WhileInv(self, label, inv, step, havoc, snap)
        self.ctx.ghost["for_inv"] = sel

    def known_zero(self, k):
        """nothing to say about an empty range"""
        return lift(k).t is ZERO

    def same(self, a, b):
        """written the same way"""
        return lift(a).t is lift(b).t

    def done(self):
        """the number of completed iterations of the loop under a contract, where its arbitrary state is made"""
        return self.ctx.ghost["done"]

    def local(self, env, name):
        """a local variable of the function under contract"""
        if name not in env or env[name] is loops.UNDEF:
            raise Unsupported("the contract names the local variable %s, which is not there" % name)
        return env[name]

    def fresh_reals(self, name, shape, pos=False, nonneg=False, between=None):
        """arbitrary numbers that are no input (between: limits for the last index)"""
        n = self.ctx.ghost["nfr"] = self.ctx.ghost.get("nfr", 0) + 1
        nm = ("pos~%s_%d" if pos else "%s_%d") % (name, n)
        shp = tuple(lift(x).t for x in shape)
        if pos or nonneg:
            self.ctx.uf_facts.setdefault(nm, []).append(lambda *a: (lt if pos else le)(ZERO, T.app(nm, a, "R")))
        if between is not None:
            g, h = [npm.asarray(x).getter() for x in between]
            n_ = shp[-1]

            def fact(*a):
                e = T.app(nm, a, "R")
                return implies(and_(le(ZERO, a[-1]), lt(a[-1], n_)), and_(le(numt(g(a[-1])), e), le(e, numt(h(a[-1])))))
            self.ctx.uf_facts.setdefault(nm, []).append(fact)
        return sym.uf_arr(nm, shp, "R")

    def fresh_int(self, name, lo=0):
        s = T.fresh(name, "I")
        self.ctx.assume(le(lift(lo).t, s))
        return S(s)

    def fresh_spd(self, name, d, *idx):
        """an arbitrary symmetric positive definite matrix (one for each idx) that is no input"""
        return self.spd_family(name, d)(*idx)

    def spd_family(self, name, d):
        """arbitrary symmetric positive definite matrices that are no input, one for each index"""
        n = self.ctx.ghost["nfr"] = self.ctx.ghost.get("nfr", 0) + 1
        nm, dt = "spd~%s_%d" % (name, n), lift(d).t
        el = lambda i, j, *z: T.app(nm, (i, j) + z, "R")
        self.ctx.uf_facts.setdefault(nm, []).append(lambda i, j, *z: eq(el(i, j, *z), el(j, i, *z)))
        self.ctx.uf_facts[nm].append(lambda i, j, *z: implies(eq(i, j), lt(ZERO, el(i, j, *z))))

        def at(*idx):
            ix = tuple(lift(x).t for x in idx)
            a = Arr((dt, dt), lambda i, j: S(el(i, j, *ix)), "f")
            self.ctx.assume(lt(ZERO, npm.det_term(a)))
            return a
        return at

    def frozen(self, lst):
        """the list's contents as they are now"""
        from .vlist import subst_val, Store, Const
        if not isinstance(lst, VList):
            return lst
        m = {T.fresh("frozen", "I"): ZERO}
        r = VList()
        if lst.concrete():
            list.extend(r, [subst_val(x, m) for x in list.__iter__(lst)])
            return r
        r.segs = []
        for n, fn in lst.segs:
            if isinstance(fn, Store):
                st = Store(n, fn.base)
                st.dirty = [(j, subst_val(o, m)) for j, o in fn.dirty]
                r.segs.append((n, st))
            elif isinstance(fn, Const):
                r.segs.append((n, Const(subst_val(fn.x, m))))
            else:
                raise Unsupported("snapshot of a list of this form")
        return r

    def len0(self, x):
        """nothing collected yet"""
        return isinstance(x, Arr) and len(x._shape) == 1 and x._shape[0] is ZERO

    def points_drawn(self, mark, kinds=("mvn",)):
        """number of points drawn from distributions since there were `mark` draws"""
        tot = ZERO
        for dr in self.ctx.draws[mark:]:
            if dr.kind in kinds or dr.kind.startswith("sample_"):
                k = ONE
                for l in dr.loops:
                    if isinstance(l, loops.Loop):
                        k = T.mul(k, l.total())
                for s in dr.out._shape[:-1]:
                    k = T.mul(k, s)
                tot = T.add(tot, k)
        return out(S(tot))

    def any_point(self, lo, hi):
        """what a contract returns: any point of the box, another one for each call"""
        g, h = npm.asarray(lo).getter(), npm.asarray(hi).getter()
        fact = lambda e, *ix: and_(le(numt(g(ix[-1])), e), le(e, numt(h(ix[-1]))))
        return npm.new_draw("contract", (), npm._shape((self.len(lo),)), fact)

    def overwrite(self, lst, new):
        """what a contract's frame lets change: the list gets other elements"""
        cx().journal_list(lst)
        lst.adopt(new)

    def has_method(self, o, name, nargs):
        """a helper of the code with this name and number of arguments; without it this contract does not apply"""
        import inspect
        f = getattr(o, name, None)
        try:
            ok = f is not None and len([p for p in inspect.signature(f).parameters.values() if p.default is p.empty]) == nargs
        except (TypeError, ValueError):
            ok = False
        if not ok:
            raise Unsupported("no method %s with %d arguments" % (name, nargs))

    def stub(self, cls, name, fn):
        """replace a method by its contract (the method itself is verified separately)"""
        if name in vars(cls):
            self.ctx.ghost.setdefault("stubs", []).append((cls, name, vars(cls)[name]))
            setattr(cls, name, fn)

    def choose(self, n):
        return self.ctx.choose(list(range(n)))

    def mark(self, kind):
        return len(self.events(kind))

    def loop_readings(self, kind, mark, n):
        """the readings made in each iteration of a driver's loop, as functions of the iteration"""
        name = {"time": "clock", "heap": "heap"}[kind]
        res = []
        for e in self.events(kind)[mark:]:
            t = e[1].t
            res.append(lambda j, t=t: S(T.app(name, (t.args[1], lift(j).t), t.sort)))
        return res

    def setmod(self, mod, name, val):
        """replace a module-level name of the code under verification for this path"""
        old = vars(mod).get(name, MISSING)
        self.ctx.ghost.setdefault("undo", []).append((mod, name, old))
        setattr(mod, name, val)

    def clock(self, *mods):
        """a clock that moves only when told to, in place of the real one in these modules"""
        c = Clock()
        tm, ti = load.MODELS["time"], load.MODELS["timeit"]
        for mod in mods:
            mod = load.load_module(mod)
            for k, x in list(vars(mod).items()):
                if x is tm or x is ti:
                    self.setmod(mod, k, types.SimpleNamespace(time=c.now, perf_counter=c.now, monotonic=c.now, process_time=c.now,
                                                              default_timer=c.now, sleep=lambda s=0: None))
                elif x is load.default_timer or getattr(x, "__func__", None) is load.TimeMod.time:
                    self.setmod(mod, k, c.now)
        return c

    def file(self, name):
        """the path of a file of this run"""
        self.ctx.ghost["open_hook"] = lambda path, mode="r", *a, **k: VFile(self, str(path), mode)
        return "/vf/" + name

    def text(self, path):
        return "".join(self.ctx.ghost.setdefault("files", {}).get(path, []))

    def written(self, fn):
        """fn(path, text) is called for everything written to a file"""
        self.ctx.ghost["written"] = fn

    def rows(self, text):
        """the lines of a text, each as its whitespace-separated fields (a field is a text or the one number printed there; numbers
        not kept apart by whitespace can run into each other and are one field of another kind)"""
        rows = text.split("\n")
        if rows[-1] == "":
            rows.pop()
        else:
            rows[-1] += " (no end of line)"
        r = []
        for line in rows:
            fs = []
            for f in _fields(line):
                p = re.findall("\x01[^\x02]*\x02|[^\x01]+", f)
                if len(p) == 1 and p[0].startswith("\x01"):
                    fs.append(sym.TOKENS[p[0]][0] if p[0] in sym.TOKENS else p[0])
                else:
                    fs.append(f if len(p) == 1 else ("merged", f))
            r.append(fs)
        return r

    def shows(self, field, val, rel=0, abs=0):
        """the field shows this value (up to the printed precision)"""
        if isinstance(field, S):
            return self.eq(field, val)
        if isinstance(field, tuple) or isinstance(val, S):
            if isinstance(val, S) and isinstance(field, str):
                raise Unsupported("printed form of a symbolic number")
            return False
        if isinstance(val, str):
            return field == val
        try:
            return bool(builtins.abs(float(field) - float(val)) <= abs + rel * builtins.abs(float(val)))
        except ValueError:
            return False

    def yaml(self, name, obj):
        """a configuration file with this content"""
        path = self.file(name)
        self.ctx.ghost.setdefault("yaml", {})[path] = obj
        return path

    # ---------------------------------------------------------------- inputs
    def reg(self, name, kind, *info):
        self.inputs.append((name, kind) + info)

    def dim(self, name, lo=1, hi=None, small=None):
        self.ctx.dimnames.add(name)
        s = T.sym(name, "I")
        self.reg(name, "int", s)
        self.ctx.assume(le(const(lo), s))
        if hi is not None:
            self.ctx.assume(le(s, const(hi)))
        return out(S(s))

    def int(self, name, lo=None, hi=None):
        s = T.sym(name, "I")
        self.reg(name, "int", s)
        if lo is not None:
            self.ctx.assume(le(lift(lo).t, s))
        if hi is not None:
            self.ctx.assume(le(s, lift(hi).t))
        return out(S(s))

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        s = T.sym(name, "R")
        self.reg(name, "real", s)
        if pos:
            self.ctx.assume(lt(ZERO, s))
        if nonneg:
            self.ctx.assume(le(ZERO, s))
        if lo is not None:
            self.ctx.assume(le(lift(lo).t, s))
        if hi is not None:
            self.ctx.assume(le(s, lift(hi).t))
        return S(s)

    def bool(self, name):
        return self.ctx.branch(T.sym(name, "B"))

    def pick(self, name, options):
        """one of finitely many concrete alternatives (all explored)"""
        k = self.ctx.choose(list(range(len(options))))
        self.reg(name, "pick", k)
        return options[k]

    def reals(self, name, shape, pos=False, nonneg=False, lo=None, hi=None, special=False, kind="R"):
        shp = tuple(lift(x).t for x in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        self.reg(name, "reals", shp, kind, special)
        if pos:
            T.POS_NAMES.add(name)

        def fact(*a):
            v = T.app(name, a, kind)
            fs = []
            if pos:
                fs.append(lt(ZERO, v))
            if nonneg:
                fs.append(le(ZERO, v))
            if lo is not None:
                fs.append(le(numt(lift(lo.get(a[-lo.ndim:]) if isinstance(lo, Arr) else lo)), v))
            if hi is not None:
                fs.append(le(v, numt(lift(hi.get(a[-hi.ndim:]) if isinstance(hi, Arr) else hi))))
            return and_(*fs)
        if pos or nonneg or lo is not None or hi is not None:
            self.ctx.uf_facts.setdefault(name, []).append(fact)
        return sym.uf_arr(name, shp, kind, flags=special)

    def spd(self, name, d):
        """a symmetric positive definite matrix (only symmetry and positive determinant are assumed)"""
        dt = lift(d).t
        self.reg(name, "spd", dt)
        a = Arr((dt, dt), lambda i, j: S(T.app(name, (i, j), "R")), "f")
        self.ctx.uf_facts.setdefault(name, []).append(lambda i, j: eq(T.app(name, (i, j), "R"), T.app(name, (j, i), "R")))
        self.ctx.uf_facts[name].append(lambda i, j: implies(eq(i, j), lt(ZERO, T.app(name, (i, j), "R"))))
        self.ctx.assume(lt(ZERO, npm.det_term(a)))
        return a

    def dist(self, name, d, positive=False, support=None, bounded=False):
        r = AbsDist(name, d, (), positive, support, bounded)
        self._dens_facts(name, positive)
        self.reg(name, "dist", positive)
        return r

    def fn(self, name, positive=False):
        """an arbitrary non-negative function of a number, applied element by element"""
        nm = "dens_fn_" + name
        z = lt if positive else le
        self.ctx.uf_facts.setdefault(nm, []).append(lambda x: z(ZERO, T.app(nm, (x,), "R")))
        one = lambda s: S(T.app(nm, (numt(s),), "R"))

        def f(u):
            if not isinstance(u, Arr):
                return one(lift(u))
            g = u.getter()
            return Arr(u._shape, lambda *i: one(g(*i)), "f")
        return f

    def scaled(self, base, c):
        return ScaledDist(base, c)

    def dists(self, name, m, d, positive=False):
        """a list of m distributions of dimension d"""
        self._dens_facts(name, positive)
        self.reg(name, "dists", lift(m).t)
        return VList.of(m, lambda i: AbsDist(name, d, (i,), positive))

    def _dens_facts(self, name, positive):
        c = self.ctx
        f = (lambda t: lt(ZERO, t)) if positive else (lambda t: le(ZERO, t))
        c.uf_facts.setdefault("dens_" + name, []).append(lambda *a: f(T.app("dens_" + name, a, "R")))
        tag = T.sym("dist_" + name, "I")
        c.agg_facts.setdefault("dens", []).append(lambda t: [f(t)] if t.args[4][-1] is tag else [])

    def list(self, n, fn):
        return VList.of(n, lambda i: fn(out(S(i))))

    # ---------------------------------------------------------------- logic
    def And(self, *a):
        return S(and_(*[truth(x) for x in a]))

    def Or(self, *a):
        return S(or_(*[truth(x) for x in a]))

    def Not(self, a):
        return S(not_(truth(a)))

    def Implies(self, a, b):
        return S(implies(truth(a), truth(b)))

    def Iff(self, a, b):
        return S(iff(truth(a), truth(b)))

    def If(self, c, a, b):
        return sym.s_ite(truth(c), a, b)

    def eq(self, a, b, tol=None):
        """same value (infinities equal themselves, NaN equals NaN)"""
        a, b = lift(a), lift(b)
        if a.sort == "B" and b.sort == "B":
            return S(iff(a.t, b.t))
        fin = lambda s: not_(or_(s.nan, s.pinf, s.ninf))
        return S(or_(and_(fin(a), fin(b), eq(numt(a), numt(b))), and_(a.nan, b.nan), and_(a.pinf, b.pinf), and_(a.ninf, b.ninf)))

    def le(self, a, b):
        return S(sym.s_le(lift(a), lift(b)).t)

    def lt(self, a, b):
        return S(sym.s_lt(lift(a), lift(b)).t)

    def finite(self, a):
        a = lift(a)
        return S(not_(or_(a.nan, a.pinf, a.ninf)))

    def isnan(self, a):
        return S(lift(a).nan)

    def forall(self, n, fn):
        return S(T.all_(lift(n).t, lambda i: truth(fn(out(S(i))))))

    def exists(self, n, fn):
        return S(T.any_(lift(n).t, lambda i: truth(fn(out(S(i))))))

    def sum(self, n, fn):
        return out(sym.red_sum(lift(n).t, lambda i: lift(fn(out(S(i))))))

    def prod(self, n, fn):
        return out(sym.red_prod(lift(n).t, lambda i: lift(fn(out(S(i))))))

    def ind(self, c):
        """1 if the condition holds, else 0"""
        return out(S(T.iv(truth(c))))

    def rank(self, n, cond, i):
        """how many j < i have the property (of j < n); for use where i has it"""
        n, k = lift(n).t, T.fresh("k", "I")
        with T.scope(k, n):
            body = sym.simp(truth(cond(out(S(k)))))
        return out(S(sym.rank_term(n, k, body, lift(i).t)))

    def copy(self, a):
        return a.copy()

    def ndim(self, x):
        return x.ndim if isinstance(x, Arr) else 0

    def shape(self, x, k):
        return out(S(x._shape[k]))

    def exp(self, x):
        return npm.exp(x)

    def log(self, x):
        return npm.log(x)

    def underflows(self, lp):
        """floating-point underflow does not exist over the reals"""
        return S(FALSE)

    def sqrt(self, x):
        return npm.sqrt(x)

    def abs(self, x):
        return npm.abs(x)

    def det(self, m):
        return npm.linalg.det(m)

    def inv(self, m):
        return npm.linalg.inv(m)

    def floor(self, x):
        return out(sym.s_floor(lift(x)))

    def at(self, arr, *idx):
        """element of an array (indices known to be in range)"""
        return out(arr.get(tuple(lift(i).t for i in idx)))

    def matrix(self, n, m, fn):
        """the matrix of these entries"""
        return Arr((lift(n).t, lift(m).t), lambda i, j: lift(fn(S(i), S(j))), "f")

    def vector(self, n, fn):
        return Arr((lift(n).t,), lambda i: lift(fn(out(S(i)))), "f")

    def row(self, arr, i):
        i = lift(i).t
        g = arr.getter()
        return Arr(arr._shape[1:], lambda *k: g(i, *k), arr.kind)

    def vec(self, n, fn):
        return Arr((lift(n).t,), lambda i: lift(fn(out(S(i)))), "f")

    def mat(self, n, m, fn):
        return Arr((lift(n).t, lift(m).t), lambda i, j: lift(fn(out(S(i)), out(S(j)))), "f")

    def len(self, x):
        return load.v_len(x)

    def getitem(self, l, i):
        return l.at(lift(i).t) if isinstance(l, VList) else l[i]

    # ---------------------------------------------------------------- obligations
    def assume(self, c):
        self.ctx.assume(truth(c))

    def cover(self, label=""):
        """this point must be reachable: checked by satisfiability of the path"""
        self.job.covers.setdefault(label, False)
        if not self.job.covers[label]:
            r = self.ctx.solve(FALSE, fast=True)
            if r[0] != "proved":
                self.job.covers[label] = True

    def case(self, c):
        """branch on a condition in the specification"""
        return self.ctx.branch(truth(c))

    def ensure(self, label, c):
        t = truth(c) if not isinstance(c, bool) else (TRUE if c else FALSE)
        t0 = time.time()
        r = self.ctx.prove(t)
        if r[0] == "refuted":
            r = self.small(t, r)
        dt = time.time() - t0
        self.job.obs.append(Obligation(label, r[0], dt, None if r[0] == "proved" else T.show(t)[:1500],
                                       self.model(r[1]) if r[0] == "refuted" else None))
        if r[0] != "proved":
            if self.job.stop_on_fail:
                raise Failed(label)
            # continue under the assumption, so that later obligations are judged on their own
            if r[0] == "refuted" and t is FALSE:
                raise PathEnd()
            try:
                self.ctx.assume(t)
            except PathEnd:
                raise

    def have(self, label, c):
        """an intermediate obligation, available afterwards"""
        self.ensure(label, c)
        self.assume(c)

    def ln(self, x):
        """the logarithm where the argument is positive (used under a guard)"""
        return S(T.log_(lift(x).t))

    def quot(self, a, b):
        """the quotient where the divisor is not zero (used under a guard)"""
        return S(mul(lift(a).t, T.power(lift(b).t, -1)))

    # lemmas: elementary facts about sums and products of any length (proved by induction on the length); the pointwise
    # premises are obligations, the conclusion is then available
    def lemma_sum_mono(self, label, n, f, g, cond=True):
        """pointwise f <= g gives sum f <= sum g"""
        self.ensure("lemma: " + label, self.Implies(cond, self.forall(n, lambda i: self.le(f(i), g(i)))))
        self.assume(self.Implies(cond, self.le(self.sum(n, f), self.sum(n, g))))

    def lemma_squares(self, n, f):
        """a sum of squares is not negative"""
        self.assume(self.le(0, self.sum(n, lambda i: f(i) * f(i))))

    def lemma_weighted_mono(self, label, n, w, f, g, cond):
        """0 <= w and f <= g where cond holds gives sum w f <= sum w g over these"""
        self.ensure("lemma: " + label + " (factor)", self.forall(n, lambda i: self.Implies(cond(i), self.le(0, w(i)))))
        self.ensure("lemma: " + label, self.forall(n, lambda i: self.Implies(cond(i), self.le(f(i), g(i)))))
        on = lambda h: self.sum(n, lambda i: self.If(cond(i), w(i) * h(i), 0))
        self.assume(self.le(on(f), on(g)))

    def lemma_prod_mono(self, label, n, f, g, cond=True, scale=1):
        """pointwise 0 <= f <= g gives prod f <= prod g (stated times a non-negative factor)"""
        self.ensure("lemma: " + label, self.Implies(cond, self.forall(n, lambda i: self.And(self.le(0, f(i)), self.le(f(i), g(i))))))
        if not (isinstance(scale, int) and scale == 1):
            self.ensure("lemma: " + label + " (factor)", self.le(0, scale))
        self.assume(self.Implies(cond, self.le(scale * self.prod(n, f), scale * self.prod(n, g))))

    def lemma_prod_eq(self, label, n, f, g, cond=True, scale=1):
        self.ensure("lemma: " + label, self.Implies(cond, self.forall(n, lambda i: self.eq(f(i), g(i)))))
        self.assume(self.Implies(cond, self.eq(scale * self.prod(n, f), scale * self.prod(n, g))))

    def lemma_log(self, label, n, nums, dens, cond):
        """log u <= u - 1 at a quotient u of products of positive numbers"""
        pos = lambda i: self.And(*[self.lt(0, f(i)) for f in nums + dens])
        self.ensure("lemma: " + label + " (positive)", self.forall(n, lambda i: self.Implies(cond(i), pos(i))))

        def concl(i):
            a = b = 1
            l = 0
            for f in nums:
                a, l = a * f(i), l + self.ln(f(i))
            for f in dens:
                b, l = b * f(i), l - self.ln(f(i))
            return self.le(l, self.quot(a, b) - 1)
        self.assume(self.forall(n, lambda i: self.Implies(cond(i), concl(i))))

    def lemma_ln_le(self, label, n, lhs, rhs, cond):
        """the logarithm is increasing and turns products into sums"""
        pos = lambda i: self.And(*[self.lt(0, f(i)) for f in lhs + rhs])

        def prod(fs, i):
            a = 1
            for f in fs:
                a = a * f(i)
            return a
        self.ensure("lemma: " + label + " (positive)", self.forall(n, lambda i: self.Implies(cond(i), pos(i))))
        self.ensure("lemma: " + label + " (ordered)", self.forall(n, lambda i: self.Implies(cond(i), self.le(prod(lhs, i), prod(rhs, i)))))
        ls = lambda fs, i: sum([self.ln(f(i)) for f in fs[1:]], self.ln(fs[0](i)))
        self.assume(self.forall(n, lambda i: self.Implies(cond(i), self.le(ls(lhs, i), ls(rhs, i)))))

    def tabulated(self, d, vals):
        """a distribution whose density at the points it is asked for is the given list of values"""
        return TabDist(d, vals)

    def small(self, t, r):
        """look for a counterexample of small dimensions"""
        dims = [it[2] for it in self.inputs if it[1] == "int"]
        for b in (2, 4):
            q = self.ctx.solve(t, fast=False, extra=[le(d, const(b)) for d in dims])
            if q[0] == "refuted":
                return q
        return r

    def ensure_shape(self, label, arr, shape):
        if not isinstance(arr, Arr):
            ok = len(shape) == 0 and is_num(arr)
            self.ensure(label, ok)
            return
        if arr.ndim != len(shape):
            self.ensure(label + " (number of axes)", False)
            return
        self.ensure(label, S(and_(*[eq(a, lift(b).t) for a, b in zip(arr._shape, shape)])))

    def ensure_eq(self, label, arr, shape, fn):
        """shape and every element"""
        self.ensure_shape(label + ": shape", arr, shape)
        if len(shape) == 1:
            self.ensure(label, self.forall(shape[0], lambda i: self.eq(self.at(arr, i), fn(i))))
        elif len(shape) == 2:
            self.ensure(label, self.forall(shape[0], lambda i: self.forall(shape[1], lambda j: self.eq(self.at(arr, i, j), fn(i, j)))))
        else:
            raise Unsupported("rank")

    def raises(self, f):
        """does the call raise an ordinary exception?"""
        try:
            f()
        except (PathEnd, Unsupported, Budget, loops.Retry, Failed):
            raise
        except Exception as e:
            if engine_error(e):
                raise Unsupported("engine: %r" % (e,))
            return True
        return False

    def ensure_raises(self, label, f):
        self.ensure(label, self.raises(f))

    def events(self, kind):
        return [e for e in self.ctx.events if e[0] == kind]

    def choices(self, mark):
        """the categorical draws since: segments (count, index chosen at j, probabilities at j)"""
        r = []
        for dr in self.ctx.draws[mark:]:
            if dr.kind != "categorical":
                continue
            ls = [l for l in dr.loops if isinstance(l, loops.Loop) and not l.concrete]
            if len(ls) != len(dr.lead) or len(ls) > 1 or not hasattr(dr, "index"):
                raise Unsupported("categorical draws of an undetermined form")
            at = (lambda t, j, dr=dr: T.subst(t, {dr.lead[0]: lift(j).t})) if ls else (lambda t, j: t)
            pv, pg = dr.args[0], dr.args[0].getter()

            def prob(j, k, at=at, pg=pg):
                e = lift(pg(lift(k).t))
                return S(at(numt(e), j))
            r.append((S(ls[0].total()) if ls else S(ONE), lambda j, at=at, dr=dr: S(at(dr.index, j)), prob, pv._shape[0]))
        return r

    def draws(self):
        return list(self.ctx.draws)

    # ---------------------------------------------------------------- models
    def model(self, mt):
        """input values of a counterexample"""
        m, tr = mt
        import z3
        res = {}

        def val(e):
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            return None
        try:
            dims = {}
            for it in self.inputs:
                if it[1] in ("int", "real"):
                    res[it[0]] = val(tr.tr(it[2]))
                elif it[1] == "pick":
                    res[it[0]] = it[2]
                elif it[1] in ("reals", "spd"):
                    shp = it[2] if it[1] == "reals" else (it[2], it[2])
                    kd = it[3] if it[1] == "reals" else "R"
                    ns = [val(tr.tr(d)) for d in shp]
                    if any(n is None or n > 12 for n in ns):
                        continue
                    import itertools
                    flat = []
                    for ix in itertools.product(*[range(n) for n in ns]):
                        a = tuple(const(i) for i in ix)
                        x = val(tr.tr(T.app(it[0], a, kd)))
                        if it[1] == "reals" and it[4]:
                            if val(tr.tr(T.app(it[0] + "?nan", a, "B"))):
                                x = "nan"
                            elif val(tr.tr(T.app(it[0] + "?pinf", a, "B"))):
                                x = "inf"
                            elif val(tr.tr(T.app(it[0] + "?minf", a, "B"))):
                                x = "-inf"
                        flat.append(x)
                    res[it[0]] = {"shape": ns, "data": flat}
        except Exception as e:
            res["_error"] = repr(e)
        return res


def raised_on_purpose(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    import linecache
    return linecache.getline(tb.tb_frame.f_code.co_filename, tb.tb_lineno).strip().startswith("raise ")


def engine_error(e):
    """an exception that shows a gap of the generator rather than a behaviour of the code"""
    if isinstance(e, (AssertionError, ZeroDivisionError, NotImplementedError)):
        return False
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last else ""
    if "/vf/" in fn or "/contracts/" in fn:
        # deliberate numpy-like errors are raised with a `raise` statement in the model
        import linecache
        line = linecache.getline(fn, last.tb_lineno).strip()
        return not line.startswith("raise ")
    return isinstance(e, (RecursionError,)) and False


class SymJob(Job):
    def __init__(self, **k):
        super().__init__(**k)
        self.obs = []
        self.covers = {}
        self.stop_on_fail = False


def run_symbolic(fn, deadline=None, max_paths=300):
    """-> dict with obligations, status and notes"""
    job = SymJob(max_paths=max_paths, deadline=deadline)
    load.CALLED.clear()
    unsupported = []
    npaths = [0]

    def body(ctx):
        npm.setup_facts(ctx)
        npaths[0] += 1
        v = SymV(ctx, job)
        mark = len(job.obs)
        try:
            try:
                fn(v)
            finally:
                for mod, name, old in reversed(ctx.ghost.get("undo", [])):
                    if old is MISSING:
                        delattr(mod, name)
                    else:
                        setattr(mod, name, old)
                for cls, name, old in reversed(ctx.ghost.get("stubs", [])):
                    setattr(cls, name, old)
        except (PathEnd, Failed):
            raise PathEnd()
        except loops.Retry:
            del job.obs[mark:]
            raise
        except Unsupported as e:
            unsupported.append("%s" % e)
            job.obs.append(Obligation("within the generator's reach", "unsupported", 0, traceback.format_exc()[-1800:]))
        except Budget:
            raise
        except RecursionError as e:
            r = v.small(FALSE, ctx.solve(FALSE, fast=False))
            if r[0] != "proved":
                job.obs.append(Obligation("terminates", "refuted" if r[0] == "refuted" else "unknown", 0,
                                          "RecursionError\n" + traceback.format_exc()[-1200:], v.model(r[1]) if r[1] else None))
        except Exception as e:
            r = v.small(FALSE, ctx.solve(FALSE, fast=False))
            if r[0] == "proved":
                raise PathEnd()
            if engine_error(e):
                unsupported.append("engine: %r" % (e,))
                job.obs.append(Obligation("within the generator's reach", "unsupported", 0, traceback.format_exc()[-1800:]))
                return
            st = r[0]
            if isinstance(e, (AttributeError, TypeError, NameError)) and not raised_on_purpose(e):
                # the values of the generator are not the real ones: such an error counts only when the real code shows it
                st = "unsupported"
                unsupported.append("%r" % (e,))
            job.obs.append(Obligation("no unexpected error (%s)" % type(e).__name__, st, 0, traceback.format_exc()[-1800:],
                                      v.model(r[1]) if r[1] else None))
    status = "ok"
    try:
        job.explore(body)
    except Budget as e:
        status = "budget: %s" % e
        job.obs.append(Obligation("explored within the budget", "unsupported", 0, str(e)))
    except Unsupported as e:
        job.obs.append(Obligation("within the generator's reach", "unsupported", 0, str(e)))
    return {"obs": job.obs, "covers": job.covers, "paths": npaths[0], "called": sorted(load.CALLED), "status": status,
            "unsupported": unsupported}
