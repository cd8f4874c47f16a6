"""Concrete side: runs the same harnesses on the unmodified code of /repo with numpy, on random and on given inputs.

Used to replay counterexamples of the prover, to cross-check the specification itself against the real code, and as
the bounded stand-in for functions outside the generator's reach.  Comparisons of reals are three-valued: within
rounding error of equality they are undecided, and an undecided obligation is not a failure.
"""
import builtins
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback

REPO = os.environ.get("VF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
sys.path.insert(1, ROOT)
import numpy as np  # noqa: E402

np.seterr(all="ignore")
import warnings  # noqa: E402

warnings.simplefilter("ignore")


class Discard(Exception):
    pass


class Violation(Exception):
    pass


class Timeout(BaseException):
    pass


REL, ABS = 1e-6, 1e-9


def num(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise Violation("a single number where an array of shape %s was found" % (x.shape,))
        return x.reshape(-1)[0].item()
    if isinstance(x, np.generic):
        return x.item()
    return x


def near(a, b):
    return abs(a - b) <= ABS + REL * max(abs(a), abs(b))


def isint(x):
    return isinstance(x, (int, np.integer, bool))


class Draw:
    def __init__(self, kind, args, out):
        self.kind, self.args, self.out, self.loops = kind, args, out, []


class ConcDist:
    """a concrete distribution with ghost counters; prob and log_prob agree"""

    def __init__(self, v, name, d, ident=(), positive=False, support=None, bounded=False):
        r = v.rng
        self.v, self.vname, self.dims, self.ident = v, name, d, tuple(ident)
        self.evals = self.drawn = self.calls = 0
        self.support_vals = support
        self.positive, self.bounded = positive, bounded
        self.type = "abstract"
        self.params = {"type": "abstract", "dims": d}
        self.c = r.normal(size=d)
        self.s = float(r.choice([0.5, 1.0, 3.0]))
        self.k = float(r.choice([0.3, 1.0, 5.0]))
        self.cut = None if positive or r.random() < 0.5 else float(r.normal() - 0.7)
        self.flat = r.random() < 0.15
        if support is not None:
            lo, hi = np.asarray(support[0], dtype=float), np.asarray(support[1], dtype=float)
            self.c = lo + (hi - lo) * r.random(d)
            self.s = max(self.s, float(np.max(hi - lo)) * 0.5)
            if self.cut is not None:
                self.cut = float(lo[0] + (hi[0] - lo[0]) * 0.4 * r.random())

    def f(self, x):
        x = np.asarray(x, dtype=float).reshape(-1)
        if not np.all(np.isfinite(x)):
            return 0.0 if not self.positive else 1e-300
        if self.cut is not None and x[0] < self.cut:
            return 0.0
        if self.flat:
            return self.k
        z = np.clip((x - self.c) / self.s, -8, 8)
        return float(self.k * np.exp(-0.5 * np.sum(z * z) / len(x)))

    def rows(self, x):
        x = np.asarray(x)
        if x.ndim == 1:
            x = x.reshape(1, self.dims)
        if x.ndim != 2 or x.shape[1] != self.dims:
            raise ValueError("Shape of x does not match self.dims")
        return x

    def prob(self, x):
        x = self.rows(x)
        self.evals += len(x)
        self.calls += 1
        self.v._events.append(("prob", self, np.array(x)))
        return np.array([self.f(r) for r in x])

    def log_prob(self, x):
        return np.log(self.prob(x))

    def at(self, x):
        return self.f(x)

    def sample(self, n_samples=1):
        n = int(n_samples)
        r = self.v.rng
        if self.bounded and self.support_vals is not None:
            lo, hi = (np.asarray(q, dtype=float) for q in self.support_vals)
            s = lo + (hi - lo) * r.random((n, self.dims))
        else:
            s = self.c + self.s * r.normal(size=(n, self.dims))
        self.drawn += n
        self.v._draws.append(Draw("sample_" + self.vname, (self, n), np.array(s)))
        self.v._events.append(("sample", self, np.array(s)))
        return s

    def support(self):
        return self.support_vals

    def is_ready(self):
        return True

    def wait_for_ready(self, timeout):
        return True

    def set_approximation_samples(self, *a):
        pass


KINDS = {"rand": "uniform", "random": "uniform", "random_sample": "uniform", "uniform": "uniform", "randn": "normal",
         "standard_normal": "normal", "normal": "normal", "multivariate_normal": "mvn", "exponential": "exponential",
         "choice": "categorical", "multinomial": "multinomial", "randint": "randint"}


class TabDist(ConcDist):
    """a distribution whose density at the points it is asked for is the given list of values"""

    def __init__(self, v, d, vals):
        super().__init__(v, "tab", d)
        self.vals = np.asarray(vals, dtype=float)

    def prob(self, x):
        x = self.rows(x)
        self.v._events.append(("prob", self, x.copy()))
        return self.vals.copy()

    def log_prob(self, x):
        with np.errstate(all="ignore"):
            return np.log(self.prob(x))


class ConV:
    symbolic = False

    def __init__(self, rng, fixed=None):
        self.rng = rng
        self.fixed = fixed or {}
        self._pool = {}
        self.np = np
        self.pi, self.inf, self.nan = math.pi, float("inf"), float("nan")
        self._events, self._draws, self._undo = [], [], []
        self.values = {}
        self.covers = set()
        self.nens = 0
        self.undecided = 0
        np.random.seed(int(rng.integers(2 ** 31)))
        for n, kd in KINDS.items():
            self._wrap(n, kd)

    def _wrap(self, name, kd):
        real = getattr(np.random, name)

        def w(*a, **k):
            if kd in ("categorical", "multinomial"):
                return self._categorical(kd, real, *a, **k)
            r = real(*a, **k)
            self._draws.append(Draw(kd, a + tuple(k.values()), np.array(r)))
            self._events.append(("draw", kd, a, np.array(r)))
            return r
        w.__wrapped__ = real
        setattr(np.random, name, w)
        self._undo.append((np.random, name, real))

    def _categorical(self, kd, real, *a, **k):
        if kd == "multinomial":
            r = real(*a, **k)
            n, p = (list(a) + [k.get("n"), k.get("pvals")])[:2] if len(a) < 2 else a[:2]
            n = k.get("n", n)
            p = k.get("pvals", p)
            if n == 1:
                dr = Draw("categorical", (np.array(p),), np.argmax(r, axis=-1))
            else:
                dr = Draw("multinomial", (n, np.array(p)), np.array(r))
        else:
            names = ("a", "size", "replace", "p")
            b = {"size": None, "replace": True, "p": None}
            b.update(zip(names, a))
            b.update(k)
            arr = b["a"]
            m = int(arr) if np.ndim(arr) == 0 else len(arr)
            if np.ndim(arr) > 1:
                raise ValueError("a must be 1-dimensional")
            i = real(m, b["size"], b["replace"], b["p"])
            r = i if np.ndim(arr) == 0 else np.asarray(arr)[i]
            dr = Draw("categorical", (None if b["p"] is None else np.array(b["p"]), m), np.array(i))
        self._draws.append(dr)
        self._events.append(("draw", dr.kind, dr.args, dr.out))
        return r

    def close(self):
        if hasattr(self, "_dir"):
            import shutil
            shutil.rmtree(self._dir, ignore_errors=True)
        for m, n, o in reversed(self._undo):
            setattr(m, n, o)

    # ---- code
    def mod(self, name):
        return importlib.import_module(name)

    def cls(self, path):
        m, c = path.rsplit(".", 1)
        return getattr(importlib.import_module(m), c)

    def drive(self, name):
        return importlib.import_module("contracts.drive." + name)

    def fakes(self, *mods):
        """clock and heap readings of our own, logged, in place of the real ones in these modules"""
        import time, timeit, types
        state = {"t": float(self.rng.random())}

        def now():
            state["t"] += float(self.rng.choice([0.0, 1e-3, 0.5, 7.0]) * self.rng.random())
            self._events.append(("time", state["t"]))
            return state["t"]

        def sleep(s=0):
            state["t"] += s

        class Heap:
            def heap(h):
                n = int(self.rng.integers(0, 10 ** 8))
                self._events.append(("heap", n))
                return types.SimpleNamespace(size=n)
        tm = types.SimpleNamespace(time=now, perf_counter=now, monotonic=now, process_time=now, sleep=sleep, default_timer=now)
        real = [time.time, time.perf_counter, time.monotonic, time.process_time, timeit.default_timer]
        for mod in mods:
            mod = importlib.import_module(mod)
            for k, x in list(vars(mod).items()):
                if x is time or x is timeit:
                    self.setmod(mod, k, tm)
                elif any(x is f for f in real):
                    self.setmod(mod, k, now)
                elif x is time.sleep:
                    self.setmod(mod, k, sleep)
                elif getattr(x, "__module__", "") is not None and k == "hpy" or getattr(x, "__name__", "") == "hpy":
                    self.setmod(mod, k, Heap)
                elif getattr(x, "__name__", "") == "guppy":
                    self.setmod(mod, k, types.SimpleNamespace(hpy=Heap))
                elif getattr(x, "__name__", "") == "gc":
                    self.setmod(mod, k, types.SimpleNamespace(collect=lambda *a: 0, disable=lambda: None, enable=lambda: None))

    def mark(self, kind):
        return len(self.events(kind))

    def loop_readings(self, kind, mark, n):
        ev = [e[1] for e in self.events(kind)[mark:]]
        per = len(ev) // n if n else 0
        return [lambda j, k=k: ev[j * per + k] for k in range(per)] if n and len(ev) == per * n else []

    def setmod(self, mod, name, val):
        self._undo.append((mod, name, getattr(mod, name)))
        setattr(mod, name, val)

    def clock(self, *mods):
        """a clock that moves only when told to, in place of the real one in these modules"""
        import time, timeit, types
        c = types.SimpleNamespace(t=float(self.rng.random()) * 10)
        now = lambda: c.t

        def advance(dt):
            c.t += dt
        c.now, c.advance = now, advance
        tm = types.SimpleNamespace(time=now, perf_counter=now, monotonic=now, process_time=now, sleep=lambda s=0: None, default_timer=now)
        real = [time.time, time.perf_counter, time.monotonic, time.process_time, timeit.default_timer]
        for mod in mods:
            mod = importlib.import_module(mod)
            for k, x in list(vars(mod).items()):
                if x is time or x is timeit:
                    self.setmod(mod, k, tm)
                elif any(x is f for f in real):
                    self.setmod(mod, k, now)
        return c

    def file(self, name):
        """the path of a file of this run"""
        if not hasattr(self, "_dir"):
            import tempfile
            self._dir = tempfile.mkdtemp(prefix="vf")
        return os.path.join(self._dir, name)

    def text(self, path):
        return open(path).read() if os.path.exists(path) else ""

    def rows(self, text):
        rows = text.split("\n")
        if rows[-1] == "":
            rows.pop()
        else:
            rows[-1] += " (no end of line)"
        return [r.split() for r in rows]

    def shows(self, field, val, rel=0, abs=0):
        """the field shows this value (up to the printed precision)"""
        if isinstance(val, str):
            return field == val
        try:
            x, y = float(field), float(val)
        except (TypeError, ValueError):
            return False
        if x == y or x != x and y != y:
            return True
        return bool(builtins.abs(x - y) <= abs + rel * builtins.abs(y)) if math.isfinite(x) and math.isfinite(y) else False

    def yaml(self, name, obj):
        """a configuration file with this content"""
        import yaml
        p = self.file(name)
        with open(p, "w") as f:
            yaml.safe_dump(obj, f, sort_keys=False)
        return p

    # ---- inputs
    def _put(self, name, v):
        self.values[name] = v
        return v

    def dim(self, name, lo=1, hi=None, small=None):
        f = self.fixed.get(name)
        if f is not None and lo <= f <= 8:
            return self._put(name, int(f))
        h = lo + (small or 3) if hi is None else min(hi, lo + (small or 3))
        return self._put(name, int(self.rng.integers(lo, h + 1)))

    def int(self, name, lo=None, hi=None):
        f = self.fixed.get(name)
        if f is not None:
            if (lo is None or f >= lo) and (hi is None or f <= hi):
                return self._put(name, int(f))
        lo_ = -3 if lo is None and hi is None else (hi - 6 if lo is None else lo)
        hi_ = lo_ + 6 if hi is None else min(hi, lo_ + 40)
        if hi_ < lo_:
            raise Discard()
        return self._put(name, int(self.rng.integers(lo_, hi_ + 1)))

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False):
        if name in self.fixed and isinstance(self.fixed[name], (int, float)):
            x = float(self.fixed[name])
            if not ((lo is not None and x < lo) or (hi is not None and x > hi) or (pos and x <= 0) or (nonneg and x < 0)):
                return self._put(name, x)
        return self._put(name, float(self._gen((), pos, nonneg, lo, hi, "R")))

    def bool(self, name):
        return self._put(name, bool(self.fixed.get(name, self.rng.random() < 0.5)))

    def pick(self, name, options):
        k = self.fixed.get(name)
        if not isinstance(k, int):
            k = int(self.rng.integers(len(options)))
        self._put(name, k)
        return options[k]

    def _gen(self, shp, pos, nonneg, lo, hi, kind):
        r = self.rng
        style = r.integers(6)
        if lo is not None or hi is not None:
            l = np.asarray(lo, dtype=float) if lo is not None else None
            h = np.asarray(hi, dtype=float) if hi is not None else None
            if l is None:
                l = h - r.choice([0.5, 1, 4])
            if h is None:
                h = l + r.choice([0.5, 1, 4])
            u = r.random(shp)
            if style == 0:
                u = np.round(u)          # corners
            elif style == 1:
                u = np.round(u * 4) / 4
            x = l + (h - l) * u
            x = np.minimum(np.maximum(x, l), h)
        elif style == 0:
            x = r.integers(-2, 3, size=shp).astype(float)
        elif style == 1:
            x = r.integers(-2, 3, size=shp) / 2.0
        elif style == 2:
            x = r.normal(size=shp) * 10
        else:
            x = r.normal(size=shp)
        x = np.asarray(x, dtype=float)
        if pos or nonneg:
            x = np.abs(x)
        if pos:
            x = np.where(x <= 0, r.choice([0.25, 1.0]), x)
        if nonneg and style == 3 and x.size:
            x = x * (r.random(x.shape) < 0.6)
        if kind == "I":
            x = np.round(x).astype(int)
        return x

    def reals(self, name, shape, pos=False, nonneg=False, lo=None, hi=None, special=False, kind="R"):
        shp = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        f = self.fixed.get(name)
        if isinstance(f, dict) and tuple(f["shape"]) == shp and all(x is not None for x in f["data"]):
            x = np.array([float(q) for q in f["data"]], dtype=float).reshape(shp)
            if np.all(np.isfinite(x)) and x.size and np.max(np.abs(x)) > 1e6:
                x = np.clip(x, -1e6, 1e6)
            if pos:
                x = np.where(x <= 0, 1.0, x)
            if nonneg:
                x = np.abs(x)
            if lo is not None:
                x = np.maximum(x, lo)
            if hi is not None:
                x = np.minimum(x, hi)
        else:
            x = self._gen(shp, pos, nonneg, lo, hi, kind)
            # coincidences between inputs: the same values again, or the same values in another order
            old = self._pool.setdefault((shp, pos, nonneg, kind), [])
            if lo is None and hi is None and x.size:
                u = self.rng.random()
                if old and u < 0.1:
                    x = old[int(self.rng.integers(len(old)))].copy()
                elif old and u < 0.2:
                    x = old[int(self.rng.integers(len(old)))]
                    x = self.rng.permutation(x.reshape(-1)).reshape(x.shape)
                old.append(np.array(x))
            if special and x.size:
                fl = "npm" if special is True else special
                vals = {"n": np.nan, "p": np.inf, "m": -np.inf}
                x = np.array(x)
                for ix in np.ndindex(*shp):
                    if self.rng.random() < 0.25:
                        x[ix] = vals[fl[int(self.rng.integers(len(fl)))]]
        self._put(name, np.array(x))
        return x

    def spd(self, name, d):
        f = self.fixed.get(name)
        if isinstance(f, dict) and tuple(f["shape"]) == (d, d):
            a = np.array(f["data"], dtype=float).reshape(d, d)
            if np.all(np.isfinite(a)) and np.max(np.abs(a)) < 1e4 and np.allclose(a, a.T) and np.all(np.linalg.eigvalsh(a) > 1e-3):
                return self._put(name, a)
        a = self.rng.normal(size=(d, d))
        old = self._pool.setdefault(("spd", d), [])
        if old and self.rng.random() < 0.3:
            b = old[int(self.rng.integers(len(old)))]
            p = self.rng.permutation(d)
            a = b[p][:, p].copy() if self.rng.random() < 0.7 else b.copy()
            old.append(a)
            return self._put(name, a)
        if self.rng.random() < 0.3:
            a = np.diag(np.abs(np.diag(a)) + 0.3)
        else:
            a = a @ a.T + 0.3 * np.eye(d)
        old.append(a)
        return self._put(name, a)

    def dist(self, name, d, positive=False, support=None, bounded=False):
        return ConcDist(self, name, d, (), positive, support, bounded)

    def fn(self, name, positive=False):
        """an arbitrary non-negative function of a number, applied element by element"""
        r = self.rng
        a, b, c, k = r.normal(), float(r.choice([0.5, 1, 4])), float(r.choice([0.2, 1, 3])), r.integers(3)
        low = 1e-3 if positive else 0.0

        def f(u):
            u = np.asarray(u, dtype=float)
            z = (u - a) * b
            return low + c * [lambda: np.exp(-0.5 * np.clip(z, -9, 9) ** 2), lambda: 1.0 * (np.abs(z) < 1), lambda: np.maximum(0, 1 - np.abs(z))][k]()
        return f

    def scaled(self, base, c):
        import copy
        q = copy.copy(base)
        q.evals = q.drawn = q.calls = 0
        q.k = base.k * c
        return q

    def tabulated(self, d, vals):
        return TabDist(self, d, vals)

    def dists(self, name, m, d, positive=False):
        return [ConcDist(self, name, d, (i,), positive) for i in range(m)]

    def frozen(self, lst):
        import copy
        return copy.deepcopy(lst)

    def len0(self, x):
        return np.ndim(x) == 1 and len(x) == 0

    def points_drawn(self, mark, kinds=("mvn",)):
        tot = 0
        for dr in self._draws[mark:]:
            if dr.kind in kinds or dr.kind.startswith("sample_"):
                tot += int(np.prod(np.shape(dr.out)[:-1], dtype=int))
        return tot

    def has_method(self, o, name, nargs):
        import inspect
        f = getattr(o, name, None)
        try:
            ok = f is not None and len([p for p in inspect.signature(f).parameters.values() if p.default is p.empty]) == nargs
        except (TypeError, ValueError):
            ok = False
        if not ok:
            raise Discard()

    def list(self, n, fn):
        return [fn(i) for i in range(n)]

    # ---- three-valued logic
    def _t(self, x):
        if x is None:
            return None
        if isinstance(x, np.ndarray):
            return bool(num(x))
        return bool(x)

    def And(self, *a):
        a = [self._t(x) for x in a]
        return False if any(x is False for x in a) else (None if any(x is None for x in a) else True)

    def Or(self, *a):
        a = [self._t(x) for x in a]
        return True if any(x is True for x in a) else (None if any(x is None for x in a) else False)

    def Not(self, a):
        a = self._t(a)
        return None if a is None else not a

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        a, b = self._t(a), self._t(b)
        return None if a is None or b is None else a == b

    def If(self, c, a, b):
        c = self._t(c)
        if c is None:
            raise Discard()
        return a if c else b

    def eq(self, a, b, tol=None):
        a, b = num(a), num(b)
        if isinstance(a, (bool, str)) or isinstance(b, (bool, str)) or a is None or b is None:
            return a == b
        if isint(a) and isint(b):
            return a == b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        if tol is not None and abs(a - b) <= tol:
            return None
        return None if near(a, b) else False

    def le(self, a, b):
        a, b = num(a), num(b)
        if a <= b:
            if isint(a) and isint(b) or a == b or math.isinf(a) or math.isinf(b):
                return True
            return None if near(a, b) else True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b) or (isint(a) and isint(b)):
            return False
        return None if near(a, b) else False

    def lt(self, a, b):
        if math.isnan(num(a)) or math.isnan(num(b)):
            return False
        return self.Not(self.le(b, a))

    def finite(self, a):
        return bool(math.isfinite(num(a)))

    def isnan(self, a):
        return bool(math.isnan(num(a)))

    def forall(self, n, fn):
        r = True
        for i in range(int(n)):
            x = self._t(fn(i))
            if x is False:
                return False
            if x is None:
                r = None
        return r

    def exists(self, n, fn):
        r = False
        for i in range(int(n)):
            x = self._t(fn(i))
            if x is True:
                return True
            if x is None:
                r = None
        return r

    def sum(self, n, fn):
        r = 0
        for i in range(int(n)):
            x = num(fn(i))
            r = r + (int(x) if isinstance(x, bool) else x)
        return r

    def prod(self, n, fn):
        r = 1
        for i in range(int(n)):
            r = r * num(fn(i))
        return r

    def rank(self, n, cond, i):
        return self.sum(i, lambda j: self.ind(cond(j)))

    def ind(self, c):
        """1 if the condition holds, else 0"""
        return self.If(c, 1, 0)

    def exp(self, x):
        return np.exp(x)

    def log(self, x):
        return np.log(x)

    def underflows(self, lp):
        """a log-density so low that the density is zero in floating point only"""
        lp = num(lp)
        return math.isfinite(lp) and lp < -690

    def sqrt(self, x):
        return np.sqrt(x)

    def abs(self, x):
        return np.abs(x)

    def det(self, m):
        return np.linalg.det(m)

    def inv(self, m):
        return np.linalg.inv(m)

    def floor(self, x):
        x = num(x)
        if not isint(x) and abs(x - round(x)) < 1e-7 and x != round(x):
            raise Discard()
        return int(math.floor(x))

    def at(self, arr, *idx):
        try:
            return arr[tuple(int(i) for i in idx)] if isinstance(arr, np.ndarray) else self._deep(arr, idx)
        except IndexError:
            raise Violation("an element %s of %s" % (idx, np.shape(arr)))

    def _deep(self, a, idx):
        for i in idx:
            a = a[int(i)]
        return a

    def row(self, arr, i):
        return arr[int(i)]

    def vec(self, n, fn):
        return np.array([float(num(fn(i))) for i in range(int(n))])

    def mat(self, n, m, fn):
        return np.array([[float(num(fn(i, j))) for j in range(int(m))] for i in range(int(n))]).reshape(int(n), int(m))

    def copy(self, a):
        return np.array(a)

    def len(self, x):
        return len(x)

    def ndim(self, x):
        return np.ndim(x)

    def shape(self, x, k):
        return np.shape(x)[k]

    def getitem(self, l, i):
        return l[int(i)]

    # ---- obligations
    def assume(self, c):
        if self._t(c) is not True:
            raise Discard()

    def cover(self, label=""):
        self.covers.add(label)

    def case(self, c):
        c = self._t(c)
        if c is None:
            raise Discard()
        return c

    def ensure(self, label, c):
        self.nens += 1
        c = self._t(c)
        if c is None:
            self.undecided += 1
        if c is False:
            raise Violation(label)

    def ensure_shape(self, label, arr, shape):
        s = np.shape(arr)
        if tuple(s) != tuple(int(x) for x in shape):
            self.nens += 1
            raise Violation("%s: found %s, expected %s" % (label, s, tuple(shape)))
        self.nens += 1

    def ensure_eq(self, label, arr, shape, fn):
        self.ensure_shape(label + ": shape", arr, shape)
        for ix in np.ndindex(*[int(x) for x in shape]):
            e = fn(*ix)
            if self.eq(self.at(arr, *ix), e) is False:
                raise Violation("%s at %s: found %r, expected %r" % (label, ix, num(self.at(arr, *ix)), num(e)))
        self.nens += 1

    def raises(self, f):
        try:
            f()
        except (Discard, Violation, Timeout):
            raise
        except Exception:
            return True
        return False

    def ensure_raises(self, label, f):
        self.ensure(label, self.raises(f))

    def have(self, label, c):
        self.ensure(label, c)

    def ln(self, x):
        return math.log(x) if x > 0 else 0.0

    def quot(self, a, b):
        return a / b if b != 0 else 0.0

    def lemma_sum_mono(self, *a, **k):
        pass

    lemma_squares = lemma_weighted_mono = lemma_ln_le = lemma_log = lemma_prod_mono = lemma_prod_eq = lemma_sum_mono

    def events(self, kind):
        return [e for e in self._events if e[0] == kind]

    def draws(self):
        return list(self._draws)


def _alarm(*a):
    raise Timeout()


def jsonable(x):
    if isinstance(x, np.ndarray):
        return {"shape": list(x.shape), "data": [jsonable(y) for y in x.reshape(-1).tolist()]}
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, (np.generic,)):
        return jsonable(x.item())
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class EngineGap(Exception):
    pass


def run_one(fn, seed, fixed=None, limit=10):
    """-> (status, info)  status in ok / discard / violation"""
    rng = np.random.default_rng(seed)
    v = ConV(rng, fixed)
    # the limit counts processor time; a blocked call is stopped after a longer wall time
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(limit * 4)
    try:
        try:
            fn(v)
            return "ok", v
        except Discard:
            return "discard", v
        except Violation as e:
            v.label = str(e)
            v.trace = ""
            return "violation", v
        except Timeout:
            v.label = "terminates (no result after %d s)" % limit
            v.trace = ""
            return "violation", v
        except RecursionError as e:
            v.label = "no unexpected error (RecursionError)"
            v.trace = str(e)[:300]
            return "violation", v
        except Exception as e:
            v.label = "no unexpected error (%s: %s)" % (type(e).__name__, str(e)[:200])
            v.trace = traceback.format_exc()[-1500:]
            return "violation", v
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
        v.close()


def main():
    req = json.loads(sys.stdin.read())
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    res = {}
    try:
        m = importlib.import_module("contracts." + req["module"])
    except Exception:
        out.write(json.dumps({"_import": traceback.format_exc()[-2000:]}))
        out.flush()
        return
    if req.get("list"):
        out.write(json.dumps({"harnesses": [n for n in vars(m) if n[:2] in ("h_", "b_", "k_") and callable(getattr(m, n))]}))
        out.flush()
        return
    if req.get("one"):
        q = req["one"]
        st, v = run_one(getattr(m, q["harness"]), q["seed"], q["fixed"], 60)
        out.write(json.dumps({"status": st, "failed": getattr(v, "label", None), "inputs": {k: jsonable(x) for k, x in v.values.items()}, "trace": getattr(v, "trace", "")}, indent=1))
        out.flush()
        return
    for name, spec in req["harnesses"].items():
        fn = getattr(m, name)
        t0 = time.time()
        r = {"trials": 0, "discarded": 0, "ensures": 0, "undecided": 0, "covers": [], "failures": [], "replayed": 0}
        cov = set()
        labels = {}
        jobs = [(("m", i), mdl) for i, mdl in enumerate(spec.get("models", []))]
        jobs += [(("r", i), None) for i in range(spec.get("trials", 100))]
        hits = 0
        for (kind, i), mdl in jobs:
            if time.time() - t0 > spec.get("budget", 20):
                break
            st, v = run_one(fn, [req.get("seed", 1), i, 0 if kind == "m" else 1, _h(name)], mdl, spec.get("limit", 10))
            r["trials"] += 1
            if kind == "m":
                r["replayed"] += 1
            r["ensures"] += v.nens
            r["undecided"] += v.undecided
            if st == "discard":
                r["discarded"] += 1
                continue
            cov |= v.covers
            if st == "violation":
                hits += 1
                key = v.label.split(":")[0][:80]
                if key not in labels:
                    labels[key] = 1
                    r["failures"].append({"label": v.label, "inputs": {k: jsonable(x) for k, x in v.values.items()},
                                          "trace": v.trace, "seed": [req.get("seed", 1), i, 0 if kind == "m" else 1, _h(name)],
                                          "from_model": kind == "m", "n": 1})
                if hits >= 12:
                    break
        r["covers"] = sorted(cov)
        r["secs"] = round(time.time() - t0, 2)
        res[name] = r
    out.write(json.dumps(res))
    out.flush()


def _h(s):
    import zlib
    return zlib.crc32(s.encode())


if __name__ == "__main__":
    main()
