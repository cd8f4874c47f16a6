"""Model of the numpy functions the repository uses, over symbolic arrays (assumed contracts on numpy)."""
import builtins
from fractions import Fraction
from . import terms as T
from .terms import TRUE, FALSE, ZERO, ONE, const, add, sub, mul, neg, lt, le, eq, and_, or_, not_, implies, ite
from .ctx import Ctx, Unsupported
from . import sym
from .sym import (S, Arr, DType, lift, out, cx, is_num, numt, truth, simp, s_add, s_sub, s_mul, s_div, s_neg, s_exp, s_log,
                  s_sqrt, s_abs, s_ite, s_max, s_min, s_eq, s_lt, s_le, arr_binop, bshape2, bget, dim_eq, reduce_, red_sum,
                  red_any, red_all, red_prod, red_ext, kind, ty_kind, uf_arr, norm_axis)
from .vlist import VList

__name__ = "numpy"
newaxis = None
inf = float("inf")
nan = float("nan")
pi = S(T.PI)
e = S(T.app("exp", (ONE,), "R"))
ndarray = Arr
bool_ = bool
float64 = float
int64 = int
double = float
uint = int
float32 = float
int32 = int


class _DT(type):
    pass


def _unwrap(r):
    return r.unwrap0() if isinstance(r, Arr) else out(r) if isinstance(r, S) else r


def is_seq(x):
    return isinstance(x, (list, tuple))


def seq_items(x):
    """elements of a sequence of concrete length, else None"""
    if isinstance(x, VList):
        return [x.at(const(i)) for i in range(len(x))] if x.concrete() else None
    return list(x)


def _elem_info(x):
    """(shape, kind, getter) of something array-like"""
    if isinstance(x, Arr):
        return x._shape, x.kind, x.getter()
    if is_num(x) or hasattr(x, "term_"):
        s = lift(x)
        return (), kind(s), lambda: s
    if is_seq(x):
        items = seq_items(x)
        if items is None:
            n = x.nterm()
            ps = T.fresh("ix", "I")
            with T.scope(ps, n):
                sh, kd, _ = _elem_info(x.at(ps))
            if builtins.any(ps in d.fs for d in sh):
                raise Unsupported("ragged array")
            snap = x.frozen()

            def g(i, *rest):
                return _elem_info(snap(i))[2](*rest)
            # evaluate once at a generic index and substitute: elements are uniform
            def g2(i, *rest):
                with T.scope(ps, n):
                    s = _elem_info(snap(ps))[2](*rest)
                m = {ps: i}
                return S(T.subst(s.t, m), T.subst(s.nan, m), T.subst(s.pinf, m), T.subst(s.ninf, m))
            return (n,) + tuple(sh), kd, g2
        if not items:
            return (ZERO,), "f", lambda *i: S(ZERO)
        infos = [_elem_info(y) for y in items]
        sh = infos[0][0]
        for o in infos[1:]:
            if len(o[0]) != len(sh):
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            for a, b in zip(o[0], sh):
                if not dim_eq(a, b):
                    raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        kd = "b"
        for o in infos:
            kd = "f" if "f" in (kd, o[1]) else "i" if "i" in (kd, o[1]) else "b"
        gs = [o[2] for o in infos]

        def pick(i, *rest):
            if i.op == "const":
                return gs[int(i.args[0])](*rest)
            r = lift(gs[-1](*rest))
            for k in range(len(gs) - 2, -1, -1):
                r = s_ite(eq(i, const(k)), gs[k](*rest), r)
            return r
        return (const(len(items)),) + tuple(sh), kd, pick
    if x is None:
        raise Unsupported("array of objects")
    raise Unsupported("np.array of %r" % (type(x),))


def array(x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, Arr):
        r = x.copy()
    elif is_num(x):
        s = lift(x)
        r = Arr((), lambda: s, kind(s))
    else:
        sh, kd, g = _elem_info(x)
        r = Arr(sh, g, kd)
        # freeze: later mutation of the elements must not show
    if dtype is not None:
        r = r.astype(dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None):
    return x if isinstance(x, Arr) and dtype is None else array(x, dtype)


def copy(x):
    return array(x)


def _shape(shape):
    if is_num(shape):
        shape = (shape,)
    r = []
    for d in shape:
        t = lift(d).t
        if t.sort != "I" or lift(d).fl:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if t.op == "const":
            if t.args[0] < 0:
                raise ValueError("negative dimensions are not allowed")
        elif not cx().entails(le(ZERO, t)):
            if cx().branch(lt(t, ZERO)):
                raise ValueError("negative dimensions are not allowed")
        r.append(t)
    return tuple(r)


def array2string(a, *args, **kw):
    """The printed array; it reads back as the array (assumed: few enough entries, values with few enough digits)."""
    a = _ar(a).copy()
    key = "\x01array%d\x02" % a.oid
    sym.TOKENS[key] = (a, "")
    return key


def full(shape, fill_value, dtype=None):
    v = fill_value
    sh = _shape(shape)
    if isinstance(v, Arr) or is_seq(v):
        v = asarray(v)
        g = bget(v, sh)
        bshape2(v._shape, sh)
        r = Arr(sh, g, v.kind)
    else:
        s = lift(v)
        r = Arr(sh, lambda *i: s, kind(s))
    return r.astype(dtype) if dtype is not None else r


def zeros(shape, dtype=float):
    k = ty_kind(dtype)
    z = S(FALSE) if k == "b" else S(ZERO) 
    return Arr(_shape(shape), lambda *i: z, k)


def ones(shape, dtype=float):
    k = ty_kind(dtype)
    z = S(TRUE) if k == "b" else S(ONE)
    return Arr(_shape(shape), lambda *i: z, k)


empty = zeros


def zeros_like(x, dtype=None):
    x = asarray(x)
    return zeros(tuple(S(d) for d in x._shape), DType(x.kind) if dtype is None else dtype)


def ones_like(x, dtype=None):
    x = asarray(x)
    return ones(tuple(S(d) for d in x._shape), DType(x.kind) if dtype is None else dtype)


def full_like(x, v):
    x = asarray(x)
    return full(tuple(S(d) for d in x._shape), v)


def eye(n, m=None, dtype=float):
    n = lift(n).t
    return Arr((n, n), lambda i, j: S(T.iv(eq(i, j))), "f")


identity = eye


def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if not (isinstance(step, int) and step == 1):
        raise Unsupported("arange with a step")
    lo, hi = lift(a).t, lift(b).t
    if lo.sort != "I" or hi.sort != "I":
        raise Unsupported("arange of reals")
    n = sub(hi, lo)
    if not cx().entails(le(ZERO, n)):
        n = ite(simp(lt(n, ZERO)), ZERO, n)
    return Arr((n,), lambda i: S(add(lo, i)), "i")


def linspace(a, b, num=50, endpoint=True):
    n = lift(num).t
    if n.sort != "I" or lift(num).fl:
        raise TypeError("'float' object cannot be interpreted as an integer")
    if cx().branch(lt(n, ZERO)):
        raise ValueError("Number of samples must be non-negative")
    a, b = asarr_or_s(a), asarr_or_s(b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        shp = bshape2(a._shape if isinstance(a, Arr) else (), b._shape if isinstance(b, Arr) else ())
        ga, gb = bget(a, shp), bget(b, shp)
    else:
        shp = ()
        ga, gb = (lambda *i: a), (lambda *i: b)
    one = cx().branch(eq(n, ONE)) if not cx().scopes else cx().entails(eq(n, ONE))
    den = sub(n, ONE)

    def fn(i, *rest):
        x, y = lift(ga(*rest)), lift(gb(*rest))
        if one:
            return x
        return s_add(x, s_mul(s_sub(y, x), S(T.div(mul(i, ONE), den))))
    return Arr((n,) + shp, fn, "f")


def asarr_or_s(x):
    if is_num(x):
        return lift(x)
    x = asarray(x)
    return lift(x.get(())) if x.ndim == 0 else x


# ------------------------------------------------------------------ element-wise
def ew(fn, x, k="f"):
    if is_seq(x):
        x = array(x)
    if isinstance(x, Arr):
        g = x.getter()
        return Arr(x._shape, lambda *i: fn(g(*i)), k or x.kind).unwrap0()
    return out(fn(lift(x)))


def exp(x):
    return ew(s_exp, x)


def log(x):
    return ew(s_log, x)


def log2(x):
    return ew(lambda s: s_div(s_log(s), S(T.log_(const(2)))), x)


def sqrt(x):
    return ew(s_sqrt, x)


def square(x):
    return ew(lambda s: s_mul(s, s), x, None)


def abs(x):
    return ew(s_abs, x, None)


absolute = fabs = abs


def negative(x):
    return ew(s_neg, x, None)


def sign(x):
    return ew(lambda s: S(sub(T.iv(lt(ZERO, numt(s))), T.iv(lt(numt(s), ZERO)))), x)


def floor(x):
    return ew(lambda s: S(mul(T.floor_(numt(s)), ONE)), x)


def ceil(x):
    return ew(lambda s: S(neg(T.floor_(neg(numt(s))))), x)


def sin(x):
    return ew(lambda s: S(T.app("sin", (numt(s),), "R")), x)


def cos(x):
    return ew(lambda s: S(T.app("cos", (numt(s),), "R")), x)


def isnan(x):
    return ew(lambda s: S(s.nan), x, "b")


def isinf(x):
    return ew(lambda s: S(or_(s.pinf, s.ninf)), x, "b")


def isfinite(x):
    return ew(lambda s: S(not_(or_(s.nan, s.pinf, s.ninf))), x, "b")


def nan_to_num(x):
    return ew(lambda s: s_ite(s.nan, S(ZERO), s), x)


def logical_not(x):
    return ew(lambda s: S(not_(truth(s))), x, "b")


def logical_and(a, b):
    return _unwrap(arr_binop(lambda x, y: S(and_(truth(x), truth(y))), _a(a), _a(b)))._asb()


def _a(x):
    return asarr_or_s(x)


def _bin(fn, a, b, k=None):
    a, b = _a(a), _a(b)
    r = arr_binop(fn, a, b)
    if isinstance(r, Arr) and k:
        r.kind = k
    return r


def logical_and(a, b):
    return _bin(lambda x, y: S(and_(truth(x), truth(y))), a, b, "b")


def logical_or(a, b):
    return _bin(lambda x, y: S(or_(truth(x), truth(y))), a, b, "b")


def logical_xor(a, b):
    return _bin(lambda x, y: S(not_(T.iff(truth(x), truth(y)))), a, b, "b")


def maximum(a, b):
    return _bin(s_max, a, b)


def minimum(a, b):
    return _bin(s_min, a, b)


def fmin(a, b):
    return _bin(s_min, a, b)


def add_(a, b):
    return _bin(s_add, a, b)


def subtract(a, b):
    return _bin(s_sub, a, b)


def multiply(a, b):
    return _bin(s_mul, a, b)


def divide(a, b):
    return _bin(s_div, a, b)


true_divide = divide


def power(a, b):
    return _bin(sym.s_pow, a, b)


def greater(a, b):
    return _bin(lambda x, y: s_lt(y, x), a, b, "b")


def less(a, b):
    return _bin(s_lt, a, b, "b")


def greater_equal(a, b):
    return _bin(lambda x, y: s_le(y, x), a, b, "b")


def less_equal(a, b):
    return _bin(s_le, a, b, "b")


def equal(a, b):
    return _bin(s_eq, a, b, "b")


def not_equal(a, b):
    return _bin(sym.s_ne, a, b, "b")


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        d = numt(s_abs(s_sub(x, y)))
        bound = add(lift(atol).t, mul(lift(rtol).t, numt(s_abs(y))))
        fin = not_(or_(x.nan, y.nan, x.pinf, x.ninf, y.pinf, y.ninf))
        return S(or_(and_(fin, le(d, bound)), and_(x.pinf, y.pinf), and_(x.ninf, y.ninf)))
    return _bin(f, a, b, "b")


def allclose(a, b, rtol=1e-05, atol=1e-08):
    return all(isclose(a, b, rtol, atol))


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not dim_eq(x, y):
            return False
    return all(a == b)


def clip(x, a, b, out=None):
    return minimum(maximum(x, a), b)


def where(c, a=None, b=None):
    if a is None:
        return (flatnonzero(c),)
    c, a, b = _a(c), _a(a), _a(b)
    shp = ()
    for x in (c, a, b):
        shp = bshape2(shp, x._shape if isinstance(x, Arr) else ())
    if shp == ():
        return out_(s_ite(simp(truth(c)), a, b))
    gc, ga, gb = bget(c, shp), bget(a, shp), bget(b, shp)
    ka = [x.kind if isinstance(x, Arr) else kind(x) for x in (a, b)]
    k = "f" if "f" in ka else "i" if "i" in ka else "b"
    return Arr(shp, lambda *i: s_ite(simp(truth(gc(*i))), ga(*i), gb(*i)), k)


def out_(s):
    return out(s)


def flatnonzero(m):
    m = asarray(m)
    if m.kind != "b":
        m = m != 0
    if m.ndim != 1:
        m = m._flat()
    return arange(m.vlen())[m]


def argwhere(m):
    m = asarray(m)
    if m.ndim != 1:
        raise Unsupported("argwhere of a matrix")
    return flatnonzero(m).reshape(-1, 1)


def nonzero(m):
    return (flatnonzero(m),)


# ------------------------------------------------------------------ reductions
def _ar(x):
    return asarray(x)


def sum(x, axis=None, keepdims=False, dtype=None):
    return _ar(x).sum(axis, keepdims)


def prod(x, axis=None):
    return _ar(x).prod(axis)


def max(x, axis=None):
    return _ar(x).max(axis)


def min(x, axis=None):
    return _ar(x).min(axis)


amax, amin = max, min


def nanmax(x, axis=None):
    return max(x, axis)


def argmax(x, axis=None):
    return _ar(x).argmax(axis)


def argmin(x, axis=None):
    return _ar(x).argmin(axis)


def all(x, axis=None):
    return _ar(x).all(axis)


def any(x, axis=None):
    return _ar(x).any(axis)


def mean(x, axis=None):
    x = _ar(x)
    n = x.size if axis is None else out(S(x._shape[norm_axis(axis, x.ndim)]))
    return _np_div(x.sum(axis), n)


def _np_div(a, n):
    """division by a count, numpy semantics (0/0 is NaN)"""
    n = lift(n)
    ns = S(mul(n.t, ONE))
    if isinstance(a, Arr):
        return a / _real(ns)
    return out(s_div(lift(a), _real(ns)))


def _real(s):
    """view an integer term as a real one"""
    if s.t.op == "const":
        return S(s.t)
    return s


def average(x, axis=None, weights=None):
    x = _ar(x)
    if weights is None:
        return mean(x, axis)
    w = _ar(weights)
    if w.ndim == 1 and x.ndim == 2 and axis == 0:
        w = w.reshape(-1, 1)
        return (x * w).sum(0) / w.sum()
    return (x * w).sum(axis) / w.sum(axis)


def var(x, axis=None, ddof=0):
    x = _ar(x)
    m = mean(x, axis)
    if axis is not None and isinstance(m, Arr):
        k = norm_axis(axis, x.ndim)
        sl = [slice(None)] * x.ndim
        sl[k] = None
        m = m[tuple(sl)] if k == 0 or x.ndim > 1 else m
    d = x - m
    n = x.size if axis is None else out(S(x._shape[norm_axis(axis, x.ndim)]))
    return _np_div((d * d).sum(axis), n - ddof)


def std(x, axis=None, ddof=0):
    return sqrt(var(x, axis, ddof))


def count_nonzero(x, axis=None):
    x = _ar(x)
    return (x if x.kind == "b" else x != 0).sum(axis)


def cumsum(x, axis=None):
    x = _ar(x)
    if x.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    g = x.getter()
    return Arr(x._shape, lambda i: red_sum(add(i, ONE), g), x.kind)


def diff(x):
    x = _ar(x)
    return x[1:] - x[:-1]


def argsort(x, axis=-1):
    raise Unsupported("argsort")


def sort(x, axis=-1):
    raise Unsupported("sort")


def unique(x, **k):
    raise Unsupported("unique")


def dot(a, b):
    a, b = _a(a), _a(b)
    if isinstance(a, S) or isinstance(b, S):
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    return matmul(a, b)


def inner(a, b):
    return dot(a, b)


def outer(a, b):
    a, b = _ar(a)._flat(), _ar(b)._flat()
    return a.reshape(-1, 1) * b.reshape(1, -1)


def trace(a):
    a = _ar(a)
    return diag(a).sum()


def matmul(a, b):
    a, b = _ar(a), _ar(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    if not dim_eq(a._shape[-1], b._shape[-2]):
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0")
    bs = bshape2(a._shape[:-2], b._shape[:-2])
    n = a._shape[-1]
    sa, sb = bs + a._shape[-2:], bs + b._shape[-2:]
    ga, gb = bget(a, sa), bget(b, sb)
    ka = "f" if "f" in (a.kind, b.kind) else "i"
    r = Arr(bs + (a._shape[-2], b._shape[-1]),
            lambda *i: red_sum(n, lambda k: s_mul(ga(*(i[:-1] + (k,))), gb(*(i[:-2] + (k, i[-1]))))), ka)
    if a1:
        r = r[..., 0, :]
    if b1:
        r = r[..., 0]
    return r if not isinstance(r, Arr) else r.unwrap0()


# ------------------------------------------------------------------ structure
def reshape(x, shp):
    return _ar(x).reshape(shp)


def ravel(x):
    return _ar(x).ravel()


def transpose(x, axes=None):
    return _ar(x).transpose(axes)


def squeeze(x, axis=None):
    return _ar(x).squeeze(axis)


def expand_dims(x, axis):
    x = _ar(x)
    k = axis if axis >= 0 else x.ndim + 1 + axis
    return x[tuple([slice(None)] * k + [None])]


def atleast_1d(x):
    x = _ar(x)
    return x.reshape(1) if x.ndim == 0 else x


def atleast_2d(x):
    x = _ar(x)
    return x.reshape(1, 1) if x.ndim == 0 else x[None] if x.ndim == 1 else x


def diag(x):
    x = _ar(x)
    if x.ndim == 1:
        g = x.getter()
        n = x._shape[0]
        z = S(ZERO)
        return Arr((n, n), lambda i, j: s_ite(eq(i, j), g(i), z), x.kind)
    if x.ndim == 2:
        a, b = x._shape
        if not dim_eq(a, b):
            raise Unsupported("diagonal of a rectangular matrix")
        g = x.getter()
        return Arr((a,), lambda i: g(i, i), x.kind)
    raise ValueError("Input must be 1- or 2-d.")


def _cat_items(xs):
    if isinstance(xs, Arr):
        n = xs.vlen()
        if not isinstance(n, int):
            return None
        return [xs[i] for i in range(n)]
    return seq_items(xs)


def concatenate(xs, axis=0):
    items = _cat_items(xs)
    if items is None:
        return _cat_symbolic(xs, axis)
    items = [_ar(x) for x in items]
    if not items:
        raise ValueError("need at least one array to concatenate")
    if axis is None:
        items = [x._flat() for x in items]
        axis = 0
    nd = items[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = norm_axis(axis, nd)
    for x in items[1:]:
        if x.ndim != nd:
            raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        for k in range(nd):
            if k != ax and not dim_eq(x._shape[k], items[0]._shape[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    items = [x for x in items if x._shape[ax] is not ZERO] or items[:1]
    gs = [x.getter() for x in items]
    ends, off = [], ZERO
    offs = []
    for x in items:
        offs.append(off)
        off = add(off, x._shape[ax])
        ends.append(off)
    ks = [x.kind for x in items]
    k = "f" if "f" in ks else "i" if "i" in ks else "b"

    def fn(*i):
        j = i[ax]
        conds = [simp(lt(j, en)) for en in ends[:-1]]
        # pick the piece syntactically when the position is known
        r = None
        for p in range(len(gs) - 1, -1, -1):
            if p < len(gs) - 1 and conds[p] is FALSE:
                continue
            if p > 0 and conds[p - 1] is TRUE:
                continue
            v = lift(gs[p](*(i[:ax] + (sub(j, offs[p]),) + i[ax + 1:])))
            r = v if r is None else s_ite(conds[p], v, r)
        return r
    dims = list(items[0]._shape)
    dims[ax] = off
    return Arr(dims, fn, k)


def _cat_symbolic(xs, axis):
    if not isinstance(xs, VList):
        raise Unsupported("concatenate of a symbolic number of arrays")
    if axis not in (0,):
        raise Unsupported("concatenate of a symbolic number of arrays along axis %r" % (axis,))
    if not cx().branch(lt(ZERO, xs.nterm())):
        raise ValueError("need at least one array to concatenate")
    sh, kd, g = _elem_info(xs)
    if len(sh) < 2:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    n, m = sh[0], sh[1]

    def fn(i, *rest):
        q, r = sym.split_mod(i, m)
        return g(q, r, *rest)
    return Arr((mul(n, m),) + tuple(sh[2:]), fn, kd)


def vstack(xs):
    items = _cat_items(xs)
    if items is None:
        sh, kd, g = _elem_info(xs)
        if len(sh) == 2:
            return array(xs)
        return _cat_symbolic(xs, 0)
    return concatenate([atleast_2d(x) for x in items], 0)


def hstack(xs):
    items = [atleast_1d(x) for x in _cat_items(xs)]
    return concatenate(items, 0 if items[0].ndim == 1 else 1)


def stack(xs, axis=0):
    if axis != 0:
        raise Unsupported("stack along another axis")
    return array(VList(_cat_items(xs)) if not isinstance(xs, VList) else xs)


def append(a, b, axis=None):
    if axis is None:
        return concatenate((_ar(a)._flat(), atleast_1d(_ar(b))._flat()))
    return concatenate((a, b), axis)


def column_stack(xs):
    return concatenate([x.reshape(-1, 1) if x.ndim == 1 else x for x in _cat_items(xs)], 1)


def dstack(xs):
    items = [_ar(x) for x in _cat_items(xs)]
    if builtins.any(x.ndim != 2 for x in items):
        raise Unsupported("dstack")
    return concatenate([x[:, :, None] for x in items], 2)


def repeat(x, n, axis=None):
    x = _ar(x)
    n = lift(n).t
    if axis is None:
        x = x._flat()
        axis = 0
    ax = norm_axis(axis, x.ndim)
    g = x.getter()
    dims = list(x._shape)
    one = dims[ax] is ONE
    dims[ax] = mul(dims[ax], n)
    return Arr(dims, lambda *i: g(*(i[:ax] + (ZERO if one else sym.split_mod(i[ax], n)[0],) + i[ax + 1:])), x.kind)


def tile(x, reps):
    x = _ar(x)
    if is_num(reps):
        reps = (reps,)
    reps = [lift(r).t for r in reps]
    while len(reps) < x.ndim:
        reps.insert(0, ONE)
    while x.ndim < len(reps):
        x = x[None]
    g = x.getter()
    dims = [mul(a, b) for a, b in zip(x._shape, reps)]

    def fn(*i):
        return g(*[j if r is ONE else ZERO if d is ONE else sym.split_mod(j, d)[1] for j, r, d in zip(i, reps, x._shape)])
    return Arr(dims, fn, x.kind)


def broadcast_to(x, shape):
    x = _ar(x)
    sh = _shape(shape)
    return Arr(sh, bget(x, sh), x.kind)


def meshgrid(*xs, indexing="xy"):
    xs = [_ar(x)._flat() for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == "xy" and n > 1:
        order[0], order[1] = 1, 0
    dims = tuple(xs[o]._shape[0] for o in order)
    res = []
    for k, x in enumerate(xs):
        p = order.index(k)
        g = x.getter()
        res.append(Arr(dims, (lambda p, g: lambda *i: g(i[p]))(p, g), x.kind))
    return VList(res)


def flip(x, axis=None):
    x = _ar(x)
    if x.ndim == 1:
        return x[::-1]
    raise Unsupported("flip")


def roll(x, k):
    raise Unsupported("roll")


def ndim(x):
    return _ar(x).ndim


def shape(x):
    return _ar(x).shape


def size(x):
    return _ar(x).size


def isscalar(x):
    return is_num(x)


def cov(*a, **k):
    raise Unsupported("np.cov")


def iterable(x):
    return isinstance(x, (Arr, list, tuple))


class _LAE:
    def __call__(self, a, b):
        return log(exp(a) + exp(b))

    @staticmethod
    def reduce(x, axis=0):
        return log(exp(_ar(x)).sum(axis))


logaddexp = _LAE()


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    """scipy.special.logsumexp: log of the (weighted) sum of exponentials; terms of zero weight are dropped"""
    a = _ar(a)
    if b is not None:
        b = _ar(b)

        def term(x, w):
            z = simp(eq(numt(w), ZERO))
            z = z if w.clean() else and_(z, not_(or_(w.nan, w.pinf, w.ninf)))
            p = s_mul(s_exp(x), w)
            return s_ite(z, S(ZERO), p)
        ex = arr_binop(term, a, b)
        ex = ex if isinstance(ex, Arr) else array(ex)
        ex.kind = "f"
    else:
        ex = exp(a)
        ex = ex if isinstance(ex, Arr) else array(ex)
    return log(ex.sum(axis, keepdims))


class _FInfo:
    def __init__(self, ty):
        self.max = S(T.sym("FLT_MAX", "R"))
        self.min = S(T.neg(T.sym("FLT_MAX", "R")))
        self.eps = S(T.sym("FLT_EPS", "R"))
        self.tiny = S(T.sym("FLT_TINY", "R"))


def finfo(ty):
    return _FInfo(ty)


def setup_facts(c):
    m = T.sym("FLT_MAX", "R")
    ep, ti = T.sym("FLT_EPS", "R"), T.sym("FLT_TINY", "R")
    c.global_facts.append(lt(const(10 ** 30), m))
    c.global_facts += [lt(ZERO, ep), lt(ep, T.const(Fraction(1, 10 ** 6))), lt(ZERO, ti), lt(ti, ep)]


# ------------------------------------------------------------------ linear algebra
class linalg:
    class LinAlgError(Exception):
        pass

    @staticmethod
    def det(m):
        m = _ar(m)
        if m.ndim != 2 or not dim_eq(m._shape[0], m._shape[1]):
            raise linalg.LinAlgError("Last 2 dimensions of the array must be square")
        return out(S(det_term(m)))

    @staticmethod
    def inv(m):
        m = _ar(m)
        if m.ndim != 2 or not dim_eq(m._shape[0], m._shape[1]):
            raise linalg.LinAlgError("Last 2 dimensions of the array must be square")
        d = det_term(m)
        if cx().branch(eq(d, ZERO)) if not cx().scopes else False:
            raise linalg.LinAlgError("Singular matrix")
        return Arr(m._shape, inv_elem(m), "f")

    @staticmethod
    def norm(x, ord=None, axis=None):
        x = _ar(x)
        if ord not in (None, 2, 1):
            raise Unsupported("norm order")
        if ord == 1:
            return abs(x).sum(axis)
        return sqrt((x * x).sum(axis))

    @staticmethod
    def slogdet(m):
        d = linalg.det(m)
        return sign(d), log(abs(d))

    @staticmethod
    def solve(a, b):
        return matmul(linalg.inv(a), b)

    @staticmethod
    def cholesky(m):
        raise Unsupported("cholesky")


def _mat_body(m):
    n = m._shape[0]
    a, b = T.fresh("k", "I"), T.fresh("k", "I")
    g = m.getter()
    with T.scope(a, n), T.scope(b, n):
        s = lift(g(a, b))
    if not s.clean():
        raise Unsupported("matrix with entries that may not be finite")
    return n, a, b, numt(s)


def _diag_body(n, a, b, body):
    """entry if the matrix is syntactically diagonal"""
    d = T.subst(body, {b: a})
    rest = sub(body, mul(T.iv(eq(a, b)), d))
    if rest is ZERO:
        return d
    # [a=b]*f(a) versus [a=b]*f(b)
    if builtins.all(builtins.any(x.op == "iv" and x.args[0] is eq(a, b) for x, e_ in mono) for mono, _ in T.pdict(body).items()):
        return d
    return None


def det_term(m):
    n, a, b, body = _mat_body(m)
    d = _diag_body(n, a, b, body)
    if d is not None:
        return T.prod_body(n, a, d)
    if n is ONE:
        return T.subst(body, {a: ZERO, b: ZERO})
    if n.op == "const" and int(n.args[0]) == 2:
        q = lambda i, j: T.subst(body, {a: const(i), b: const(j)})
        return sub(mul(q(0, 0), q(1, 1)), mul(q(0, 1), q(1, 0)))
    return T.agg_raw("det", (n, n), (a, b), body, (), "R")


def inv_elem(m):
    n, a, b, body = _mat_body(m)
    d = _diag_body(n, a, b, body)
    if d is not None:
        return lambda i, j: S(mul(T.iv(eq(i, j)), T.power(T.subst(d, {a: i}), -1)))
    if n is ONE:
        return lambda i, j: S(T.power(T.subst(body, {a: ZERO, b: ZERO}), -1))
    return lambda i, j: S(T.agg_raw("inv", (n, n), (a, b), body, (i, j), "R"))


def _build_det(ns, syms, body, extra, sort):
    d = _diag_body(ns[0], syms[0], syms[1], body)
    if d is not None:
        return T.prod_body(ns[0], syms[0], d)
    if ns[0] is ONE:
        return T.subst(body, {syms[0]: ZERO, syms[1]: ZERO})
    return T.agg_raw("det", ns, syms, body, (), "R")


def _build_inv(ns, syms, body, extra, sort):
    d = _diag_body(ns[0], syms[0], syms[1], body)
    i, j = extra
    if d is not None:
        return mul(T.iv(eq(i, j)), T.power(T.subst(d, {syms[0]: i}), -1))
    if ns[0] is ONE:
        return T.power(T.subst(body, {syms[0]: ZERO, syms[1]: ZERO}), -1)
    return T.agg_raw("inv", ns, syms, body, extra, "R")


T._BUILD["det"] = _build_det
T._BUILD["inv"] = _build_inv


# ------------------------------------------------------------------ randomness (contracts on numpy.random)
class Draw:
    def __init__(self, kind_, args, out_, loops):
        self.kind, self.args, self.out, self.loops = kind_, args, out_, loops
        self.lead = lead()


def lead():
    return tuple(l.i for l in cx().loops if l.i is not None)


def new_draw(kind_, args, shape, fact=None, sort="R"):
    """a fresh random array; fact(elem, *idx) holds for every element"""
    c = cx()
    nm = "rnd%d_%s" % (len(c.draws), kind_)
    ld = lead()
    if fact is not None:
        syms = ld

        def uf(*a, nd=len(ld)):
            v = T.app(nm, a, sort)
            f = fact(v, *a[nd:])
            if f is None:
                return None
            if syms:
                f = T.subst(f, dict(zip(syms, a[:nd])))
            rng = []
            for x, d in zip(a[nd:], shape):
                d2 = T.subst(d, dict(zip(syms, a[:nd]))) if syms else d
                rng += [le(ZERO, x), lt(x, d2)]
            for l, x in zip([l for l in c.loops_all if l.i in syms] if hasattr(c, "loops_all") else [], a[:nd]):
                pass
            return implies(and_(*rng), f)
        c.uf_facts[nm] = [uf]
    r = uf_arr(nm, shape, sort, ld)
    o = r.copy() if isinstance(r, Arr) else r
    c.draws.append(Draw(kind_, args, o, list(c.loops)))
    c.events.append(("draw", kind_, args, o))
    return r


def _size(size, *params):
    if size is None:
        shp = ()
        for p in params:
            p = asarr_or_s(p)
            shp = bshape2(shp, p._shape if isinstance(p, Arr) else ())
        return shp
    return _shape(size)


def _bro(p, shp):
    p = asarr_or_s(p)
    if isinstance(p, S):
        return lambda *i: p
    r = bshape2(p._shape, shp)
    if len(r) != len(shp):
        raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
    for a, b in zip(r, shp):
        if not (a is b or dim_eq(a, b)):
            raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
    return bget(p, shp)


def _bro1(high):
    return high + 1


class random:
    @staticmethod
    def uniform(low=0.0, high=1.0, size=None):
        shp = _size(size, low, high)
        gl, gh = _bro(low, shp), _bro(high, shp)

        def fact(v, *i):
            a, b = numt(lift(gl(*i))), numt(lift(gh(*i)))
            # [low, high) ; equal limits give the limit, reversed ones the reversed interval
            return and_(implies(lt(a, b), and_(le(a, v), lt(v, b))), implies(lt(b, a), and_(le(v, a), lt(b, v))), implies(eq(a, b), eq(v, a)))
        return new_draw("uniform", (low, high, size), shp, fact).unwrap0()

    @staticmethod
    def rand(*dims):
        return random.uniform(0.0, 1.0, tuple(dims) if dims else None)

    @staticmethod
    def random(size=None):
        return random.uniform(0.0, 1.0, size)

    random_sample = random

    @staticmethod
    def normal(loc=0.0, scale=1.0, size=None):
        shp = _size(size, loc, scale)
        _bro(loc, shp), _bro(scale, shp)
        return new_draw("normal", (loc, scale, size), shp).unwrap0()

    @staticmethod
    def randn(*dims):
        return random.normal(0.0, 1.0, tuple(dims) if dims else None)

    @staticmethod
    def standard_normal(size=None):
        return random.normal(0.0, 1.0, size)

    @staticmethod
    def exponential(scale=1.0, size=None):
        shp = _size(size, scale)
        gs = _bro(scale, shp)
        return new_draw("exponential", (scale, size), shp,
                        lambda v, *i: implies(le(ZERO, numt(lift(gs(*i)))), and_(le(ZERO, v), implies(lt(ZERO, numt(lift(gs(*i)))), lt(ZERO, v))))).unwrap0()

    @staticmethod
    def multivariate_normal(mean, cov, size=None):
        mean, cov = _ar(mean), _ar(cov)
        if mean.ndim != 1:
            raise ValueError("mean must be 1 dimensional")
        if cov.ndim != 2 or not dim_eq(cov._shape[0], cov._shape[1]):
            raise ValueError("cov must be 2 dimensional and square")
        if not dim_eq(mean._shape[0], cov._shape[0]):
            raise ValueError("mean and cov must have same length")
        shp = (() if size is None else _shape(size)) + (mean._shape[0],)
        return new_draw("mvn", (mean.copy(), cov.copy(), size), shp)

    @staticmethod
    def multinomial(n, pvals, size=None):
        p = _ar(pvals)
        if p.ndim != 1:
            raise ValueError("object too deep for desired array")
        m = p._shape[0]
        g = p.getter()
        c = cx()
        # numpy requires pvals >= 0 and sum(pvals[:-1]) <= 1
        okp = T.all_(m, lambda i: and_(not_(lift(g(i)).nan), le(ZERO, numt(lift(g(i))))))
        if not c.entails(okp, fast=False):
            if c.scopes:
                raise Unsupported("multinomial with probabilities of unknown sign")
            if not c.branch(okp):
                raise ValueError("pvals < 0, pvals > 1 or pvals contains NaNs")
        tot = red_sum(m, g)
        oks = and_(not_(or_(tot.nan, tot.pinf, tot.ninf)), le(numt(tot), ONE))
        if not c.entails(oks, fast=False):
            if c.scopes:
                raise Unsupported("multinomial with probabilities of unknown sum")
            if not c.branch(oks):
                raise ValueError("sum(pvals[:-1]) > 1.0")
        nt = lift(n).t
        is1 = nt is ONE or c.entails(eq(nt, ONE))
        if is1 and not c.scopes:
            if not c.branch(lt(ZERO, m)):
                raise ValueError("pvals must have at least one entry")
        if is1 and size is None:
            def fact(v):
                pv = numt(lift(g(v)))
                # the last category receives the remaining probability
                return and_(le(ZERO, v), lt(v, m), or_(lt(ZERO, pv), and_(lt(numt(tot), ONE), eq(v, sub(m, ONE)))))
            d = new_draw("categorical", (p.copy(),), (), fact, "I")
            j = d.get(()).t
            if not lead():
                c.assume(fact(j))
            r = Arr((m,), lambda i: S(T.iv(eq(i, j))), "i")
            r.onehot = j
            c.draws[-1].index = j
            return r
        if size is not None:
            sh = _shape(size)
            if is1 and len(sh) == 1:
                def fact(v, a):
                    pv = numt(lift(g(v)))
                    return and_(le(ZERO, v), lt(v, m), or_(lt(ZERO, pv), and_(lt(numt(tot), ONE), eq(v, sub(m, ONE)))))
                d = new_draw("categorical", (p.copy(),), sh, fact, "I")
                gd = d.getter()
                return Arr(sh + (m,), lambda a, i: S(T.iv(eq(i, numt(gd(a))))), "i")
            raise Unsupported("multinomial with a size")
        d = new_draw("multinomial", (n, p.copy()), (m,),
                     lambda v, i: and_(le(ZERO, v), le(v, nt), implies(and_(eq(numt(lift(g(i))), ZERO), or_(lt(i, sub(m, ONE)), eq(numt(tot), ONE))), eq(v, ZERO))), "I")
        if not lead():
            c.assume(eq(T.sum_(m, lambda i: d.get((i,)).t), nt))
        return d

    @staticmethod
    def randint(low, high=None, size=None):
        if high is None:
            low, high = 0, low
        shp = () if size is None else _shape(size)
        gl, gh = _bro(low, shp), _bro(high, shp)
        c = cx()
        if not c.scopes and c.branch(T.any_(ONE, lambda i: le(numt(lift(gh(*([ZERO] * len(shp))))), numt(lift(gl(*([ZERO] * len(shp)))))))):
            raise ValueError("low >= high")
        return new_draw("randint", (low, high, size), shp,
                        lambda v, *i: and_(le(numt(lift(gl(*i))), v), lt(v, numt(lift(gh(*i))))), "I").unwrap0()

    @staticmethod
    def random_integers(low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return random.randint(low, _bro1(high), size)

    @staticmethod
    def choice(a, size=None, replace=True, p=None):
        if is_num(a):
            n = lift(a).t
            pick = lambda j: S(j)
            kd = "i"
        else:
            arr = _ar(a)
            if arr.ndim != 1:
                raise ValueError("a must be 1-dimensional")
            n = arr._shape[0]
            g = arr.getter()
            pick = g
            kd = arr.kind
        c = cx()
        if not c.scopes and not c.branch(lt(ZERO, n)):
            raise ValueError("a must be greater than 0 unless no samples are taken")
        gp = None
        if p is not None:
            pa = _ar(p)
            gp = pa.getter()
            okp = T.all_(n, lambda i: and_(not_(lift(gp(i)).nan), le(ZERO, numt(lift(gp(i))))))
            tot = red_sum(n, gp)
            ok = and_(okp, not_(tot.nan), eq(numt(tot), ONE))
            if not c.entails(ok, fast=False):
                if c.scopes:
                    raise Unsupported("choice with unknown probabilities")
                if not c.branch(ok):
                    raise ValueError("probabilities do not sum to 1")
        shp = () if size is None else _shape(size)

        def fact(v, *i):
            f = and_(le(ZERO, v), lt(v, n))
            if gp is not None:
                f = and_(f, lt(ZERO, numt(lift(gp(v)))))
            return f
        d = new_draw("categorical", (_ar(p).copy() if p is not None else None, n), shp, fact, "I")
        gd = d.getter()
        if not lead() and not shp:
            c.assume(fact(gd().t))
        return Arr(shp, lambda *i: pick(numt(gd(*i))), kd).unwrap0()

    @staticmethod
    def permutation(n):
        raise Unsupported("permutation")

    @staticmethod
    def shuffle(x):
        raise Unsupported("shuffle")

    @staticmethod
    def seed(s=None):
        cx().events.append(("seed", s))

    @staticmethod
    def get_state():
        raise Unsupported("random state")


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    import numpy as _np
    if hasattr(_np, name):
        raise Unsupported("numpy.%s is not modelled" % name)
    raise AttributeError("module 'numpy' has no attribute %r" % name)
