"""Symbolic scalars (reals with NaN / infinity flags, integers, booleans) and symbolic-shape arrays.

These objects replace numbers and numpy arrays while the real source of /repo runs; a truth test on a symbolic
condition forks the path.
"""
import math
import numpy as _numpy
from fractions import Fraction
from . import terms as T
from .terms import TRUE, FALSE, ZERO, ONE, const, add, sub, mul, neg, lt, le, eq, and_, or_, not_, implies, iff, ite
from .ctx import Ctx, Unsupported, PathEnd

INFP, INFN, NANV = float("inf"), float("-inf"), float("nan")
EPOCH = [0]
REAL_ARRAY = _numpy.ndarray


def cx():
    return Ctx.cur


class S:
    __slots__ = ("t", "nan", "pinf", "ninf", "fl")
    __array_priority__ = 1000

    def __init__(self, t, nan=FALSE, pinf=FALSE, ninf=FALSE):
        self.t, self.nan, self.pinf, self.ninf = t, nan, pinf, ninf
        self.fl = t.sort == "R"       # a float, even when the value is an integer

    # -------- basic protocol
    @property
    def sort(self):
        return self.t.sort

    def clean(self):
        return self.nan is FALSE and self.pinf is FALSE and self.ninf is FALSE

    def __bool__(self):
        return cx().branch(truth(self))

    def __repr__(self):
        return tok(self)

    def __str__(self):
        return tok(self)

    def __format__(self, spec):
        return tok(self, spec)

    def __hash__(self):
        return hash(self.t.id)

    def __index__(self):
        if self.t.op == "const" and self.t.sort == "I":
            return int(self.t.args[0])
        raise Unsupported("symbolic integer used where a concrete one is needed: %s" % T.show(self.t)[:120])

    def __int__(self):
        return to_int(self)

    def __float__(self):
        return self

    # -------- arithmetic
    def __add__(self, o):
        return binop(s_add, self, o)

    def __radd__(self, o):
        return binop(s_add, o, self)

    def __sub__(self, o):
        return binop(s_sub, self, o)

    def __rsub__(self, o):
        return binop(s_sub, o, self)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return list_mul(o, self)
        return binop(s_mul, self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return list_mul(o, self)
        return binop(s_mul, o, self)

    def __truediv__(self, o):
        return binop(s_div, self, o)

    def __rtruediv__(self, o):
        return binop(s_div, o, self)

    def __floordiv__(self, o):
        return binop(s_floordiv, self, o)

    def __rfloordiv__(self, o):
        return binop(s_floordiv, o, self)

    def __mod__(self, o):
        return binop(s_mod, self, o)

    def __rmod__(self, o):
        return binop(s_mod, o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return binop(s_pow, self, o)

    def __rpow__(self, o):
        return binop(s_pow, o, self)

    def __neg__(self):
        return outk(s_neg(self), "f" if self.fl else "i")

    def __pos__(self):
        return self

    def __abs__(self):
        return outk(s_abs(self), "f" if self.fl else "i")

    def __lt__(self, o):
        return binop(s_lt, self, o)

    def __gt__(self, o):
        return binop(s_lt, o, self)

    def __le__(self, o):
        return binop(s_le, self, o)

    def __ge__(self, o):
        return binop(s_le, o, self)

    def __eq__(self, o):
        if not isinstance(o, (S, int, float, bool, Fraction, Arr)):
            return False
        return binop(s_eq, self, o)

    def __ne__(self, o):
        if not isinstance(o, (S, int, float, bool, Fraction, Arr)):
            return True
        return binop(s_ne, self, o)

    def __and__(self, o):
        return binop(s_and, self, o)

    def __rand__(self, o):
        return binop(s_and, o, self)

    def __or__(self, o):
        return binop(s_or, self, o)

    def __ror__(self, o):
        return binop(s_or, o, self)

    def __xor__(self, o):
        return binop(s_ne, self, o)

    def __invert__(self):
        return out(S(not_(truth(self))))

    # -------- numpy scalar interface
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return DType({"R": "f", "I": "i", "B": "b"}[self.sort])

    def item(self):
        return self

    def tolist(self):
        return self

    def astype(self, ty):
        return cast(self, ty)

    def flatten(self):
        return Arr((ONE,), lambda i, s=self: s, kind(self))

    ravel = flatten

    def reshape(self, *shp):
        return self.flatten().reshape(*shp)

    def sum(self, axis=None):
        return self

    max = min = mean = prod = sum

    def copy(self):
        return self

    def round(self, n=0):
        return self

    def is_integer(self):
        return self.sort == "I"


class DType:
    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, DType) and o.k == self.k or (o in (float,) and self.k == "f") or (o is int and self.k == "i")

    def __hash__(self):
        return hash(self.k)


TOKENS = {}


def tok(s, spec=""):
    """A placeholder standing for the printed value of s."""
    s2 = out(s) if isinstance(s, S) else s
    if not isinstance(s2, S):
        if s2 is s:
            return format(s2, spec)
        return format(s2, spec)
    key = "\x01%d.%d.%d.%d:%s:%s\x02" % (s2.t.id, s2.nan.id, s2.pinf.id, s2.ninf.id, s2.t.sort, spec)
    TOKENS[key] = (s2, spec)
    return key


def lift(x):
    if isinstance(x, S):
        return x
    if isinstance(x, bool):
        return S(TRUE if x else FALSE)
    if isinstance(x, int):
        return S(T.const(x))
    if isinstance(x, float):
        if x != x:
            return S(T.sym("junk", "R"), nan=TRUE)
        if x == INFP:
            return S(T.sym("junk", "R"), pinf=TRUE)
        if x == INFN:
            return S(T.sym("junk", "R"), ninf=TRUE)
        r = S(rconst(Fraction(repr(x))))
        r.fl = True
        return r
    if isinstance(x, Fraction):
        return S(rconst(x))
    if isinstance(x, T.Term):
        return S(x)
    if isinstance(x, Arr) and (len(x._shape) == 0 or all(d is ONE for d in x._shape)):
        r = x.get(tuple(ZERO for _ in x._shape))
        if x.kind == "f" and not r.fl:
            r = S(r.t, r.nan, r.pinf, r.ninf)
            r.fl = True
        return r
    if hasattr(x, "term_"):
        return S(x.term_)
    raise Unsupported("cannot treat %r as a number" % (type(x),))


def rconst(fr):
    return T.const(fr)


def is_num(x):
    return isinstance(x, (S, bool, int, float, Fraction))


def out(s):
    """Collapse constants to Python ints/bools."""
    if not isinstance(s, S):
        return s
    t = s.t
    if s.nan is TRUE:
        return NANV
    if s.pinf is TRUE:
        return INFP
    if s.ninf is TRUE:
        return INFN
    if s.nan is FALSE and s.pinf is FALSE and s.ninf is FALSE:
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "const" and t.args[0].denominator == 1 and t.sort == "I" and not s.fl:
            return int(t.args[0])
    return s


def outk(s, k):
    if k == "f" and isinstance(s, S) and not s.fl:
        s = S(s.t, s.nan, s.pinf, s.ninf)
        s.fl = True
    return out(s)


def kind(s):
    s = lift(s)
    return "f" if s.fl else {"R": "f", "I": "i", "B": "b"}[s.sort]


def truth(s):
    s = lift(s)
    if s.t.sort == "B":
        return s.t
    c = not_(eq(s.t, ZERO))
    if not s.clean():
        c = or_(c, s.nan, s.pinf, s.ninf)
    return c


def numt(s):
    """numeric term of a scalar (booleans count 0/1)"""
    return T.iv(s.t) if s.t.sort == "B" else s.t


def simp(c):
    return c if c is TRUE or c is FALSE else T.COND_HOOK[0](c)


def resolve(t):
    """decide the brackets of a sum of terms by what is known here"""
    def cond(c):
        if c.op == "not" and c.args[0].op == "and":
            return T.not_(cond(c.args[0]))
        if c.op == "and":
            return T.and_(*[cond(x) for x in c.args])
        return simp(c)
    if t is TRUE or t is FALSE:
        return t
    if t.sort == "B":
        return cond(t)
    if t.op == "iv":
        return T.iv(cond(t.args[0]))
    if t.op != "poly":
        return t
    parts = []
    for m, k in t.args:
        p = const(k)
        for a, e in m:
            b = T.iv(cond(a.args[0])) if a.op == "iv" else a
            p = mul(p, b if e == 1 else T.power(b, e))
        parts.append(p)
    return add(*parts)


def mk(t, nan=FALSE, pinf=FALSE, ninf=FALSE):
    return S(t, nan, pinf, ninf)


def s_add(a, b):
    t = add(numt(a), numt(b))
    if a.clean() and b.clean():
        return S(t)
    nan = or_(a.nan, b.nan, and_(a.pinf, b.ninf), and_(a.ninf, b.pinf))
    return S(t, nan, and_(or_(a.pinf, b.pinf), not_(nan)), and_(or_(a.ninf, b.ninf), not_(nan)))


def s_neg(a):
    return S(neg(numt(a)), a.nan, a.ninf, a.pinf)


def s_sub(a, b):
    return s_add(a, s_neg(b))


def s_mul(a, b):
    ta, tb = numt(a), numt(b)
    t = mul(ta, tb)
    if a.clean() and b.clean():
        return S(t)
    ia, ib = or_(a.pinf, a.ninf), or_(b.pinf, b.ninf)
    fa, fb = not_(or_(a.nan, ia)), not_(or_(b.nan, ib))
    nan = or_(a.nan, b.nan, and_(ia, fb, simp(eq(tb, ZERO))), and_(ib, fa, simp(eq(ta, ZERO))))
    inf = and_(or_(ia, ib), not_(nan))
    if inf is FALSE:
        return S(t, nan)
    na = or_(a.ninf, and_(fa, simp(lt(ta, ZERO))))
    nb = or_(b.ninf, and_(fb, simp(lt(tb, ZERO))))
    sign_neg = or_(and_(na, not_(nb)), and_(nb, not_(na)))
    return S(t, nan, and_(inf, not_(sign_neg)), and_(inf, sign_neg))


def s_div(a, b):
    ta, tb = numt(a), numt(b)
    if ta.sort == "I" and tb.sort == "I" and not a.fl and not b.fl and cx().scopes == 0:
        # Python / numpy integer division: only a Python int division can raise, numpy gives inf; treat as raising
        if cx().branch(eq(tb, ZERO)):
            raise ZeroDivisionError("division by zero")
    z = simp(eq(tb, ZERO))
    if z is FALSE:
        t = T.div(ta, tb)
    else:
        t = T.div(ta, tb) if z is not TRUE else T.sym("junk", "R")
    if t.sort == "I":
        t = T.mul(t, ONE)
    if a.clean() and b.clean() and z is FALSE:
        return S(t)
    ia, ib = or_(a.pinf, a.ninf), or_(b.pinf, b.ninf)
    fa, fb = not_(or_(a.nan, ia)), not_(or_(b.nan, ib))
    za = simp(eq(ta, ZERO)) if z is not FALSE else FALSE
    nan = or_(a.nan, b.nan, and_(ia, ib), and_(fa, fb, z, za))
    pos_a = or_(a.pinf, and_(fa, simp(lt(ZERO, ta)))) if (ia is not FALSE or z is not FALSE) else FALSE
    neg_a = or_(a.ninf, and_(fa, simp(lt(ta, ZERO)))) if (ia is not FALSE or z is not FALSE) else FALSE
    # zero divisor: +0 is assumed (the sign of zero is not modelled)
    pinf = and_(pos_a, fb, z)
    ninf = and_(neg_a, fb, z)
    if ia is not FALSE:
        bneg = simp(lt(tb, ZERO))
        bnz = and_(fb, not_(z))
        pinf = or_(pinf, and_(bnz, or_(and_(a.pinf, not_(bneg)), and_(a.ninf, bneg))))
        ninf = or_(ninf, and_(bnz, or_(and_(a.ninf, not_(bneg)), and_(a.pinf, bneg))))
    if ib is not FALSE:
        t = mul(t, T.iv(not_(ib)))
    return S(t, nan, pinf, ninf)


def s_floordiv(a, b):
    ta, tb = numt(a), numt(b)
    z = simp(eq(tb, ZERO))
    if z is not FALSE:
        if cx().scopes == 0:
            if cx().branch(z):
                raise ZeroDivisionError("integer division or modulo by zero")
        else:
            raise Unsupported("floor division by a possibly zero value in an element definition")
    if ta.sort == "I" and tb.sort == "I":
        if tb.op != "const" and not cx().entails(lt(ZERO, tb)):
            raise Unsupported("floor division by a possibly negative integer")
        return S(T.fdiv(ta, tb))
    return S(T.floor_(T.div(ta, tb)))


def s_mod(a, b):
    q = s_floordiv(a, b)
    return S(sub(numt(a), mul(q.t, numt(b))), or_(a.nan, b.nan))


EXP1 = None


def s_pow(a, b):
    ta, tb = numt(a), numt(b)
    if tb.op == "const":
        e = tb.args[0]
        if e == 0:
            return S(ONE)
        if e.denominator == 1 and e > 0:
            if a.clean():
                return S(T.power(ta, e))
            r = a
            for _ in range(int(e) - 1):
                r = s_mul(r, a)
            return r
        if e.denominator == 1:
            return s_div(lift(1), s_pow(S(ta, a.nan, a.pinf, a.ninf), lift(int(-e))))
        if not a.clean():
            raise Unsupported("fractional power of a flagged value")
        if e < 0:
            return s_div(lift(1), s_pow(a, S(T.const(-e))))
        return S(T.power(ta, e), nan=simp(lt(ta, ZERO)))
    if not a.clean():
        raise Unsupported("symbolic power of a flagged value")
    if ta.op == "app" and ta.args[0] == "exp" or T.is_pos(ta):
        t = T.pow_sym(ta, tb)
        if b.clean():
            return S(t)
        if ta.op == "app" and ta.args[0] == "exp" and T.is_pos_struct(ta.args[1]):
            return S(mul(t, T.iv(not_(b.ninf))), b.nan, b.pinf, FALSE)
        raise Unsupported("power with a flagged exponent")
    if not b.clean():
        raise Unsupported("power with a flagged exponent")
    if cx().entails(lt(ZERO, ta)):
        return S(T.pow_sym(ta, tb))
    if tb.sort == "I" and cx().entails(le(ZERO, tb)):
        return S(T.pow_sym(ta, tb))
    raise Unsupported("power of a possibly non-positive base: %s" % T.show(ta)[:100])


def s_abs(a):
    t = numt(a)
    return S(ite(simp(lt(t, ZERO)), neg(t), t), a.nan, or_(a.pinf, a.ninf), FALSE)


def s_lt(a, b):
    ta, tb = numt(a), numt(b)
    c = lt(ta, tb)
    if a.clean() and b.clean():
        return S(c)
    nn = not_(or_(a.nan, b.nan))
    fin = not_(or_(a.pinf, a.ninf, b.pinf, b.ninf))
    return S(and_(nn, or_(and_(fin, c), and_(a.ninf, not_(b.ninf)), and_(b.pinf, not_(a.pinf)))))


def s_le(a, b):
    if a.clean() and b.clean():
        return S(le(numt(a), numt(b)))
    return S(or_(s_lt(a, b).t, s_eq(a, b).t))


def s_eq(a, b):
    if a.t.sort == "B" and b.t.sort == "B":
        return S(iff(a.t, b.t))
    c = eq(numt(a), numt(b))
    if a.clean() and b.clean():
        return S(c)
    nn = not_(or_(a.nan, b.nan))
    fin = not_(or_(a.pinf, a.ninf, b.pinf, b.ninf))
    return S(or_(and_(nn, fin, c), and_(nn, a.pinf, b.pinf), and_(nn, a.ninf, b.ninf)))


def s_ne(a, b):
    return S(not_(s_eq(a, b).t))


def s_and(a, b):
    if a.t.sort != "B" and b.t.sort != "B":
        raise Unsupported("bitwise and on numbers")
    return S(and_(truth(a), truth(b)))


def s_or(a, b):
    if a.t.sort != "B" and b.t.sort != "B":
        raise Unsupported("bitwise or on numbers")
    return S(or_(truth(a), truth(b)))


def s_ite(c, a, b):
    a, b = lift(a), lift(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.t.sort == "B" and b.t.sort == "B":
        return S(ite(c, a.t, b.t))
    ta, tb = numt(a), numt(b)
    if a.clean() and b.clean():
        return S(ite(c, ta, tb))
    # junk values never matter: pick the other side's term
    if or_(a.nan, a.pinf, a.ninf) is TRUE:
        t = tb
    elif or_(b.nan, b.pinf, b.ninf) is TRUE:
        t = ta
    else:
        t = ite(c, ta, tb)
    return S(t, ite(c, a.nan, b.nan), ite(c, a.pinf, b.pinf), ite(c, a.ninf, b.ninf))


def s_exp(a):
    t = T.exp_(numt(a))
    if a.clean():
        return S(t)
    return S(mul(t, T.iv(not_(a.ninf))), a.nan, a.pinf, FALSE)


def s_log(a):
    t = numt(a)
    if T.is_pos_struct(t) and a.clean():
        return S(T.log_(t))
    z, ng = simp(eq(t, ZERO)), simp(lt(t, ZERO))
    fin = not_(or_(a.nan, a.pinf, a.ninf))
    v = T.log_(t) if z is not TRUE else T.sym("junk", "R")
    return S(v, or_(a.nan, a.ninf, and_(fin, ng)), a.pinf, and_(fin, z))


def s_sqrt(a):
    t = numt(a)
    if a.clean():
        return S(T.power(t, Fraction(1, 2)), nan=simp(lt(t, ZERO)))
    fin = not_(or_(a.nan, a.pinf, a.ninf))
    return S(T.power(t, Fraction(1, 2)), or_(a.nan, a.ninf, and_(fin, simp(lt(t, ZERO)))), a.pinf, FALSE)


def s_max(a, b):
    """numpy maximum (NaN propagates)"""
    r = s_ite(s_lt(a, b).t, b, a)
    if a.nan is FALSE and b.nan is FALSE:
        return r
    n = or_(a.nan, b.nan)
    return S(r.t, n, and_(r.pinf, not_(n)), and_(r.ninf, not_(n)))


def s_min(a, b):
    r = s_ite(s_lt(b, a).t, b, a)
    if a.nan is FALSE and b.nan is FALSE:
        return r
    n = or_(a.nan, b.nan)
    return S(r.t, n, and_(r.pinf, not_(n)), and_(r.ninf, not_(n)))


def s_floor(a):
    if not a.clean():
        raise Unsupported("floor of a flagged value")
    return S(T.floor_(numt(a)))


def to_int(x):
    if isinstance(x, Arr):
        x = lift(x)
    if isinstance(x, S):
        if not x.clean():
            if cx().scopes == 0 and cx().branch(or_(x.nan, x.pinf, x.ninf)):
                raise ValueError("cannot convert float NaN or infinity to integer")
            x = S(x.t)
        t = numt(x)
        if t.sort == "I":
            return out(S(t))
        if t.op == "const":
            return int(t.args[0])
        if cx().entails(le(ZERO, t)):
            return out(S(T.floor_(t)))
        f = T.floor_(t)
        c = neg(T.floor_(neg(t)))
        return out(S(ite(simp(lt(t, ZERO)), c, f)))
    if isinstance(x, (int, float)):
        return int(x)
    if isinstance(x, Fraction):
        return int(x)
    raise Unsupported("int() of %r" % type(x))


def cast(x, ty):
    k = ty_kind(ty)
    if k == "i":
        return to_int(x)
    if k == "b":
        return out(S(truth(x)))
    if k == "f":
        s = lift(x)
        s = S(numt(s), s.nan, s.pinf, s.ninf)
        s.fl = True
        return s
    raise Unsupported("cast to %r" % (ty,))


def ty_kind(ty):
    if ty is None:
        return "f"
    if isinstance(ty, DType):
        return ty.k
    if ty in (int, "int", "i", "int64", "uint"):
        return "i"
    if ty in (float, "float", "f", "float64"):
        return "f"
    if ty in (bool, "bool", "b"):
        return "b"
    n = getattr(ty, "vf_kind", None)
    if n:
        return n
    if ty is object:
        return "o"
    raise Unsupported("dtype %r" % (ty,))


def list_mul(l, n):
    if isinstance(l, list) and len(l) == 1:
        from .vlist import VList
        return VList.repeat(l[0], n)
    raise Unsupported("list repetition by a symbolic count")


# =========================================================================== arrays
def dim_eq(a, b):
    """Are two dimensions equal on this path? (forks when undecided)"""
    if a is b:
        return True
    c = eq(a, b)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if cx().scopes:
        if cx().entails(c):
            return True
        if cx().entails(not_(c)):
            return False
    return cx().branch(c)


def bshape2(a, b):
    n = max(len(a), len(b))
    a2 = (None,) * (n - len(a)) + tuple(a)
    b2 = (None,) * (n - len(b)) + tuple(b)
    res = []
    for x, y in zip(a2, b2):
        if x is None:
            res.append(y)
        elif y is None:
            res.append(x)
        elif x is y:
            res.append(x)
        elif x is ONE:
            res.append(y)
        elif y is ONE:
            res.append(x)
        else:
            if dim_eq(x, y):
                res.append(x)
            elif cx().branch(eq(x, ONE)):
                res.append(y)
            elif cx().branch(eq(y, ONE)):
                res.append(x)
            else:
                raise ValueError("operands could not be broadcast together")
    return tuple(res)


def is_one(d):
    return d is ONE or (d.op != "const" and not d.fs and False) or (d.op != "const" and cx().entails(eq(d, ONE)))


def bget(arr, shape):
    """getter of arr broadcast to shape"""
    if isinstance(arr, S):
        return lambda *i: arr
    g = arr.getter()
    off = len(shape) - len(arr._shape)
    ones = [d is not shape[off + k] and is_one(d) for k, d in enumerate(arr._shape)]

    def f(*i):
        return g(*[ZERO if o else x for o, x in zip(ones, i[off:])])
    return f


def binop(fn, a, b):
    if isinstance(a, Arr) or isinstance(b, Arr) or isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return arr_binop(fn, a, b)
    if not is_num(a) or not is_num(b):
        if hasattr(a, "term_") or hasattr(b, "term_"):
            return out(fn(lift(a), lift(b)))
        return NotImplemented
    a, b = lift(a), lift(b)
    r = fn(a, b)
    if r.t.sort == "I" and (a.fl or b.fl or fn is s_div):
        r.fl = True
    return out(r)


KIND_OF = {}


def res_kind(fn, ka, kb):
    if fn in (s_lt, s_le, s_eq, s_ne, s_and, s_or):
        return "b"
    if fn in (s_div,):
        return "f"
    if "f" in (ka, kb):
        return "f"
    if "i" in (ka, kb) or fn in (s_add, s_mul, s_sub):
        return "i"
    return "b"


def as_arr(x):
    if isinstance(x, (Arr, S)):
        return x
    if is_num(x):
        return lift(x)
    from . import npm
    return npm.array(x)


def arr_binop(fn, a, b):
    try:
        a, b = as_arr(a), as_arr(b)
    except TypeError:
        return NotImplemented
    sa = a._shape if isinstance(a, Arr) else ()
    sb = b._shape if isinstance(b, Arr) else ()
    shp = bshape2(sa, sb)
    ga, gb = bget(a, shp), bget(b, shp)
    ka = a.kind if isinstance(a, Arr) else kind(a)
    kb = b.kind if isinstance(b, Arr) else kind(b)
    return Arr(shp, lambda *i: fn(ga(*i), gb(*i)), res_kind(fn, ka, kb)).unwrap0()


class Arr:
    """n-dimensional array with symbolic shape; elements are given by a function of the index terms."""
    __array_priority__ = 2000
    oid_next = [0]

    def __getattr__(self, name):
        if hasattr(REAL_ARRAY, name):
            raise Unsupported("ndarray.%s" % name)
        raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % name)

    def __init__(self, shape, fn, kind="f", base=None, fwd=None, bwd=None):
        self._shape = tuple(shape)
        self.kind = kind
        self.base = base        # view: underlying array
        self.fwd = fwd          # view index -> base index
        self.bwd = bwd          # base index -> (condition, view index)
        self._fn = fn
        self._memo = {}
        self.names = None
        c = cx()
        self.oid = c.new_oid(self) if c is not None and hasattr(c, "new_oid") else 0

    # ---------------- reading
    def getter(self):
        if self.base is not None:
            g, f = self.base.getter(), self.fwd
            return lambda *i: g(*f(*i))
        fn, memo = self._fn, self._memo

        def get(*i):
            key = (EPOCH[0],) + tuple(x.id for x in i)
            st = cx().scope_stack
            ent = memo.get(key)
            if ent is not None:
                # an entry computed inside an index scope is reused only inside that scope
                for tok_, r in ent:
                    if tok_ is None or tok_ in st:
                        return r
            else:
                ent = memo[key] = []
            r = lift(fn(*i))
            ent.append((st[-1] if st else None, r))
            return r
        return get

    def get(self, idx):
        return self.getter()(*idx)

    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    # ---------------- writing
    def write(self, cond, val):
        """Set the elements whose index satisfies cond(*idx) to val(*idx)."""
        if self.base is not None:
            bwd = self.bwd
            if bwd is None:
                raise Unsupported("write through this kind of view")

            def c2(*bi):
                ok, vi = bwd(*bi)
                if ok is FALSE:
                    return FALSE
                return and_(ok, cond(*vi))

            def v2(*bi):
                ok, vi = bwd(*bi)
                return val(*vi)
            self.base.write(c2, v2)
            return
        old = self.getter()
        cx().journal_arr(self)
        k = self.kind

        def fn(*i):
            c = cond(*i)
            if c is FALSE:
                return old(*i)
            c = simp(c)
            if c is FALSE:
                return old(*i)
            v = lift(val(*i))
            if k == "i" and v.fl:
                v = lift(to_int(v))
            if k == "b" and v.sort != "B":
                v = S(truth(v))
            if k == "f" and v.sort == "B":
                v = S(numt(v))
            if c is TRUE:
                return v
            return s_ite(c, v, old(*i))
        self._fn = fn
        self._memo = {}

    # ---------------- shape interface
    @property
    def shape(self):
        return tuple(out(S(d)) for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = ONE
        for d in self._shape:
            r = mul(r, d)
        return out(S(r))

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        return self.transpose()

    def vlen(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return out(S(self._shape[0]))

    def __len__(self):
        n = self.vlen()
        if isinstance(n, int):
            return n
        raise Unsupported("len() of an array of symbolic length through the C interface")

    def __bool__(self):
        if all(d is ONE for d in self._shape):
            return cx().branch(truth(self.get((ZERO,) * len(self._shape))))
        n = lift(self.size).t
        if cx().branch(eq(n, ONE)):
            return cx().branch(truth(self.get((ZERO,) * len(self._shape))))
        if cx().branch(eq(n, ZERO)):
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __iter__(self):
        n = self.vlen()
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over an array of symbolic length")

    def unwrap0(self):
        return outk(self.get(()), self.kind) if not self._shape else self

    def __repr__(self):
        return "Arr%s" % (tuple(T.show(d) for d in self._shape),)

    def __format__(self, spec):
        return "\x01arr%d\x02" % self.oid

    def __hash__(self):
        return id(self)

    def __index__(self):
        return to_int(lift(self)).__index__()

    def __int__(self):
        return to_int(self)

    def __float__(self):
        return lift(self)

    def item(self):
        return out(lift(self))

    def tolist(self):
        n = self.vlen()
        from .vlist import VList
        if isinstance(n, int):
            return VList([self[i].tolist() if isinstance(self[i], Arr) else self[i] for i in range(n)])
        snap = self.copy()
        return VList.of(n, lambda i: (snap[i].tolist() if isinstance(snap[i], Arr) else snap[i]))

    def copy(self):
        return Arr(self._shape, self.getter(), self.kind)

    def astype(self, ty, copy=True):
        k = ty_kind(ty)
        g = self.getter()
        if k == self.kind:
            return self.copy()
        return Arr(self._shape, lambda *i: cast(g(*i), DType(k)), k)

    # ---------------- structural views
    def reshape(self, *shp):
        if len(shp) == 1 and isinstance(shp[0], (tuple, list)):
            shp = tuple(shp[0])
        dims = [lift(d).t for d in shp]
        total = ONE
        for d in self._shape:
            total = mul(total, d)
        unk = [k for k, d in enumerate(dims) if d.op == "const" and d.args[0] == -1]
        if unk:
            rest = ONE
            for k, d in enumerate(dims):
                if k not in unk:
                    rest = mul(rest, d)
            q = None
            if rest is ONE:
                q = total
            else:
                # cancel dimensions syntactically
                q = T.div(total, rest)
                if q.sort != "I" or any(e < 0 for m, _ in T.pdict(q).items() for _, e in m):
                    q = None
            if q is None:
                raise Unsupported("reshape(-1) with an undetermined dimension")
            dims[unk[0]] = q
        else:
            nt = ONE
            for d in dims:
                nt = mul(nt, d)
            if nt is not total:
                c = eq(nt, total)
                if not cx().branch(c):
                    raise ValueError("cannot reshape array")
        return self._reshape(tuple(dims))

    def _reshape(self, dims):
        old = self._shape
        if old == dims:
            return self._view(dims, lambda *i: i, lambda *i: (TRUE, i))
        # drop unit dimensions on both sides; match remaining ones in order
        o_keep = [k for k, d in enumerate(old) if d is not ONE]
        n_keep = [k for k, d in enumerate(dims) if d is not ONE]
        if len(o_keep) == len(n_keep) and all(old[a] is dims[b] or cx().entails(eq(old[a], dims[b]))
                                              for a, b in zip(o_keep, n_keep)):
            def fwd(*i):
                r = [ZERO] * len(old)
                for a, b in zip(o_keep, n_keep):
                    r[a] = i[b]
                return tuple(r)

            def bwd(*i):
                r = [ZERO] * len(dims)
                for a, b in zip(o_keep, n_keep):
                    r[b] = i[a]
                return TRUE, tuple(r)
            return self._view(dims, fwd, bwd)
        # entailed unit dimensions
        o2 = [k for k in o_keep if not cx().entails(eq(old[k], ONE))]
        n2 = [k for k in n_keep if not cx().entails(eq(dims[k], ONE))]
        if (len(o2), len(n2)) != (len(o_keep), len(n_keep)) and len(o2) == len(n2) and \
                all(old[a] is dims[b] or cx().entails(eq(old[a], dims[b])) for a, b in zip(o2, n2)):
            o_keep, n_keep = o2, n2

            def fwd(*i):
                r = [ZERO] * len(old)
                for a, b in zip(o_keep, n_keep):
                    r[a] = i[b]
                return tuple(r)

            def bwd(*i):
                r = [ZERO] * len(dims)
                for a, b in zip(o_keep, n_keep):
                    r[b] = i[a]
                return TRUE, tuple(r)
            return self._view(dims, fwd, bwd)
        # general: through the flat index
        def flat(i, dd):
            r = ZERO
            for x, d in zip(i, dd):
                r = add(mul(r, d), x)
            return r

        def unflat(f, dd):
            r = []
            for d in reversed(dd[1:]):
                if d is ONE:
                    r.append(ZERO)
                    continue
                q = split_mod(f, d)
                r.append(q[1])
                f = q[0]
            r.append(f)
            return tuple(reversed(r))
        return self._view(dims, lambda *i: unflat(flat(i, dims), old), lambda *i: (TRUE, unflat(flat(i, old), dims)))

    def _view(self, dims, fwd, bwd):
        return Arr(dims, None, self.kind, base=self, fwd=fwd, bwd=bwd)

    def flatten(self, order="C"):
        return self._flat().copy()

    def ravel(self):
        return self._flat()

    def _flat(self):
        return self._reshape((lift(self.size).t,))

    def squeeze(self, axis=None):
        keep = tuple(d for d in self._shape if not is_one(d))
        return self._reshape(keep).unwrap0()

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = tuple(axes[0]) if axes[0] is not None else ()
        n = len(self._shape)
        if not axes:
            axes = tuple(reversed(range(n)))
        inv = [axes.index(k) for k in range(n)]
        dims = tuple(self._shape[a] for a in axes)
        return self._view(dims, lambda *i: tuple(i[inv[k]] for k in range(n)),
                          lambda *b: (TRUE, tuple(b[a] for a in axes)))

    # ---------------- indexing
    def _plan(self, key):
        """-> (dims, fwd, bwd, fancy) for basic keys; fancy entries are index arrays/masks"""
        if not isinstance(key, tuple):
            key = (key,)
        key = [k for k in key]
        # expand Ellipsis
        used = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, Arr) and k.kind == "b":
                used += k.ndim
            else:
                used += 1
        n = len(self._shape)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (n - used)
        else:
            key += [slice(None)] * (n - used)
        if used > n:
            raise IndexError("too many indices for array")
        return key

    def __getitem__(self, key):
        key = self._plan(key)
        dims, src = [], []       # src[axis] = fn(view idx)->term
        ax = 0
        fancy = []
        for k in key:
            if k is None:
                dims.append(ONE)
                continue
            if isinstance(k, (list, tuple)):
                k = as_arr(k)
            if isinstance(k, Arr) and k.ndim == 0:
                k = k.unwrap0()
            if isinstance(k, (bool,)) or (isinstance(k, S) and k.sort == "B"):
                raise Unsupported("boolean scalar index")
            if isinstance(k, Arr):
                if k.kind == "b":
                    if len([q for q in key if not (isinstance(q, slice) and q == slice(None))]) != 1:
                        if k.ndim != 1:
                            raise Unsupported("mixed mask indexing")
                    fancy.append((ax, len(dims), k))
                    if k.ndim == 1:
                        n = self._shape[ax]
                        if not dim_eq(k._shape[0], n):
                            raise IndexError("boolean index did not match indexed array")
                        m = Mask(k)
                        pos = len(dims)
                        dims.append(m.count)
                        src.append((lambda pos, m: lambda i: m.sel(i[pos]))(pos, m))
                        ax += 1
                    else:
                        return self._mask_nd(k)
                    continue
                if k.ndim != 1:
                    raise Unsupported("multi-dimensional index array")
                fancy.append((ax, len(dims), k))
                if len(fancy) > 1 and fancy[-2][2].kind != "b":
                    # paired integer arrays share one output axis
                    pos = fancy[-2][1]
                    if not dim_eq(dims[pos], k._shape[0]):
                        raise IndexError("shape mismatch in index arrays")
                else:
                    pos = len(dims)
                    dims.append(k._shape[0])
                g = k.getter()
                n = self._shape[ax]
                check_all_index(k, n)
                src.append((lambda pos, g, n: lambda i: wrap_idx(numt(g(i[pos])), n))(pos, g, n))
                ax += 1
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                lo, ln, step = slice_bounds(k, n)
                pos = len(dims)
                dims.append(ln)
                if step == 1:
                    src.append((lambda pos, lo: lambda i: add(i[pos], lo))(pos, lo) if lo is not ZERO else
                               (lambda pos: lambda i: i[pos])(pos))
                else:
                    src.append((lambda pos, lo: lambda i: sub(lo, i[pos]))(pos, lo))
                ax += 1
                continue
            j = int_index(k, n)
            src.append((lambda j: lambda i: j)(j))
            ax += 1

        def fwd(*i):
            return tuple(f(i) for f in src)
        if fancy:
            g = self.getter()
            return Arr(dims, lambda *i: g(*fwd(*i)), self.kind)
        # inverse map
        plan = []
        pos = 0
        ax = 0
        for k in key:
            if k is None:
                plan.append(("new", pos, None, None))
                pos += 1
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                lo, ln, step = slice_bounds(k, n)
                plan.append(("sl", pos, (lo, ln, step, n), ax))
                pos += 1
            else:
                plan.append(("int", None, int_index(k, n), ax))
            ax += 1

        def bwd(*b):
            conds, vi = [], [ZERO] * len(dims)
            for kd, pos, inf, ax in plan:
                if kd == "new":
                    continue
                if kd == "int":
                    conds.append(eq(b[ax], inf))
                else:
                    lo, ln, step, n = inf
                    if step == 1:
                        v = sub(b[ax], lo)
                        if lo is not ZERO:
                            conds.append(le(lo, b[ax]))
                        if ln is not n:
                            conds.append(lt(v, ln))
                    else:
                        v = sub(lo, b[ax])
                        conds.append(le(ZERO, v))
                        conds.append(lt(v, ln))
                    vi[pos] = v
            return and_(*conds), tuple(vi)
        r = self._view(tuple(dims), fwd, bwd)
        return r.unwrap0()

    def _mask_nd(self, k):
        if k.ndim != self.ndim:
            raise Unsupported("mask of lower rank")
        for a, b in zip(k._shape, self._shape):
            if not dim_eq(a, b):
                raise IndexError("boolean index did not match")
        return self._flat()[k._flat()]

    def __setitem__(self, key, val):
        if isinstance(key, Arr) and key.kind == "b" and key.ndim == self.ndim and key.ndim > 0:
            for a, b in zip(key._shape, self._shape):
                if not dim_eq(a, b):
                    raise IndexError("boolean index did not match")
            kg = key.getter()
            v = as_arr(val)
            if isinstance(v, S):
                self.write(lambda *i: truth(kg(*i)), lambda *i: v)
                return
            if v.ndim == 1 and key.ndim == 1:
                m = Mask(key)
                vs = v._shape[0]
                if is_one(vs) and vs is ONE:
                    g = v.getter()
                    self.write(lambda *i: truth(kg(*i)), lambda *i: g(ZERO))
                    return
                if not dim_eq(vs, m.count):
                    raise ValueError("NumPy boolean array indexing assignment cannot assign")
                g = v.getter()
                self.write(lambda i: truth(kg(i)), lambda i: g(m.rank(i)))
                return
            raise Unsupported("masked assignment of an array")
        plan = self._plan(key)
        if any(isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0) for k in plan):
            return self._set_fancy(plan, val)
        tgt = self.__class__.__getitem__(self, tuple(plan)) if True else None
        if not isinstance(tgt, Arr):
            # single element
            idx = []
            ax = 0
            for k in plan:
                if k is None:
                    continue
                idx.append(int_index(k, self._shape[ax]))
                ax += 1
            v = as_arr(val)
            if isinstance(v, Arr):
                if all(is_one(d) for d in v._shape):
                    v = v.get((ZERO,) * v.ndim)
                else:
                    raise ValueError("setting an array element with a sequence.")
            self.write(lambda *i: and_(*[eq(a, b) for a, b in zip(i, idx)]), lambda *i: v)
            return
        v = as_arr(val)
        if isinstance(v, S):
            tgt.write(lambda *i: TRUE, lambda *i: v)
            return
        # leading unit dimensions of the value may be dropped
        while v.ndim > tgt.ndim:
            if not is_one(v._shape[0]):
                raise ValueError("could not broadcast input array into shape")
            v = v[0]
        off = tgt.ndim - v.ndim
        for k in range(v.ndim):
            a, b = v._shape[k], tgt._shape[off + k]
            if a is b or a is ONE:
                continue
            if not dim_eq(a, b):
                if not cx().branch(eq(a, ONE)):
                    raise ValueError("could not broadcast input array into shape")
        g = bget(v.copy(), tgt._shape)
        tgt.write(lambda *i: TRUE, g)

    def _set_fancy(self, plan, val):
        fpos = [j for j, k in enumerate(plan) if isinstance(k, (Arr, list))]
        if len(fpos) != 1 or any(k is None for k in plan):
            raise Unsupported("fancy assignment")
        ax = fpos[0]
        k = as_arr(plan[ax])
        rest = list(plan)
        if k.kind == "b":
            if k.ndim != 1 or not all(isinstance(q, slice) and q == slice(None) for j, q in enumerate(plan) if j != ax):
                # row mask combined with other basic keys
                raise Unsupported("mixed mask assignment")
            if not dim_eq(k._shape[0], self._shape[ax]):
                raise IndexError("boolean index did not match")
            kg = k.getter()
            v = as_arr(val)
            m = Mask(k)
            if isinstance(v, S):
                self.write(lambda *i: truth(kg(i[ax])), lambda *i: v)
                return
            if v.ndim == self.ndim and not is_one(v._shape[ax]):
                if not dim_eq(v._shape[ax], m.count):
                    raise ValueError("shape mismatch in masked assignment")
                g = v.getter()
                self.write(lambda *i: truth(kg(i[ax])),
                           lambda *i: g(*[m.rank(x) if j == ax else (ZERO if v._shape[j] is ONE else x) for j, x in enumerate(i)]))
                return
            g = bget(v, self._shape)
            self.write(lambda *i: truth(kg(i[ax])), g)
            return
        # integer index array: elements hit by some position take the value of the last one
        n = self._shape[ax]
        check_all_index(k, n)
        m = k._shape[0]
        kc = T.cval(m) if m.op == "const" else None
        if kc is None:
            raise Unsupported("assignment through a symbolic-length index array")
        v = as_arr(val)
        for q in range(int(kc)):
            sub_key = list(plan)
            sub_key[ax] = k[q]
            if isinstance(v, S):
                self[tuple(sub_key)] = v
            else:
                self[tuple(sub_key)] = v[q] if v.ndim and not is_one(v._shape[0]) else v

    # ---------------- arithmetic
    def __add__(self, o):
        return arr_binop(s_add, self, o)

    def __radd__(self, o):
        return arr_binop(s_add, o, self)

    def __sub__(self, o):
        return arr_binop(s_sub, self, o)

    def __rsub__(self, o):
        return arr_binop(s_sub, o, self)

    def __mul__(self, o):
        return arr_binop(s_mul, self, o)

    def __rmul__(self, o):
        return arr_binop(s_mul, o, self)

    def __truediv__(self, o):
        return arr_binop(s_div, self, o)

    def __rtruediv__(self, o):
        return arr_binop(s_div, o, self)

    def __floordiv__(self, o):
        return arr_binop(s_floordiv, self, o)

    def __mod__(self, o):
        return arr_binop(s_mod, self, o)

    def __pow__(self, o):
        return arr_binop(s_pow, self, o)

    def __rpow__(self, o):
        return arr_binop(s_pow, o, self)

    def _inplace(self, fn, o):
        r = arr_binop(fn, self, o)
        if len(r._shape) != len(self._shape):
            raise ValueError("non-broadcastable output operand")
        for a, b in zip(r._shape, self._shape):
            if not (a is b or dim_eq(a, b)):
                raise ValueError("non-broadcastable output operand")
        if self.kind == "i" and r.kind == "f":
            raise TypeError("Cannot cast ufunc output from float to int")
        self.write(lambda *i: TRUE, r.getter())
        return self

    def __iadd__(self, o):
        return self._inplace(s_add, o)

    def __isub__(self, o):
        return self._inplace(s_sub, o)

    def __imul__(self, o):
        return self._inplace(s_mul, o)

    def __itruediv__(self, o):
        return self._inplace(s_div, o)

    def __neg__(self):
        g = self.getter()
        return Arr(self._shape, lambda *i: s_neg(g(*i)), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        g = self.getter()
        return Arr(self._shape, lambda *i: s_abs(g(*i)), self.kind)

    def __lt__(self, o):
        return arr_binop(s_lt, self, o)

    def __le__(self, o):
        return arr_binop(s_le, self, o)

    def __gt__(self, o):
        return arr_binop(s_lt, o, self)

    def __ge__(self, o):
        return arr_binop(s_le, o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return arr_binop(s_eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return arr_binop(s_ne, self, o)

    def __and__(self, o):
        return arr_binop(s_and, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return arr_binop(s_or, self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return arr_binop(s_ne, self, o)

    def __invert__(self):
        g = self.getter()
        if self.kind != "b":
            raise Unsupported("bitwise not of numbers")
        return Arr(self._shape, lambda *i: S(not_(truth(g(*i)))), "b")

    def __matmul__(self, o):
        from . import npm
        return npm.matmul(self, o)

    def __rmatmul__(self, o):
        from . import npm
        return npm.matmul(o, self)

    def dot(self, o):
        from . import npm
        return npm.dot(self, o)

    def __contains__(self, x):
        from . import npm
        return bool(npm.any(self == x))

    # ---------------- reductions
    def sum(self, axis=None, keepdims=False):
        return reduce_(self, axis, keepdims, red_sum, "i" if self.kind == "b" else self.kind)

    def mean(self, axis=None):
        from . import npm
        return npm.mean(self, axis)

    def std(self, axis=None):
        from . import npm
        return npm.std(self, axis)

    def prod(self, axis=None):
        return reduce_(self, axis, False, red_prod, self.kind)

    def max(self, axis=None):
        nonempty(self, axis)
        return reduce_(self, axis, False, lambda n, f: red_ext("max", n, f), self.kind)

    def min(self, axis=None):
        nonempty(self, axis)
        return reduce_(self, axis, False, lambda n, f: red_ext("min", n, f), self.kind)

    def argmax(self, axis=None):
        nonempty(self, axis)
        return reduce_(self, axis, False, lambda n, f: red_ext("argmax", n, f), "i")

    def argmin(self, axis=None):
        nonempty(self, axis)
        return reduce_(self, axis, False, lambda n, f: red_ext("argmin", n, f), "i")

    def all(self, axis=None):
        return reduce_(self, axis, False, red_all, "b")

    def any(self, axis=None):
        return reduce_(self, axis, False, red_any, "b")

    def fill(self, v):
        s = lift(v)
        self.write(lambda *i: TRUE, lambda *i: s)

    def cumsum(self, axis=None):
        from . import npm
        return npm.cumsum(self, axis)

    def argsort(self, axis=-1):
        from . import npm
        return npm.argsort(self, axis)

    def nonzero(self):
        from . import npm
        return (npm.flatnonzero(self),)

    def clip(self, a, b):
        from . import npm
        return npm.clip(self, a, b)


def split_mod(f, d):
    """f = q*d + r with 0 <= r < d : returns (q, r), syntactically when possible"""
    dd = T.pdict(f)
    q, r = {}, {}
    for m, c in dd.items():
        if d.op == "const":
            if (c / d.args[0]).denominator == 1 and m != ():
                q[m] = c / d.args[0]
                continue
            r[m] = c
            continue
        md = dict(m)
        dm = T.pdict(d)
        if len(dm) == 1:
            (dmono, dc), = dm.items()
            ok = all(md.get(a, 0) >= e for a, e in dmono) and (c / dc).denominator == 1
            if ok:
                for a, e in dmono:
                    md[a] -= e
                q[tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda ae: ae[0].id))] = c / dc
                continue
        r[m] = c
    qt, rt = T._from_pdict(q), T._from_pdict(r)
    if cx().entails(and_(le(ZERO, rt), lt(rt, d))):
        return qt, rt
    fq = T.fdiv(f, d)
    return fq, sub(f, mul(fq, d))


def wrap_idx(t, n):
    if t.op == "const" and t.args[0] < 0:
        return add(t, n)
    if t.op == "const":
        return t
    if T.is_nonneg_struct(t) or cx().entails(le(ZERO, t)):
        return t
    return ite(simp(lt(t, ZERO)), add(t, n), t)


def check_all_index(k, n):
    g = k.getter()
    c = T.all_(k._shape[0], lambda i: and_(le(neg(n), numt(g(i))), lt(numt(g(i)), n)))
    if c is TRUE or cx().entails(c, fast=False):
        return
    if not cx().branch(c):
        raise IndexError("index out of bounds")


def int_index(k, n):
    s = lift(k)
    t = s.t
    if t.sort == "B":
        raise Unsupported("boolean index")
    if t.sort != "I" or s.fl:
        raise IndexError("only integers, slices (`:`), ellipsis, None and integer or boolean arrays are valid indices")
    if t.op == "const":
        v = int(t.args[0])
        if v >= 0:
            ok = lt(t, n)
        else:
            ok = le(T.const(-v), n)
        if ok is TRUE or (ok is not FALSE and cx().entails(ok)):
            pass
        elif cx().scopes:
            raise Unsupported("index not known to be in range")
        elif not cx().branch(ok):
            raise IndexError("index %d is out of bounds" % v)
        return t if v >= 0 else add(n, t)
    ok = and_(le(ZERO, t), lt(t, n))
    if cx().entails(ok):
        return t
    if cx().scopes:
        raise Unsupported("index not known to be in range: %s of %s" % (T.show(t)[:80], T.show(n)[:80]))
    if cx().branch(ok):
        return t
    if cx().branch(and_(lt(t, ZERO), le(neg(n), t))):
        return add(n, t)
    raise IndexError("index out of bounds")


def slice_bounds(k, n):
    step = 1 if k.step is None else k.step
    if step not in (1, -1):
        raise Unsupported("slice with a step")
    if step == -1:
        if k.start is not None or k.stop is not None:
            raise Unsupported("bounded reverse slice")
        return sub(n, ONE), n, -1

    def norm(x, default):
        if x is None:
            return default
        t = lift(x).t
        if t.sort != "I" or lift(x).fl:
            raise TypeError("slice indices must be integers")
        if t is n:
            return n
        if t.op == "const" and t.args[0] < 0:
            r = add(n, t)
            if cx().entails(le(ZERO, r)):
                return r
            return ite(simp(lt(r, ZERO)), ZERO, r)
        if not (T.is_nonneg_struct(t) or cx().entails(le(ZERO, t))):
            if not cx().scopes and cx().branch(lt(t, ZERO)):
                r = add(n, t)
                return r if cx().entails(le(ZERO, r)) else ite(simp(lt(r, ZERO)), ZERO, r)
            elif cx().scopes:
                raise Unsupported("slice bound of unknown sign")
        if cx().entails(le(t, n)):
            return t
        c = simp(lt(n, t))
        return ite(c, n, t)
    lo, hi = norm(k.start, ZERO), norm(k.stop, n)
    if lo is ZERO:
        return lo, hi, 1
    ln = sub(hi, lo)
    if ln.op == "const":
        ln = ln if ln.args[0] >= 0 else ZERO
    elif not cx().entails(le(ZERO, ln)):
        ln = ite(simp(lt(ln, ZERO)), ZERO, ln)
    return lo, ln, 1


class Mask:
    """Positions selected by a 1-D boolean array."""

    def __init__(self, k):
        self.n = k._shape[0]
        g = k.getter()
        self.k = T.fresh("k", "I")
        with T.scope(self.k, self.n):
            self.body = simp(truth(g(self.k)))
        self.count = T.sum_body(self.n, self.k, T.iv(self.body))

    def holds(self, i):
        return T.subst(self.body, {self.k: i})

    def sel(self, j):
        return sel_term(self.n, self.k, self.body, j)

    def rank(self, i):
        return rank_term(self.n, self.k, self.body, i)


def sel_term(n, k, body, j):
    """index of the (j+1)-th position where body holds"""
    if body is TRUE:
        return j
    if j.op == "agg" and j.args[0] == "rank" and j.args[3] is T.agg_raw("rank", (n,), (k,), body, j.args[4], "I").args[3]:
        return j.args[4][0]
    return T.agg_raw("sel", (n,), (k,), body, (j,), "I")


def rank_term(n, k, body, i):
    """number of positions before i where body holds"""
    if body is TRUE:
        return i
    if i.op == "agg" and i.args[0] == "sel" and i.args[3] is T.agg_raw("sel", (n,), (k,), body, i.args[4], "I").args[3]:
        return i.args[4][0]
    return T.agg_raw("rank", (n,), (k,), body, (i,), "I")


T._BUILD["sel"] = lambda ns, syms, body, extra, sort: sel_term(ns[0], syms[0], body, extra[0])
T._BUILD["rank"] = lambda ns, syms, body, extra, sort: rank_term(ns[0], syms[0], body, extra[0])


def sel_facts(t):
    _, ns, syms, body, extra = t.args
    n, k, j = ns[0], syms[0], extra[0]
    cnt = T.sum_body(n, k, T.iv(body))
    rng = and_(le(ZERO, j), lt(j, cnt))
    return [implies(rng, and_(le(ZERO, t), lt(t, n), T.subst(body, {k: t}), le(j, t))), le(cnt, n) if False else TRUE]


def rank_facts(t):
    _, ns, syms, body, extra = t.args
    n, k, i = ns[0], syms[0], extra[0]
    cnt = T.sum_body(n, k, T.iv(body))
    rng = and_(le(ZERO, i), lt(i, n))
    return [implies(rng, and_(le(ZERO, t), le(t, i), le(t, cnt))),
            implies(and_(rng, T.subst(body, {k: i})), lt(t, cnt))]


# ------------------------------------------------------------------ reductions
def nonempty(a, axis):
    dims = a._shape if axis is None else (a._shape[norm_axis(axis, a.ndim)],)
    for d in dims:
        c = lt(ZERO, d)
        if c is TRUE:
            continue
        if cx().scopes:
            if cx().entails(c):
                continue
            raise Unsupported("extremum over a possibly empty range")
        if not cx().branch(c):
            raise ValueError("zero-size array to reduction operation which has no identity")


def norm_axis(ax, nd):
    ax = ax if isinstance(ax, int) else int(ax)
    if ax < -nd or ax >= nd:
        raise ValueError("axis %d is out of bounds for array of dimension %d" % (ax, nd))
    return ax % nd


def reduce_(a, axis, keepdims, red, kind):
    if isinstance(axis, tuple):
        axes = sorted(norm_axis(x, a.ndim) for x in axes_(axis))
        r = a
        for x in reversed(axes):
            r = reduce_(r, x, keepdims, red, kind)
        return r
    if axis is None:
        g = a.getter()
        if a.ndim == 0:
            return outk(red(ONE, lambda i: g()), kind)
        if a.ndim == 1:
            return outk(red(a._shape[0], g), kind)
        if red in (red_sum, red_prod, red_all, red_any):
            r = a
            for _ in range(a.ndim):
                r = reduce_(r, r.ndim - 1, False, red, kind) if isinstance(r, Arr) else r
            return r
        big = [d for d in a._shape if not is_one(d)]
        if len(big) <= 1:
            f = a._flat()
            return outk(red(f._shape[0], f.getter()), kind)
        f = a._flat()
        return outk(red(f._shape[0], f.getter()), kind)
    ax = norm_axis(axis, a.ndim)
    g = a.getter()
    n = a._shape[ax]
    dims = a._shape[:ax] + ((ONE,) if keepdims else ()) + a._shape[ax + 1:]
    if keepdims:
        fn = lambda *i: red(n, lambda k: g(*(i[:ax] + (k,) + i[ax + 1:])))
    else:
        fn = lambda *i: red(n, lambda k: g(*(i[:ax] + (k,) + i[ax:])))
    return Arr(dims, fn, kind).unwrap0()


def axes_(a):
    return [int(x) for x in a]


def _small(n):
    return n.op == "const" and int(n.args[0]) <= T.EXPAND_MAX


def red_sum(n, f):
    if _small(n):
        r = S(ZERO)
        for i in range(max(0, int(n.args[0]))):
            r = s_add(r, lift(f(T.const(i))))
        return r
    k = T.fresh("k", "I")
    with T.scope(k, n):
        s = lift(f(k))
    return sum_flagged(n, k, s)


def sum_flagged(n, k, s):
    if s.clean():
        return S(T.sum_body(n, k, numt(s)))
    anyf = lambda c: FALSE if c is FALSE else simp(not_(T.all_body(n, k, not_(c))))
    anan, ap, an = anyf(s.nan), anyf(s.pinf), anyf(s.ninf)
    nan = or_(anan, and_(ap, an))
    # the numeric part does not matter where some element is not finite
    return S(T.sum_body(n, k, numt(s)), nan, and_(ap, not_(nan)), and_(an, not_(nan)))


def red_prod(n, f):
    if _small(n):
        r = S(ONE)
        for i in range(max(0, int(n.args[0]))):
            r = s_mul(r, lift(f(T.const(i))))
        return r
    k = T.fresh("k", "I")
    with T.scope(k, n):
        s = lift(f(k))
    if not s.clean():
        raise Unsupported("product of values that may not be finite")
    return S(T.prod_body(n, k, numt(s)))


def red_ext(name, n, f):
    if _small(n):
        v = int(n.args[0])
        best, bi = lift(f(ZERO)), S(ZERO)
        for i in range(1, v):
            x = lift(f(T.const(i)))
            if name in ("max", "argmax"):
                c = s_lt(best, x).t
                nb = s_max(best, x)
            else:
                c = s_lt(x, best).t
                nb = s_min(best, x)
            if best.nan is not FALSE or x.nan is not FALSE:
                c = or_(c, and_(x.nan, not_(best.nan)))
            bi = s_ite(simp(c), S(T.const(i)), bi)
            best = nb
        return best if name in ("max", "min") else bi
    k = T.fresh("k", "I")
    with T.scope(k, n):
        s = lift(f(k))
    b = numt(s)
    if s.clean():
        # one-hot vectors
        if name == "argmax" and b.op == "iv" and b.args[0].op == "eq0":
            j = T._solve_lin(b.args[0].args[0], k)
            if j is not None and cx().entails(and_(le(ZERO, j), lt(j, n))):
                return S(j)
        return S(T.ext_body(name, n, k, b, b.sort))
    if s.nan is not FALSE:
        anan = not_(T.all_body(n, k, not_(s.nan)))
        if not cx().entails(not_(anan)):
            if name in ("max", "min"):
                raise Unsupported("extremum of values that may be NaN")
            raise Unsupported("arg-extremum of values that may be NaN")
    # infinite entries: rank (ninf=-1, finite=0, pinf=1) first
    if name in ("max", "argmax") and s.pinf is FALSE:
        allinf = T.all_body(n, k, s.ninf)
        key = T.agg_raw("xmax", (n,), (k,), mul(b, T.iv(not_(s.ninf))), (), "R") if False else None
    return xext(name, n, k, s)


def xext(name, n, k, s):
    """extremum over values with infinities: described by its position"""
    fl = T.iv(s.pinf)
    fn_ = T.iv(s.ninf)
    packed = add(mul(T.sym("xpack_p", "R"), fl), add(mul(T.sym("xpack_n", "R"), fn_),
                                                     mul(numt(s), T.iv(not_(or_(s.pinf, s.ninf))))))
    pos = T.agg_raw("x" + name.replace("arg", ""), (n,), (k,), packed, (), "I")
    c = cx()
    val = lambda i: S(T.subst(numt(s), {k: i}), FALSE, T.subst(s.pinf, {k: i}), T.subst(s.ninf, {k: i}))
    if c.scopes:
        raise Unsupported("extremum of possibly infinite values inside an element definition")
    c.assume(implies(lt(ZERO, n), and_(le(ZERO, pos), lt(pos, n))))
    p = val(pos)
    if name in ("max", "argmax"):
        c.assume(T.all_(n, lambda i: s_le(val(i), p).t))
        c.assume(T.all_(n, lambda i: implies(lt(i, pos), s_lt(val(i), p).t)))
    else:
        c.assume(T.all_(n, lambda i: s_le(p, val(i)).t))
        c.assume(T.all_(n, lambda i: implies(lt(i, pos), s_lt(p, val(i)).t)))
    return S(pos) if name.startswith("arg") else p


def red_all(n, f):
    return S(T.all_(n, lambda k: truth(f(k))))


def red_any(n, f):
    return S(T.any_(n, lambda k: truth(f(k))))


def uf_arr(name, shape, sort="R", lead=(), flags=False):
    """array whose elements are applications of an uninterpreted function"""
    lead = tuple(lead)
    if flags:
        def elem(*i):
            on = lambda q: T.app(name + "?" + q, lead + i, "B") if flags is True or q[0] in flags else FALSE
            n, p, m = on("nan"), on("pinf"), on("minf")
            return S(T.app(name, lead + i, "R"), n, and_(p, not_(n)), and_(m, not_(n), not_(p)))
        return Arr(shape, elem, "f")
    return Arr(shape, lambda *i: S(T.app(name, lead + i, sort)), {"R": "f", "I": "i", "B": "b"}[sort])
