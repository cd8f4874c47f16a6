"""Hash-consed logical terms in a normal form.

Numeric terms (sorts 'I' and 'R') are kept as polynomials over atoms with rational exponents; conditionals are
Iverson brackets, so  ite(c,a,b) = b + [c](a-b).  Binding operators (sum, all, max, density-of-row, ...) are 'agg'
nodes, identified up to renaming of their bound variables.
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import permutations
import math

F0, F1, FH = Fraction(0), Fraction(1), Fraction(1, 2)


class Term:
    __slots__ = ("op", "args", "sort", "fs", "id", "_dig", "_poly", "size")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic truth value used as a Python bool: %s" % show(self)[:200])


_TAB = {}
_NEXT = [0]
_EMPTY = frozenset()


def _mk(op, key, args, sort, fs):
    k = (op, key, sort)
    t = _TAB.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.fs = op, args, sort, fs
        t.id = _NEXT[0]
        _NEXT[0] += 1
        t._dig = None
        t._poly = None
        t.size = 0
        _TAB[k] = t
    return t


def reset_caches():
    """Drop memo tables whose content depends on the current path condition."""
    _EXPC.clear()
    _MULC.clear()


def reset_fresh():
    """The counters are never reset: a bound symbol of an aggregate kept from an earlier path must not come back as a free one."""


_FRESH = {}


def fresh(name, sort):
    _FRESH[name] = _FRESH.get(name, 0) + 1
    return sym("%s!%d" % (name, _FRESH[name]), sort)


def sym(name, sort):
    t = _mk("sym", name, (name,), sort, None)
    if t.fs is None:
        t.fs = frozenset((t,))
    return t


def const(v):
    v = Fraction(v)
    return _mk("const", v, (v,), "I" if v.denominator == 1 else "R", _EMPTY)


TRUE = _mk("true", (), (), "B", _EMPTY)
FALSE = _mk("false", (), (), "B", _EMPTY)
ZERO, ONE = const(0), const(1)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
# poly dict: mono -> coef ; mono = tuple of (atom, exp) sorted by atom.id

def pdict(t):
    if t.op == "poly":
        return dict(t.args)
    if t.op == "const":
        return {(): t.args[0]} if t.args[0] else {}
    return {((t, F1),): F1}


def _iv_of(m):
    for a, e in m:
        if a.op == "iv":
            return a
    return None


def _lits(c):
    return c.args if c.op == "and" else (c,)


def _merge_ivs(items):
    """k[A & l] + k[A & !l] -> k[A]   and   k[A] - k[A & D] -> k[A & !D], for equal cofactors"""
    groups = {}
    for m, c in items:
        a = _iv_of(m)
        rest = tuple(x for x in m if x[0] is not a) if a is not None else m
        groups.setdefault(rest, []).append((a.args[0] if a is not None else TRUE, c))
    if all(len(g) == 1 for g in groups.values()):
        return items
    out = []
    for rest, g in groups.items():
        changed = len(g) > 1
        while changed:
            changed = False
            for i in range(len(g)):
                for j in range(len(g)):
                    if i == j:
                        continue
                    (a, ca), (b, cb) = g[i], g[j]
                    new = None
                    if ca == cb:
                        if i < j:
                            la, lb = set(_lits(a)), set(_lits(b))
                            da, db = la - lb, lb - la
                            if len(da) == 1 and not_(and_(*da)) is and_(*db):
                                new = [(and_(*(la & lb)), ca)]
                            elif len(db) == 1 and not_(and_(*db)) is and_(*da):
                                new = [(and_(*(la & lb)), ca)]
                    elif ca == -cb and a is not b:
                        la = set(_lits(a)) if a is not TRUE else set()
                        lb = set(_lits(b)) if b is not TRUE else set()
                        if la < lb:
                            new = [(and_(a, not_(and_(*(lb - la)))), ca)]
                    if new is not None:
                        new = [x for x in new if x[0] is not FALSE]
                        g = [x for k, x in enumerate(g) if k not in (i, j)] + new
                        r = {}
                        for cnd, c in g:
                            r[cnd] = r.get(cnd, F0) + c
                        g = [(cnd, c) for cnd, c in r.items() if c]
                        changed = len(g) > 1
                        break
                if new is not None:
                    break
        for cnd, c in g:
            m = rest if cnd is TRUE else tuple(sorted(rest + ((_iv_atom_maybe(cnd), F1),), key=lambda ae: ae[0].id))
            out.append((m, c))
    return out


def _from_pdict(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) > 1 and any(_iv_of(m) is not None for m, c in items):
        items = _merge_ivs(items)
        if not items:
            return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: (-len(mc[0]), [(a.id, e) for a, e in mc[0]]))
    sort = "I"
    fs = set()
    for m, c in items:
        if c.denominator != 1:
            sort = "R"
        for a, e in m:
            fs |= a.fs
            if a.sort == "R" or e.denominator != 1 or e < 0:
                sort = "R"
    args = tuple(items)
    key = tuple((tuple((a.id, e) for a, e in m), c) for m, c in items)
    return _mk("poly", key, args, sort, frozenset(fs))


def _mono_mul(m1, m2):
    """Product of two monomials -> pdict (usually one entry)."""
    if not m1:
        return {m2: F1}
    if not m2:
        return {m1: F1}
    exps = {}
    for a, e in m1:
        exps[a] = exps.get(a, F0) + e
    for a, e in m2:
        exps[a] = exps.get(a, F0) + e
    return _norm_mono(exps)


def _norm_mono(exps):
    out = []
    expo = None       # accumulated exponential argument
    expand = []       # (poly atom, positive int exponent)
    ivs = []
    for a, e in exps.items():
        if e == 0:
            continue
        if a.op == "iv":
            ivs.append(a)
            continue
        if a.op == "app" and a.args[0] == "exp":
            u = mul(const(e), a.args[1]) if e != 1 else a.args[1]
            expo = u if expo is None else add(expo, u)
            continue
        if a.op in ("poly", "const") and e.denominator == 1 and e > 0:
            expand.append((a, int(e)))
            continue
        if a.op == "const" and e.denominator == 1:
            expand.append((const(a.args[0] ** int(e)), 1))
            continue
        if a.op == "poly" and e.denominator == 1:
            na = neg(a)
            if na.op == "poly" and any(b is na and f.denominator > 1 for b, f in exps.items()):
                # (-p)^e next to p^f with a fractional exponent: one base
                ex2 = {b: f for b, f in exps.items() if b is not a}
                ex2[na] = ex2.get(na, F0) + e
                d = _norm_mono(ex2)
                return d if int(e) % 2 == 0 else {m: -c for m, c in d.items()}
        out.append((a, e))
    if len(ivs) > 1:
        c = and_(*[a.args[0] for a in ivs])
        if c is FALSE:
            return {}
        ivs = [] if c is TRUE else [_iv_atom_maybe(c)]
    if ivs and out:
        # a factor that vanishes exactly where the condition fails makes the condition redundant
        c = ivs[0].args[0]
        ls = _lits(c)
        drop = [l for l in ls if l.op == "not" and l.args[0].op == "eq0" and any(e > 0 and a is l.args[0].args[0] for a, e in out)]
        if drop:
            c = and_(*[l for l in ls if l not in drop])
            ivs = [] if c is TRUE else [_iv_atom_maybe(c)]
    for a in ivs:
        out.append((a, F1))
    extra = None
    if expo is not None:
        ex = exp_(expo)
        extra = pdict(ex)
        if len(extra) == 1 and list(extra.items())[0][1] == 1 and all(
                not (x.op in ("iv",)) for x, _ in list(extra)[0]) and len(list(extra)[0]) == 1 and \
                list(extra)[0][0][0].op == "app" and list(extra)[0][0][0].args[0] == "exp" and list(extra)[0][0][1] == 1:
            out.append(list(extra)[0][0])
            extra = None
    out.sort(key=lambda ae: ae[0].id)
    d = {tuple(out): F1}
    if extra is not None:
        d = _pmul(d, extra)
    for a, e in expand:
        pa = pdict(a)
        for _ in range(e):
            d = _pmul(d, pa)
    return d


def _pmul(d1, d2):
    r = {}
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            if not m1:
                mm = ((m2, F1),)
            elif not m2:
                mm = ((m1, F1),)
            else:
                mm = _mono_mul(m1, m2).items()
            for m, c in mm:
                v = r.get(m, F0) + c * c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    return r


def add(*ts):
    r = {}
    for t in ts:
        if t.op == "const":
            items = (((), t.args[0]),)
        elif t.op == "poly":
            items = t.args
        else:
            items = ((((t, F1),), F1),)
        for m, c in items:
            v = r.get(m, F0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return _from_pdict(r)


_MULC = {}


def mul(a, b):
    if a.op == "const":
        if a.args[0] == 1:
            return b
        if a.args[0] == 0:
            return ZERO
        if b.op == "const":
            return const(a.args[0] * b.args[0])
        return _from_pdict({m: c * a.args[0] for m, c in pdict(b).items()})
    if b.op == "const":
        return mul(b, a)
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _MULC.get(k)
    if r is None:
        r = _MULC[k] = _from_pdict(_pmul(pdict(a), pdict(b)))
    return r


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _split_content(d):
    """pdict with >1 monomials -> (coef, mono of common factors with min exponent, rest pdict)"""
    items = list(d.items())
    common = None
    for m, c in items:
        md = {a: e for a, e in m if a.op != "iv"}
        if common is None:
            common = md
        else:
            common = {a: min(e, md[a]) for a, e in common.items() if a in md and (md[a] > 0) == (e > 0)}
    lead = sorted(items, key=lambda mc: (-len(mc[0]), [(a.id, e) for a, e in mc[0]]))[0][1]
    rest = {}
    for m, c in items:
        ex = dict(m)
        for a, e in common.items():
            ex[a] = ex[a] - e
        mm = tuple(sorted(((a, e) for a, e in ex.items() if e), key=lambda ae: ae[0].id))
        rest[mm] = rest.get(mm, F0) + c / lead
    return lead, common, rest


def power(a, e):
    """a ** e, e a rational constant."""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    if a.op == "const":
        v = a.args[0]
        if e.denominator == 1:
            if v == 0 and e < 0:
                return _from_pdict({((a, e),): F1})  # 0^-n : unspecified
            return const(v ** int(e))
        if v > 0:
            r = _root(v, e.denominator)
            if r is not None:
                return const(r ** e.numerator)
        return _from_pdict({((a, e),): F1})
    d = pdict(a)
    if len(d) == 1:
        (m, c), = d.items()
        r = power(const(c), e) if (e.denominator == 1 or c > 0) else None
        if e.denominator == 1:
            ex = {}
            ivs = []
            for at, x in m:
                if at.op == "iv":
                    ivs.append(at)
                else:
                    ex[at] = x * e
            dd = _norm_mono(ex)
            t = _from_pdict(dd)
            for i in ivs:
                t = mul(t, i) if e > 0 else t   # [c]^-n is unspecified when c is false
            return mul(r, t)
        # fractional power: pull out positive factors
        res, rest = ONE, {}
        for at, x in m:
            if at.op == "iv":
                res = mul(res, at)
            elif is_pos(at) or is_nonneg_struct(at):
                if at.op == "app" and at.args[0] == "exp":
                    res = mul(res, exp_(mul(const(e * x), at.args[1])))
                else:
                    res = mul(res, _from_pdict(_norm_mono({at: x * e})))
            else:
                rest[at] = x
        if c > 0:
            res = mul(res, power(const(c), e))
            c = F1
        if rest or c != 1:
            base = _from_pdict({tuple(sorted(rest.items(), key=lambda ae: ae[0].id)): c})
            res = mul(res, _from_pdict({((base, e),): F1}))
        return res
    if e.denominator == 1 and e > 0:
        r = d
        for _ in range(int(e) - 1):
            r = _pmul(r, d)
        return _from_pdict(r)
    lead, common, rest = _split_content(d)
    if e.denominator == 1:
        res = const(lead ** int(e))
        for at, x in common.items():
            res = mul(res, _from_pdict(_norm_mono({at: x * e})))
        base = _from_pdict(rest)
        if len(rest) == 1:
            return mul(res, power(base, e))
        return mul(res, _from_pdict({((base, e),): F1}))
    # fractional power of a sum
    res = ONE
    keep = {}
    for at, x in common.items():
        if is_pos(at) or is_nonneg_struct(at):
            res = mul(res, _from_pdict(_norm_mono({at: x * e})))
        else:
            keep[at] = x
    if lead > 0:
        res = mul(res, power(const(lead), e))
        lead = F1
    base = _from_pdict(rest)
    for at, x in keep.items():
        base = mul(base, power(at, x))
    base = mul(const(lead), base)
    return mul(res, _from_pdict({((base, e),): F1}))


def _root(v, n):
    def r(x):
        y = round(x ** (1.0 / n)) if x < 1e15 else None
        return y if y is not None and y ** n == x else None
    a, b = r(v.numerator), r(v.denominator)
    return Fraction(a, b) if a is not None and b is not None else None


def div(a, b):
    return mul(a, power(b, -1))


# ---------------------------------------------------------------- functions
PI = sym("pi", "R")


def app(name, args, sort):
    fs = frozenset().union(*[a.fs for a in args]) if args else _EMPTY
    return _mk("app", (name,) + tuple(a.id for a in args), (name,) + tuple(args), sort, fs)


_EXPC = {}


def exp_(u):
    if u.op == "const" and u.args[0] == 0:
        return ONE
    c = _EXPC.get(u.id)
    if c is not None:
        return c
    d = pdict(u)
    fac = ONE
    rest = {}
    ivterm = None
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "log":
            fac = mul(fac, power(m[0][0].args[1], c))
        else:
            rest[m] = c
    # pull a common Iverson condition out:  exp(a + [c] b) = exp(a) (1 + [c] (exp(b) - 1))
    ivc = None
    for m in rest:
        for a, e in m:
            if a.op == "iv":
                ivc = a
                break
        if ivc is not None:
            break
    if ivc is not None:
        with_, wo = {}, {}
        for m, c in rest.items():
            if any(a is ivc for a, e in m):
                with_[tuple(x for x in m if x[0] is not ivc)] = c
            else:
                wo[m] = c
        eb = exp_(_from_pdict(with_))
        r = mul(mul(fac, exp_(_from_pdict(wo))), add(ONE, mul(ivc, sub(eb, ONE))))
    else:
        rt = _from_pdict(rest)
        r = fac if rt is ZERO else mul(fac, app("exp", (rt,), "R")) if rt.op != "x" else None
        # avoid infinite recursion: app('exp') is an atom, mul merges exps only when two are present
    _EXPC[u.id] = r
    return r


def _primes(n):
    out = []
    p = 2
    while p * p <= n:
        while n % p == 0:
            out.append(p)
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out.append(n)
    return out


def log_(u):
    """log of a term; callers flag u <= 0 separately (value unspecified there)."""
    if u.op == "const":
        v = u.args[0]
        if v > 0:
            if v == 1:
                return ZERO
            if max(v.numerator, v.denominator) < 10 ** 6:
                r = ZERO
                for p in _primes(v.numerator):
                    r = add(r, app("log", (const(p),), "R"))
                for p in _primes(v.denominator):
                    r = sub(r, app("log", (const(p),), "R"))
                return r
        return app("log", (u,), "R")
    d = pdict(u)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0:
            res, rest = log_(const(c)), []
            for a, e in m:
                if a.op == "app" and a.args[0] == "exp":
                    res = add(res, mul(const(e), a.args[1]))
                elif a.op != "iv" and is_pos(a):
                    res = add(res, mul(const(e), app("log", (a,), "R")))
                else:
                    rest.append((a, e))
            if not rest:
                return res
            if len(rest) == 1 and rest[0][1] != 1 and rest[0][0].op != "iv" and rest[0][1].denominator != 2 and rest[0][1] % 2 == 1:
                # log(x^k) with odd k: x must be positive where the result is defined
                return add(res, mul(const(rest[0][1]), app("log", (rest[0][0],), "R")))
            base = _from_pdict({tuple(rest): F1})
            return add(res, app("log", (base,), "R"))
        return app("log", (u,), "R")
    lead, common, rest = _split_content(d)
    if common or lead != 1:
        pos = [(a, e) for a, e in common.items() if is_pos(a)]
        other = [(a, e) for a, e in common.items() if not is_pos(a)]
        base = _from_pdict(rest)
        for a, e in other:
            base = mul(base, power(a, e))
        res = ZERO
        if lead > 0:
            res = log_(const(lead))
        else:
            base = mul(const(lead), base)
        for a, e in pos:
            res = add(res, mul(const(e), log_(a)))
        if len(pdict(base)) == 1 and (pos or lead > 0):
            return add(res, log_(base)) if base is not u else add(res, app("log", (base,), "R"))
        return add(res, app("log", (base,), "R"))
    return app("log", (u,), "R")


def pow_sym(b, e):
    """b ** e for a symbolic exponent."""
    if e.op == "const":
        return power(b, e.args[0])
    if is_pos(b):
        return exp_(mul(e, log_(b)))
    return app("pow", (b, e), "R")


# positivity of atoms: structural, plus a hook to the current path condition
POS_HOOK = [None]
POS_NAMES = set()         # inputs with positive elements (spec.reals)
SIZE_HOOK = [lambda n: False]      # is the number of elements known to be at least one?
COND_HOOK = [lambda c: c]      # simplify a condition under the current path
SCOPE_HOOK = [None]            # context manager: assume 0 <= k < n while a body is built


class _NoScope:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


def scope(k, n):
    h = SCOPE_HOOK[0]
    return h(k, n) if h else _NoScope()


def is_nonneg_struct(a):
    if a.op == "iv":
        return True
    if a.op == "const":
        return a.args[0] >= 0
    if a.op == "agg" and a.args[0] == "dens":
        return True
    if a.op == "agg" and a.args[0] in ("sum", "prod"):
        return is_nonneg_struct(a.args[3])
    if a.op == "app" and a.args[0].startswith("dens_"):
        return True
    if a.op == "poly":
        return all(c > 0 and all(is_nonneg_struct(x) or (e.denominator == 1 and e % 2 == 0) or e.denominator == 2
                                 for x, e in m) for m, c in a.args)
    return is_pos_struct(a)


def is_pos_struct(a, deep=False):
    """positive by its form (deep: also by what is known of the inputs, for conditions only)"""
    if a.op == "const":
        return a.args[0] > 0
    if a is PI:
        return True
    if a.op == "app" and a.args[0] == "exp":
        return True
    if a.op == "app" and (a.args[0].startswith("pos~") or deep and a.args[0] in POS_NAMES):
        return True
    if a.op == "agg":
        if a.args[0] == "sum":
            # positive elements, at least one
            return is_pos_struct(a.args[3], deep) and all(n.op == "const" and n.args[0] >= 1 or SIZE_HOOK[0](n) for n in a.args[1])
        if a.args[0] == "det":
            # the determinant of a symmetric positive definite matrix (spec.fresh_spd)
            b, ks = a.args[3], a.args[2]
            return b.op == "app" and b.args[0].startswith("spd~") and {b.args[1], b.args[2]} == set(ks) and not any(
                k in x.fs for k in ks for x in b.args[3:])
    if a.op == "app" and a.args[0] == "log" and a.args[1].op == "const":
        return a.args[1].args[0] > 1
    if a.op == "poly":
        strict = False
        for m, c in a.args:
            if c < 0:
                return False
            s = True
            for x, e in m:
                if is_pos_struct(x, deep):
                    continue
                s = False
                if not (is_nonneg_struct(x) or (e.denominator == 1 and e % 2 == 0)):
                    return False
            strict = strict or s
        return strict
    return False


def is_pos(a):
    if is_pos_struct(a):
        return True
    h = POS_HOOK[0]
    return bool(h and h(a))


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", a.id, (a,), "B", a.fs)


_IMPL = {}


def _implied(x):
    """literals implied by a literal (sign relations of one polynomial)"""
    r = _IMPL.get(x.id)
    if r is None:
        r = ()
        if x.op == "lt0":
            r = (not_(eq0_raw(x.args[0])),)
        elif x.op == "eq0":
            r = (not_(lt0_raw(x.args[0])),)
        _IMPL[x.id] = r
    return r


def and_(*xs):
    out = []
    seen = set()
    known = set()
    stack = list(reversed(xs))
    compound = False
    while stack:
        x = stack.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            stack.extend(reversed(x.args))
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        known.add(x.id)
        if x.op in ("lt0", "eq0"):
            for y in _implied(x):
                known.add(y.id)
        elif x.op == "not" and x.args[0].op == "and":
            compound = True
    for x in out:
        if not_(x).id in known:
            return FALSE
    if len(out) > 1:
        # drop implied literals; shrink negated conjunctions by what is known
        again = False
        res = []
        for x in out:
            if x.op == "not" and x.args[0].op in ("lt0", "eq0") and x.id in known and any(
                    y.op in ("lt0", "eq0") and x in _implied(y) for y in out):
                continue
            if compound and x.op == "not" and x.args[0].op == "and":
                keep = []
                taut = False
                for y in x.args[0].args:
                    if y.id in known:
                        continue
                    if not_(y).id in known:
                        taut = True
                        break
                    keep.append(y)
                if taut:
                    again = True
                    continue
                if len(keep) != len(x.args[0].args):
                    again = True
                    res.append(not_(and_(*keep)))
                    continue
            res.append(x)
        if again:
            return and_(*res)
        out = res
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk("and", tuple(t.id for t in out), tuple(out), "B", frozenset().union(*[t.fs for t in out]))


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    return and_(implies(a, b), implies(b, a))


def _cmp_norm(p):
    """poly p (nonconst) -> (sign, p') with p = sign*|c|*p', leading coefficient of p' = 1"""
    d = pdict(p)
    items = sorted(d.items(), key=lambda mc: (-len(mc[0]), [(a.id, e) for a, e in mc[0]]))
    lead = items[0][1]
    # drop common positive factors
    if len(d) == 1:
        (m, c), = d.items()
        keep = [(a, e) for a, e in m if not is_pos_struct(a)]
        if len(keep) != len(m):
            d = {tuple(keep): c}
    elif p.sort == "R":
        # multiply by a positive monomial so that positive atoms have no negative and no common exponent
        com = {}
        for m in d:
            for a, e in m:
                if a not in com and is_pos_struct(a):
                    com[a] = e
        if com:
            for m in d:
                md = dict(m)
                for a in com:
                    com[a] = min(com[a], md.get(a, 0))
            com = {a: e for a, e in com.items() if e != 0}
        if com:
            nd = {}
            for m, c in d.items():
                md = dict(m)
                for a, e in com.items():
                    md[a] = md.get(a, 0) - e
                nd[tuple(sorted(((a, e) for a, e in md.items() if e != 0), key=lambda x: x[0].id))] = c
            d = nd
    s = 1 if lead > 0 else -1
    al = abs(lead)
    if p.sort == "I":
        # keep integrality
        from math import gcd
        g = 0
        for c in d.values():
            g = gcd(g, int(c))
        al = Fraction(g)
    q = _from_pdict({m: c / al * s for m, c in d.items()})
    return s, q


def lt0_raw(q):
    return _mk("lt0", q.id, (q,), "B", q.fs)


def eq0_raw(q):
    return _mk("eq0", q.id, (q,), "B", q.fs)


def lt0(p):
    if p.op == "const":
        return TRUE if p.args[0] < 0 else FALSE
    if p.op == "iv":
        return FALSE
    if is_nonneg_struct(p):
        return FALSE
    n = neg(p)
    if is_pos_struct(n):
        return TRUE
    if p.op == "poly" and len(p.args) == 1:
        m, c = p.args[0]
        a = _iv_of(m)
        if a is not None:
            return and_(a.args[0], lt0(_from_pdict({tuple(x for x in m if x[0] is not a): c})))
    s, q = _cmp_norm(p)
    if q.op == "const":
        return TRUE if s * q.args[0] < 0 else FALSE
    if s > 0:
        return lt0_raw(q)
    # p = -q : p<0  <=> q>0 <=> not(q<0) and not(q=0)   (integers: not(q-1<0))
    if q.sort == "I":
        return not_(lt0_raw(sub(q, ONE)))
    return and_(not_(lt0_raw(q)), not_(eq0_raw(q)))


def eq0(p):
    if p.op == "const":
        return TRUE if p.args[0] == 0 else FALSE
    if p.op == "iv":
        return not_(p.args[0])
    if is_pos_struct(p) or is_pos_struct(neg(p)):
        return FALSE
    d = pdict(p)
    if len(d) == 1:
        (m, c), = d.items()
        if all(e > 0 for a, e in m):
            return or_(*[eq0_atom(a) for a, e in m])
    s, q = _cmp_norm(p)
    if q.op == "const":
        return TRUE if q.args[0] == 0 else FALSE
    # [c]*A + [not c]*B style equality with an Iverson of a condition is left to the solver
    return eq0_raw(q)


def eq0_atom(a):
    if a.op == "iv":
        return not_(a.args[0])
    if is_pos_struct(a):
        return FALSE
    if a.op == "poly":
        return eq0_raw(_cmp_norm(a)[1])
    return eq0_raw(a)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return not_(lt0(sub(b, a)))


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        return iff(a, b)
    return eq0(sub(a, b))


def _iv_atom_maybe(c):
    return _mk("iv", c.id, (c,), "I", c.fs)


def iv(c):
    """Iverson bracket as a numeric term."""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return _mk("iv", c.id, (c,), "I", c.fs)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return add(mul(iv(c), a), mul(iv(not_(c)), b))


# ---------------------------------------------------------------- binders
def fdiv(a, b):
    if a is ZERO and b.sort == "I":
        return ZERO     # only used where b is not zero
    if a.op == "const" and b.op == "const" and b.args[0] != 0:
        return const(a.args[0] // b.args[0])
    if b is ONE:
        return a if a.sort == "I" else app("floor", (a,), "I")
    if a.sort == "I" and b.sort == "I":
        # (q*b + r) // b with r in [0,b) is left to the solver unless syntactic
        d = pdict(a)
        if b.op == "const":
            qd = {m: c / b.args[0] for m, c in d.items() if (c / b.args[0]).denominator == 1 and m != ()}
            r = {m: c for m, c in d.items() if m not in qd}
            if qd:
                return add(_from_pdict(qd), fdiv(_from_pdict(r), b)) if r else _from_pdict(qd)
        return app("idiv", (a, b), "I")
    return app("floor", (div(a, b),), "I")


def floor_(a):
    if a.op == "const":
        return const(math.floor(a.args[0]))
    if a.sort == "I":
        return a
    return app("floor", (a,), "I")


def imod(a, b):
    if a.op == "const" and b.op == "const" and b.args[0] != 0:
        return const(a.args[0] % b.args[0])
    return sub(a, mul(fdiv(a, b), b))


_BUILD = {}   # name -> smart constructor (ns, syms, body, extra, sort) used when rebuilding


def agg_raw(name, ns, syms, body, extra, sort):
    """Functional atom: name over binders syms (ranges ns) of body, with extra argument terms."""
    syms = tuple(syms)
    orders = [tuple(range(len(syms)))]
    if name in ("sum", "all") and len(syms) > 1:
        orders = list(permutations(range(len(syms))))
    best = None
    for o in orders:
        env = {syms[j]: -(p + 1) for p, j in enumerate(o)}
        dig = (_digest_of(("agg", name, tuple(_dig(ns[j], {}) for j in o), _dig(body, env),
                           tuple(_dig(x, {}) for x in extra), sort)))
        if best is None or dig < best[0]:
            best = (dig, o)
    dig, o = best
    ns = tuple(ns[j] for j in o)
    syms = tuple(syms[j] for j in o)
    fs = set(body.fs) - set(syms)
    for n in ns:
        fs |= n.fs
    for x in extra:
        fs |= x.fs
    t = _mk("agg", dig, (name, ns, syms, body, tuple(extra)), sort, frozenset(fs))
    if t._dig is None:
        t._dig = dig
    return t


def _digest_of(x):
    return blake2b(repr(x).encode(), digest_size=16).hexdigest()


class _Env(dict):
    """binder positions, with the digests already computed under them"""
    __slots__ = ("memo",)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.memo = {}


def _dig(t, env):
    """Structural digest; symbols in env are bound (mapped to binder positions)."""
    if env and not isinstance(env, _Env):
        env = _Env(env)
    if not env or not (t.fs & env.keys()):
        if t._dig is not None:
            return t._dig
        local = {}
        cache = True
    else:
        local = env
        cache = False
        r = env.memo.get(t.id)
        if r is not None:
            return r
    op = t.op
    if op == "sym":
        r = _digest_of(("sym", local[t] if t in local else t.args[0], t.sort))
    elif op == "const":
        r = _digest_of(("c", str(t.args[0])))
    elif op in ("true", "false"):
        r = op
    elif op == "poly":
        r = _digest_of(("p", sorted((sorted((_dig(a, local), str(e)) for a, e in m), str(c)) for m, c in t.args)))
    elif op == "app":
        r = _digest_of(("a", t.args[0], [_dig(a, local) for a in t.args[1:]], t.sort))
    elif op == "and":
        r = _digest_of(("and", sorted(_dig(a, local) for a in t.args)))
    elif op == "agg":
        name, ns, syms, body, extra = t.args
        # canonical under the outer environment: bind with fresh deeper levels
        depth = len(local)
        orders = [tuple(range(len(syms)))]
        if name in ("sum", "all") and len(syms) > 1:
            orders = list(permutations(range(len(syms))))
        best = None
        for o in orders:
            env2 = _Env(local)
            for p, j in enumerate(o):
                env2[syms[j]] = -(depth + p + 1)
            dg = _digest_of(("agg", name, tuple(_dig(ns[j], local) for j in o), _dig(body, env2),
                             tuple(_dig(x, local) for x in extra), t.sort))
            if best is None or dg < best:
                best = dg
        r = best
    else:
        r = _digest_of((op, [_dig(a, local) for a in t.args]))
    if cache:
        t._dig = r
    else:
        local.memo[t.id] = r
    return r


_SUBST_CACHE = {}


def subst(t, s):
    """Simultaneous substitution of symbols by terms."""
    s = {k: v for k, v in s.items() if k is not v}
    if not s:
        return t
    keys = s.keys()
    memo = {}

    def go(x):
        if not (x.fs & keys):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op == "sym":
            r = s[x]
        elif op == "poly":
            r = ZERO
            parts = []
            for m, c in x.args:
                p = const(c)
                for a, e in m:
                    p = mul(p, power(go(a), e))
                parts.append(p)
            r = add(*parts)
        elif op == "app":
            r = rebuild_app(x.args[0], [go(a) for a in x.args[1:]], x.sort)
        elif op == "iv":
            r = iv(go(x.args[0]))
        elif op == "not":
            r = not_(go(x.args[0]))
        elif op == "and":
            r = and_(*[go(a) for a in x.args])
        elif op == "lt0":
            r = lt0(go(x.args[0]))
        elif op == "eq0":
            r = eq0(go(x.args[0]))
        elif op == "agg":
            name, ns, syms, body, extra = x.args
            ns2 = tuple(go(n) for n in ns)
            ex2 = tuple(go(e) for e in extra)
            bad = any(k in syms for k in keys)
            if bad:
                raise RuntimeError("capture")
            b2 = go(body)
            f = _BUILD.get(name)
            if f:
                r = f(ns2, syms, b2, ex2, x.sort)
            else:
                r = agg_raw(name, ns2, syms, b2, ex2, x.sort)
        else:
            raise RuntimeError(op)
        memo[x.id] = r
        return r
    return go(t)


def replace(t, old, new):
    """Replace every occurrence of the subterm old by new."""
    memo = {}
    need = old.fs

    def go(x):
        if x is old:
            return new
        if not (need <= x.fs) or x.op in ("sym", "const", "true", "false"):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op == "poly":
            parts = []
            for m, c in x.args:
                p = const(c)
                for a, e in m:
                    p = mul(p, power(go(a), e))
                parts.append(p)
            r = add(*parts)
        elif op == "app":
            r = rebuild_app(x.args[0], [go(a) for a in x.args[1:]], x.sort)
        elif op == "iv":
            r = iv(go(x.args[0]))
        elif op == "not":
            r = not_(go(x.args[0]))
        elif op == "and":
            r = and_(*[go(a) for a in x.args])
        elif op == "lt0":
            r = lt0(go(x.args[0]))
        elif op == "eq0":
            r = eq0(go(x.args[0]))
        else:
            name, ns, syms, body, extra = x.args
            f = _BUILD.get(name)
            ns2, ex2 = tuple(go(n) for n in ns), tuple(go(e) for e in extra)
            b2 = go(body)
            r = f(ns2, syms, b2, ex2, x.sort) if f else agg_raw(name, ns2, syms, b2, ex2, x.sort)
        memo[x.id] = r
        return r
    return go(t)


def find_sel(body, k):
    """selection atoms sel(mask; k) occurring in a body"""
    seen, stack, outl = set(), [body], []
    while stack:
        x = stack.pop()
        if x.id in seen or k not in x.fs:
            continue
        seen.add(x.id)
        if x.op == "agg" and x.args[0] == "sel" and x.args[4][0] is k:
            outl.append(x)
            continue
        stack.extend(children(x))
    return outl


def _unselect(n, k, body):
    """k ranges over the count of a mask and body depends on k through the selection only:
    -> (n0, i, mask at i, body at i), ranging over the positions instead"""
    for s in find_sel(body, k):
        _, ns, syms, mb, _ = s.args
        if sum_body(ns[0], syms[0], iv(mb)) is not n:
            continue
        i = fresh("k", "I")
        with scope(i, ns[0]):
            b2 = replace(body, s, i)
            if k in b2.fs:
                continue
            return ns[0], i, subst(mb, {syms[0]: i}), b2
    return None


def rebuild_app(name, args, sort):
    if name == "exp":
        return exp_(args[0])
    if name == "log":
        return log_(args[0])
    if name == "pow":
        return pow_sym(*args)
    if name == "idiv":
        return fdiv(*args)
    if name == "floor":
        return floor_(args[0])
    f = APP_REBUILD.get(name)
    if f:
        return f(name, args, sort)
    return app(name, tuple(args), sort)


APP_REBUILD = {}
EXPAND_MAX = 8


def sum_(n, fn):
    """Sum over k in [0,n) of fn(k)."""
    if n.op == "const":
        v = int(n.args[0])
        if v <= 0:
            return ZERO
        if v <= EXPAND_MAX:
            return add(*[fn(const(i)) for i in range(v)])
    k = fresh("k", "I")
    with scope(k, n):
        b = fn(k)
    return sum_body(n, k, b)


def _split_exp(a, k):
    """exp(u) -> (exp(part without k), exp(part with k))"""
    d = pdict(a.args[1])
    w, wo = {}, {}
    for m, c in d.items():
        if any(k in x.fs for x, e in m):
            w[m] = c
        else:
            wo[m] = c
    return _from_pdict(wo), _from_pdict(w)


def sum_body(n, k, body):
    if n.op == "const":
        v = int(n.args[0])
        if v <= 0:
            return ZERO
        if v <= EXPAND_MAX:
            return add(*[subst(body, {k: const(i)}) for i in range(v)])
    if k in body.fs and n.op != "const":
        u = _unselect(n, k, body)
        if u is not None:
            n0, i, mask, b2 = u
            return sum_body(n0, i, mul(iv(mask), b2))
    total = []
    for m, c in pdict(body).items():
        coef = const(c)
        dep = []
        for a, e in m:
            if k not in a.fs:
                coef = mul(coef, power(a, e))
            elif a.op == "iv" and a.args[0].op == "and":
                dl = [x for x in a.args[0].args if k in x.fs]
                if len(dl) != len(a.args[0].args):
                    coef = mul(coef, iv(and_(*[x for x in a.args[0].args if k not in x.fs])))
                dep.append((_iv_atom_maybe(and_(*dl)), e))
            elif a.op == "app" and a.args[0] == "exp":
                wo, w = _split_exp(a, k)
                if wo is not ZERO:
                    coef = mul(coef, exp_(mul(const(e), wo)))
                dep.append((app("exp", (w,), "R"), e))
            else:
                dep.append((a, e))
        if not dep:
            total.append(mul(coef, n))
            continue
        # Kronecker delta elimination
        done = False
        for a, e in dep:
            if a.op == "iv":
                t = None
                for l in _lits(a.args[0]):
                    if l.op == "eq0":
                        t = _solve_lin(l.args[0], k)
                        if t is not None:
                            break
                if t is not None:
                    rest = mul(_from_pdict(_norm_mono({b: f for b, f in dep if b is not a})),
                               iv(and_(*[x for x in _lits(a.args[0]) if x is not l])))
                    val = subst(rest, {k: t})
                    total.append(mul(mul(coef, iv(COND_HOOK[0](and_(le(ZERO, t), lt(t, n))))), val))
                    done = True
                    break
        if done:
            continue
        if len(dep) == 1 and dep[0][0].op == "iv" and dep[0][0].args[0].op == "not":
            # count of a negated condition
            total.append(mul(coef, sub(n, sum_body(n, k, iv(dep[0][0].args[0].args[0])))))
            continue
        # hoist inner sums into a multi-sum
        syms, ns, fac = [k], [n], []
        for a, e in dep:
            if a.op == "agg" and a.args[0] == "sum" and e == 1 and not any(k in x.fs for x in a.args[1]):
                _, ns2, sy2, b2, _ = a.args
                ren = {s: fresh("k", "I") for s in sy2}
                syms += [ren[s] for s in sy2]
                ns += list(ns2)
                fac.append(subst(b2, ren))
            else:
                fac.append(_from_pdict(_norm_mono({a: e})))
        b = ONE
        for f in fac:
            b = mul(b, f)
        if len(syms) > 1:
            total.append(mul(coef, _msum(ns, syms, b)))
        else:
            bd = pdict(b)
            if len(bd) > 1:
                total.append(mul(coef, sum_body(n, k, b)))
            else:
                total.append(mul(coef, agg_raw("sum", (n,), (k,), b, (), b.sort)))
    return add(*total)


def _msum(ns, syms, body):
    total = []
    for m, c in pdict(body).items():
        mono = _from_pdict({m: F1})
        used = [i for i, s in enumerate(syms) if s in mono.fs]
        if len(used) == len(syms) and not any(a.op == "iv" and any(l.op == "eq0" for l in _lits(a.args[0])) for a, e in m):
            total.append(mul(const(c), agg_raw("sum", tuple(ns), tuple(syms), mono, (), mono.sort)))
        else:
            r = mono
            for i in reversed(range(len(syms))):
                r = sum_body(ns[i], syms[i], r)
            total.append(mul(const(c), r))
    return add(*total)


def _solve_lin(p, k):
    """p == 0 linear in k with coefficient +-1 -> t with k = t."""
    d = pdict(p)
    ck = d.get(((k, F1),))
    if ck is None or abs(ck) != 1:
        return None
    rest = {m: c for m, c in d.items() if m != ((k, F1),)}
    r = _from_pdict({m: -c / ck for m, c in rest.items()})
    if k in r.fs or r.sort != "I":
        return None
    return r


def _build_sum(ns, syms, body, extra, sort):
    r = body
    for i in reversed(range(len(syms))):
        r = sum_body(ns[i], syms[i], r)
    return r


_BUILD["sum"] = _build_sum


def all_(n, fn):
    if n.op == "const":
        v = int(n.args[0])
        if v <= 0:
            return TRUE
        if v <= EXPAND_MAX:
            return and_(*[fn(const(i)) for i in range(v)])
    k = fresh("k", "I")
    with scope(k, n):
        b = fn(k)
    return all_body(n, k, b)


def all_body(n, k, body):
    if body is TRUE:
        return TRUE
    if n.op == "const":
        v = int(n.args[0])
        if v <= 0:
            return TRUE
        if v <= EXPAND_MAX:
            return and_(*[subst(body, {k: const(i)}) for i in range(v)])
    if k not in body.fs:
        return or_(body, not_(lt(ZERO, n)))
    if body.op == "and":
        return and_(*[all_body(n, k, b) for b in body.args])
    if n.op != "const":
        u = _unselect(n, k, body)
        if u is not None:
            n0, i, mask, b2 = u
            return all_body(n0, i, implies(mask, b2))
    return agg_raw("all", (n,), (k,), body, (), "B")


def any_(n, fn):
    return not_(all_(n, lambda k: not_(fn(k))))


def _build_all(ns, syms, body, extra, sort):
    r = body
    for i in reversed(range(len(syms))):
        r = all_body(ns[i], syms[i], r)
    return r


_BUILD["all"] = _build_all


def prod_(n, fn):
    if n.op == "const":
        v = int(n.args[0])
        if v <= 0:
            return ONE
        if v <= EXPAND_MAX:
            r = ONE
            for i in range(v):
                r = mul(r, fn(const(i)))
            return r
    k = fresh("k", "I")
    with scope(k, n):
        b = fn(k)
        return prod_body(n, k, b)


def prod_body(n, k, body):
    if n.op == "const":
        v = int(n.args[0])
        if v <= 0:
            return ONE
        if v <= EXPAND_MAX:
            r = ONE
            for i in range(v):
                r = mul(r, subst(body, {k: const(i)}))
            return r
    if k not in body.fs:
        return pow_sym(body, n)
    with scope(k, n):
        if is_pos(body):
            return exp_(sum_body(n, k, log_pos(body)))
    d = pdict(body)
    if len(d) == 1:
        (m, c), = d.items()
        out = pow_sym(const(c), n) if c != 1 else ONE
        keep = {}
        for a, e in m:
            if k not in a.fs:
                out = mul(out, pow_sym(power(a, e), n))
            else:
                keep[a] = e
        if out is not ONE:
            return mul(out, prod_body(n, k, _from_pdict(_norm_mono(keep))))
    return agg_raw("prod", (n,), (k,), body, (), "R")


def log_pos(body):
    return log_(body)


_BUILD["prod"] = lambda ns, syms, body, extra, sort: prod_body(ns[0], syms[0], body)


def ext_(name, n, fn, sort="R"):
    """max/min/argmax/argmin over [0,n)"""
    k = fresh("k", "I")
    with scope(k, n):
        b = fn(k)
    return ext_body(name, n, k, b, sort)


def ext_body(name, n, k, body, sort):
    if n.op == "const" and 1 <= int(n.args[0]) <= EXPAND_MAX:
        v = int(n.args[0])
        vals = [subst(body, {k: const(i)}) for i in range(v)]
        best, bi = vals[0], ZERO
        for i in range(1, v):
            better = lt(best, vals[i]) if name in ("max", "argmax") else lt(vals[i], best)
            bi = ite(better, const(i), bi)
            best = ite(better, vals[i], best)
        return best if name in ("max", "min") else bi
    if k not in body.fs:
        return body if name in ("max", "min") else ZERO
    return agg_raw(name, (n,), (k,), body, (), sort if name in ("max", "min") else "I")


for _n in ("max", "min", "argmax", "argmin"):
    _BUILD[_n] = (lambda nm: lambda ns, syms, body, extra, sort: ext_body(nm, ns[0], syms[0], body, sort))(_n)


# ---------------------------------------------------------------- printing / traversal
def show(t, depth=0):
    if depth > 14:
        return "…"
    op = t.op
    s = lambda x: show(x, depth + 1)
    if op == "sym":
        return t.args[0]
    if op == "const":
        return str(t.args[0])
    if op in ("true", "false"):
        return op
    if op == "poly":
        out = []
        for m, c in t.args:
            fs = [("%s" % s(a) if a.op != "poly" else "(%s)" % s(a)) + ("" if e == 1 else "^%s" % e) for a, e in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            out.append("*".join(fs))
        return " + ".join(out)
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(s(a) for a in t.args[1:]))
    if op == "iv":
        return "[%s]" % s(t.args[0])
    if op == "not":
        return "!(%s)" % s(t.args[0])
    if op == "and":
        return "(" + " & ".join(s(a) for a in t.args) + ")"
    if op == "lt0":
        return "%s < 0" % s(t.args[0])
    if op == "eq0":
        return "%s = 0" % s(t.args[0])
    if op == "agg":
        name, ns, syms, body, extra = t.args
        return "%s{%s}(%s%s)" % (name, ",".join("%s<%s" % (k.args[0], s(n)) for k, n in zip(syms, ns)), s(body),
                                 "".join("; " + s(x) for x in extra))
    return "?" + op


def children(t):
    op = t.op
    if op == "poly":
        return [a for m, c in t.args for a, e in m]
    if op == "app":
        return list(t.args[1:])
    if op == "agg":
        return list(t.args[1]) + [t.args[3]] + list(t.args[4])
    if op in ("sym", "const", "true", "false"):
        return []
    return list(t.args)
