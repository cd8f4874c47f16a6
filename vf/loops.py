"""Loops over symbolic ranges (closed forms found and checked on one generic iteration) and while loops with invariants.

For a `for` loop over 0 <= i < n the body is run once at a generic i from a state in which every location the body
writes is replaced by an opaque value.  A location is summarised when its new value is
  - the old one plus an amount free of opaque values        (sum over the iterations),
  - free of opaque values                                   (value of the last iteration),
  - an array changed only in the slice selected by i        (element-wise definition),
  - an array or list extended by a piece free of opaque values (concatenation over the iterations).
These forms are inductive by construction: iteration i was run from an arbitrary state.
"""
from . import terms as T
from .terms import TRUE, FALSE, ZERO, ONE, const, add, sub, mul, lt, le, eq, and_, or_, not_, implies
from .ctx import Ctx, Unsupported, PathEnd, Scope
from . import sym
from .sym import S, Arr, lift, out, cx, is_num, numt, s_ite
from .vlist import VList, Store, subst_val, touched


class Retry(Exception):
    """Re-run the current path with more known about its loops."""


class _Undef:
    def __repr__(self):
        return "UNDEF"

    def _no(self, *a, **k):
        raise Unsupported("use of a variable whose value after the loop is not determined")

    __getattr__ = __call__ = __getitem__ = __bool__ = __add__ = __iter__ = __len__ = __mul__ = __sub__ = __lt__ = _no


UNDEF = _Undef()


class _Probe(_Undef):
    """stands for the value before an iteration of something the body seems to overwrite without reading it"""

    def __init__(self, known, loc):
        self.__dict__.update(known=known, loc=loc)

    def _no(self, *a, **k):
        self.__dict__["known"]["undef"].remove(self.__dict__["loc"])
        self.__dict__["known"].setdefault("noundef", []).append(self.__dict__["loc"])
        raise Retry()

    __getattr__ = __call__ = __getitem__ = __bool__ = __add__ = __iter__ = __len__ = __mul__ = __sub__ = __lt__ = _no
    __radd__ = __rmul__ = __rsub__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __truediv__ = __rtruediv__ = __neg__ = __setitem__ = _no
    __hash__ = object.__hash__


# ------------------------------------------------------------------ iterables
LONG = 64      # loops with a fixed number of iterations above this are treated like those of unknown length


class It:
    def is_concrete(self):
        return self.n.op == "const" and self.n.args[0] <= LONG

    def items_list(self):
        if self.n.op != "const":
            raise Unsupported("a symbolic number of items is needed one by one")
        return [self.elem(const(i)) for i in range(max(0, int(self.n.args[0])))]


class ItList(It):
    def __init__(self, items):
        self.items = items
        self.n = const(len(items))

    def items_list(self):
        return self.items

    def elem(self, i):
        return self.items[int(i.args[0])]


class ItFn(It):
    def __init__(self, n, elem, src=None):
        self.n, self.elem, self.src = n, elem, src


class SymRange:
    def __init__(self, *a):
        a = [lift(x).t for x in a]
        if len(a) == 1:
            self.lo, self.hi, st = ZERO, a[0], ONE
        else:
            self.lo, self.hi = a[:2]
            st = a[2] if len(a) == 3 else ONE
        if st is not ONE:
            if st.op == "const" and st.args[0] == -1:
                self.step = -1
            else:
                raise Unsupported("range with a step")
        else:
            self.step = 1
        n = sub(self.hi, self.lo) if self.step == 1 else sub(self.lo, self.hi)
        if n.op != "const" and not cx().entails(le(ZERO, n)):
            if cx().scopes:
                n = T.ite(sym.simp(lt(n, ZERO)), ZERO, n)
            else:
                n = n if cx().branch(le(ZERO, n)) else ZERO
        self.n = n if n.op != "const" or n.args[0] >= 0 else ZERO

    def vlen(self):
        return out(S(self.n))

    def elem(self, i):
        return out(S(add(self.lo, i) if self.step == 1 else sub(self.lo, i)))

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic range")


class SymZip:
    def __init__(self, its):
        self.its = its
        n = its[0].n
        for it in its[1:]:
            if it.n is not n:
                if cx().scopes:
                    if not cx().entails(eq(n, it.n)):
                        raise Unsupported("zip of different lengths")
                elif not cx().branch(eq(n, it.n)):
                    n = n if cx().branch(lt(n, it.n)) else it.n
        self.n = n

    def elem(self, i):
        return tuple(it.elem(i) for it in self.its)


class SymEnum:
    def __init__(self, it, start):
        self.it, self.start, self.n = it, lift(start).t, it.n

    def elem(self, i):
        return (out(S(add(self.start, i))), self.it.elem(i))


class SymRev:
    def __init__(self, it):
        self.it, self.n = it, it.n

    def elem(self, i):
        return self.it.elem(sub(sub(self.n, ONE), i))


def as_iter(x):
    if isinstance(x, It):
        return x
    if isinstance(x, VList):
        if x.concrete():
            return ItList(list(list.__iter__(x)))
        return ItFn(x.nterm(), x.at, x)
    if isinstance(x, Arr):
        n = x._shape[0] if x._shape else None
        if n is None:
            raise TypeError("iteration over a 0-d array")
        if n.op == "const":
            return ItList([x[i] for i in range(int(n.args[0]))])
        return ItFn(n, lambda i: x[out(S(i))], x)
    if isinstance(x, (SymRange, SymZip, SymEnum, SymRev)):
        return ItFn(x.n, x.elem, x)
    if isinstance(x, S):
        raise TypeError("object is not iterable")
    if hasattr(x, "vf_iter"):
        return x.vf_iter()
    return ItList(list(x))


# ------------------------------------------------------------------ the for rule
def _same(a, b):
    return a.t is b.t and a.nan is b.nan and a.pinf is b.pinf and a.ninf is b.ninf


class PolyArr(Arr):
    """The rows collected so far: m rows of the given shape, where without any row it is numpy's one-dimensional empty array.
    Only questions with the same answer in both cases are allowed unless m > 0 is known."""

    def __init__(self, m, tail, src, known, loc):
        self.__dict__.update(m=m, known=known, loc=loc)
        Arr.__init__(self, (m,) + tuple(tail), src.getter(), src.kind)

    @property
    def _shape(self):
        if not cx().entails(lt(ZERO, self.m)):
            self.known["poly"].pop(self.loc, None)
            self.known.setdefault("nopoly", []).append(self.loc)
            raise Retry()
        return self.__dict__["shp"]

    @_shape.setter
    def _shape(self, v):
        self.__dict__["shp"] = v

    @property
    def size(self):
        r = self.m
        for d in self.__dict__["shp"][1:]:
            if not cx().entails(lt(ZERO, d)):
                return Arr.size.fget(self)
            r = mul(r, d)
        return out(S(r))

    def vlen(self):
        return out(S(self.m))


class Loop:
    def __init__(self, it, site, names):
        self.it, self.site, self.names = it, site, names
        self.concrete = it.is_concrete()
        self.items = it.items_list() if self.concrete else None
        self.peeled = []
        self.i = None
        self.completed = False
        self.active = False
        if self.concrete:
            return
        c = cx()
        info = c.job.loopinfo
        self.key = (site, tuple(c.trace[:c.pos]), len(c.loops), c.noid)
        self.known = info.get(self.key)
        if self.known is None:
            self.known = info[self.key] = {"locs": [], "peel": 0}
            self._hints(c)
        c.job.lastloop[(site, len(c.loops))] = (self.known, c.noid)
        self.n = it.n
        self.off = 0
        for p in range(self.known["peel"]):
            if c.scopes:
                # let the enclosing loop run its first iteration separately instead
                o = c.loops[-1] if c.loops else None
                if o is None or o.known["peel"] >= 1:
                    raise Unsupported("first iteration inside another loop")
                o.known["peel"] += 1
                self.known["peel"] = 0
                raise Retry()
            if c.branch(lt(const(p), self.n)):
                self.peeled.append(it.elem(const(p)))
                self.off = p + 1
            else:
                break
        self.skip = False

    def _hints(self, c):
        """start with the locations the same loop wrote on an earlier path (havocing more than needed is sound)"""
        last = c.job.lastloop.get((self.site, len(c.loops)))
        if last is None:
            return
        known, noid = last

        def move(loc):
            if loc[0] == "local":
                return loc if loc[1] in self.names else None
            if loc[0] == "arr":
                oid = loc[1] + c.noid - noid
                o = c.objs.get(oid)
                return ("arr", oid, None) if isinstance(o, Arr) and o.base is None else None
            if loc[0] == "attr":
                for oid in (loc[1], loc[1] + c.noid - noid):
                    o = c.objs.get(oid)
                    if o is not None and loc[2] in getattr(o, "__dict__", {}) and oid not in c.owner and not isinstance(o, (Arr, VList)):
                        return ("attr", oid, loc[2])
            return None
        for k in ("locs", "undef", "noundef", "nopoly", "const", "notconst", "real"):
            for loc in known.get(k, ()):
                m = move(loc)
                if m is not None and m not in self.known.setdefault(k, []):
                    self.known[k].append(m)
        for loc, tail in known.get("poly", {}).items():
            if loc[0] == "local" and move(loc):
                self.known.setdefault("poly", {})[loc] = tail

    def total(self):
        return sub(self.n, const(self.off)) if self.off else self.n

    # -- journal callbacks
    def note(self, kind, obj, name=None):
        if not self.active:
            return
        oid = getattr(obj, "_vf_oid", None) if kind == "attr" else obj.oid
        if oid is None:
            return
        if oid >= self.start_oid:
            # part of an element of a list that was there before the loop?
            own = cx().owner.get(oid)
            while own is not None:
                st, j, root = own
                if st.oid < self.start_oid:
                    if j is not self.idx:
                        raise Unsupported("list elements updated in a loop over something else")
                    if not any(a is st and b is root for a, b in self.elem_dirty):
                        self.elem_dirty.append((st, root))
                    return
                own = cx().owner.get(st.oid)
            return
        loc = (kind, oid, name)
        if loc not in self.locs_seen:
            self.locs_seen.append(loc)
            self.seen_obj[loc] = obj
        if loc not in self.havoced:
            self.known["locs"].append(loc)
            raise Retry()

    def note_read(self, st, j):
        if self.active and st.oid < self.start_oid and j is not self.idx:
            self.other_reads.append(st)

    def note_store(self, st):
        """an inner loop updated the elements of a list"""
        if self.active and st.oid < self.start_oid:
            raise Unsupported("list elements updated in nested loops")

    def note_arr(self, a):
        self.note("arr", a)

    def note_attr(self, o, name):
        self.note("attr", o, name)

    def note_list(self, o):
        self.note("list", o)

    # -- protocol used by the rewritten source
    def enter(self, vals):
        c = cx()
        if self.off < len(self.peeled) or self.known["peel"] > self.off:
            self.skip = True
            return vals
        n = self.total()
        if c.scopes:
            if not c.entails(lt(ZERO, n)):
                if c.entails(le(n, ZERO)):
                    self.skip = True
                    return vals
                # generic body: assume the range is inhabited inside the scope only
        elif not c.branch(lt(ZERO, n)):
            self.skip = True
            return vals
        self.i = T.fresh("i", "I")
        self.idx = add(self.i, const(self.off)) if self.off else self.i
        self.start_oid = c.noid + 1
        self.havoced = {}
        self.seen_obj = {}
        self.locs_seen = []
        self.elem_dirty = []
        self.other_reads = []
        self.opaque = set()
        self.pre_vals = list(vals)
        self.draw0 = len(c.draws)
        # find the objects for the locations known to be written
        for loc in list(self.known["locs"]):
            self._havoc(loc)
        new = []
        for nm, v in zip(self.names, vals):
            if ("local", nm, None) in self.known["locs"]:
                loc = ("local", nm, None)
                h = v if loc in self.known.get("const", ()) else self._opaque_like(v, loc, "var_" + nm)
                self.havoced[("local", nm, None)] = (None, v, h)
                new.append(h)
            else:
                new.append(v)
        self.start_vals = list(new)
        c.loops.append(self)
        self.scope = Scope(c, self.i, n)
        self.scope.__enter__()
        self.active = True
        return tuple(new)

    def _find(self, loc):
        return cx().objs.get(loc[1])

    def _havoc(self, loc):
        kind, oid, name = loc
        if kind == "local":
            return
        o = self._find(loc)
        if o is None:
            raise Unsupported("loop location lost")
        touched(cx(), oid)
        if kind == "arr":
            g, memo, fn = o.getter(), o._memo, o._fn
            ph = self._opaque_arr(o._shape, o.kind, "arr%d" % oid)
            o._fn, o._memo = ph.getter(), {}
            self.havoced[loc] = (o, Arr(o._shape, g, o.kind), ph, (fn, memo), o._fn)
        elif kind == "attr":
            v = o.__dict__.get(name, UNDEF)
            h = v if loc in self.known.get("const", ()) else self._opaque_like(v, loc, "attr_%s" % name)
            self.havoced[loc] = (o, v, h)
            object.__setattr__(o, name, h)
        elif kind == "list":
            st = o.state()
            pre = VList()
            pre.restore(st)
            m = T.fresh("m", "I")
            self.opaque.add(m)
            ph = (m,)
            self.havoced[loc] = (o, pre, ph, st)
            pre.to_segs()
            o.restore(([], list(pre.segs) + [(m, _opaque_elem)]))
            self.seen_len = None
            o._seg_mark = len(o.segs)
            o._seg_was = list(o.segs)

    def _opaque_arr(self, shape, kind, tag, lead=()):
        c = cx()
        nm = "hv%d_%s" % (c.ghost.setdefault("nhv", 0), tag)
        c.ghost["nhv"] += 1
        self.opaque.add(nm)
        return sym.uf_arr(nm, shape, {"f": "R", "i": "I", "b": "B"}[kind])

    def _opaque_like(self, v, loc, tag):
        if loc in self.known.get("undef", ()):
            return _Probe(self.known, loc)
        if isinstance(v, _Probe):
            return v
        if v is UNDEF or v is None or isinstance(v, (str,)):
            return UNDEF if v is not None else None
        if is_num(v):
            s = lift(v)
            if s.sort == "B":
                x = T.fresh("hv_" + tag, "B")
            else:
                x = T.fresh("hv_" + tag, "I" if s.sort == "I" and not s.fl and loc not in self.known.setdefault("real", []) else "R")
            self.opaque.add(x)
            return S(x)
        if isinstance(v, PolyArr) and loc not in self.known.get("nopoly", ()):
            m = T.fresh("m", "I")
            cx().assume(le(ZERO, m))
            self.opaque.add(m)
            tail = v.__dict__["shp"][1:]
            self.known.setdefault("poly", {})[loc] = tail
            m = add(v.m, m)
            return PolyArr(m, tail, self._opaque_arr((m,) + tail, v.kind, tag), self.known, loc)
        if isinstance(v, Arr):
            if loc in self.known.get("poly", {}) and len(v._shape) == 1 and v._shape[0] is ZERO:
                m = T.fresh("m", "I")
                cx().assume(le(ZERO, m))
                self.opaque.add(m)
                tail = self.known["poly"][loc]
                return PolyArr(m, tail, self._opaque_arr((m,) + tail, v.kind, tag), self.known, loc)
            if loc in self.known.setdefault("grow", []):
                m = T.fresh("m", "I")
                cx().assume(le(ZERO, m))
                self.opaque.add(m)
                return self._opaque_arr((add(v._shape[0], m),) + v._shape[1:], v.kind, tag)
            return self._opaque_arr(v._shape, v.kind, tag)
        if isinstance(v, VList):
            return UNDEF
        return UNDEF

    def once(self):
        if self.skip:
            return
        yield self.it.elem(self.idx)
        self.completed = True

    def bad(self):
        raise Unsupported("return or break inside a loop over a symbolic range")

    def abort(self):
        if self.active:
            self._leave()

    def _leave(self):
        c = cx()
        self.active = False
        self.scope.__exit__()
        c.loops.remove(self)

    def close(self, vals):
        if self.skip:
            return vals
        if not self.completed:
            self.abort()
            raise Unsupported("loop body left early")
        c = cx()
        self._leave()
        n = self.total()
        self._restored(vals)
        self._prefixes(vals)
        # locals rebound by the body
        res = list(vals)
        restore = []
        finals = []
        for k, nm in enumerate(self.names):
            loc = ("local", nm, None)
            before, after = self.start_vals[k], vals[k]
            if loc in self.havoced:
                v0 = self.havoced[loc][1]
                if after is before:
                    res[k] = v0
                    continue
                finals.append((k, loc, v0, before, after))
            elif after is not before:
                # was its previous value read? run again with it opaque when it existed before
                if before is not UNDEF:
                    self.known["locs"].append(loc)
                    raise Retry()
                finals.append((k, loc, UNDEF, UNDEF, after))
        for k, loc, v0, ph, v1 in finals:
            res[k] = self._final(loc, v0, ph, v1, n)
        for loc, h in list(self.havoced.items()):
            if loc[0] == "local":
                continue
            o, v0, ph = h[:3]
            if loc[0] == "attr":
                v1 = o.__dict__.get(loc[2], UNDEF)
                f = v0 if v1 is ph else self._final(loc, v0, ph, v1, n)
                object.__setattr__(o, loc[2], f)
                c.journal_attr(o, loc[2])
            elif loc[0] == "arr":
                if o._fn is h[4]:
                    o._fn, o._memo = h[3]
                    continue
                g1 = o.getter()
                fin = self._final_arr(v0, ph, Arr(o._shape, g1, o.kind), n)
                o._fn, o._memo = fin.getter(), {}
                c.journal_arr(o)
            elif loc[0] == "list":
                m = ph[0]
                added = o.segs[o._seg_mark:]
                if o.segs is None or len(o.segs) < o._seg_mark or any(a is not b for a, b in zip(o.segs, o._seg_was)):
                    raise Unsupported("list changed in a loop by other than appending")
                pre = VList()
                pre.restore(h[3])
                if added:
                    pre.to_segs()
                    if len(added) == 1 and added[0][0] is ONE:
                        obj = self._known_val(added[0][1](ZERO))
                        self._check_free(obj)
                        i = self.i
                        pre.segs.append((n, Store(n, (lambda obj: lambda j: subst_val(obj, {i: j}))(obj), o)))
                    elif len(added) == 1:
                        raise Unsupported("list extended by a symbolic number of elements per iteration")
                    else:
                        objs = [a[1](ZERO) for a in added]
                        if any(a[0] is not ONE for a in added):
                            raise Unsupported("list extended by a symbolic number of elements per iteration")
                        for x in objs:
                            self._check_free(x)
                        i = self.i
                        q = const(len(objs))

                        def fn(j, objs=objs):
                            a, b = sym.split_mod(j, q)
                            if b.op == "const":
                                return subst_val(objs[int(b.args[0])], {i: a})
                            for t in range(len(objs) - 1):
                                if cx().branch(eq(b, const(t))):
                                    return subst_val(objs[t], {i: a})
                            return subst_val(objs[-1], {i: a})
                        pre.segs.append((mul(n, q), Store(mul(n, q), fn, o)))
                o.restore(pre.state())
                c.journal_list(o)
        for st, obj in self.elem_dirty:
            self._check_free(obj)
            if any(x is st for x in self.other_reads):
                raise Unsupported("list elements read while others are updated")
            if [x is st for x, _ in self.elem_dirty].count(True) > 1:
                raise Unsupported("list element updated through different objects")
            old = Store(st.n, st.base)
            old.memo, old.dirty = dict(st.memo), [(a, b) for a, b in st.dirty if b is not obj]
            i, off, end = self.i, const(self.off), self.n

            def fn(j, obj=obj, old=old):
                if self.off and c.branch(lt(j, off)):
                    return old(j)
                if end is not old.n and not c.branch(lt(j, end)):
                    return old(j)
                return subst_val(obj, {i: sub(j, off) if self.off else j})
            st.set(fn)
            touched(c, st.oid)
            for l in c.loops:
                l.note_store(st)
        self.i = None
        return tuple(res)

    def _mentions(self, t):
        """does a term mention an opaque pre-state value?"""
        if any(isinstance(o, T.Term) and o in t.fs for o in self.opaque):
            return True
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "app" and x.args[0].split("?")[0] in self.opaque:
                return True
            stack.extend(T.children(x))
        return False

    def _free(self, s):
        return not any(self._mentions(t) for t in (s.t, s.nan, s.pinf, s.ninf))

    def _check_free(self, v, seen=None):
        seen = set() if seen is None else seen
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, S):
            if not self._free(v):
                raise Unsupported("loop-carried value of an undetermined form")
        elif isinstance(v, Arr):
            ix = [T.fresh("ix", "I") for _ in v._shape]
            from .vlist import _scopes
            with _scopes([self.i] + ix, [self.total()] + list(v._shape)):
                self._check_free(v.get(tuple(ix)), seen)
            for d in v._shape:
                if self._mentions(d):
                    raise Unsupported("loop-carried value of an undetermined form")
        elif isinstance(v, VList):
            if v.concrete():
                for x in list.__iter__(v):
                    self._check_free(x, seen)
        elif isinstance(v, dict):
            for x in v.values():
                self._check_free(x, seen)
        elif isinstance(v, (tuple,)):
            for x in v:
                self._check_free(x, seen)
        elif isinstance(v, _Undef):
            raise Unsupported("loop-carried value of an undetermined form")
        elif hasattr(v, "_vf_oid") and v._vf_oid >= self.start_oid:
            for x in v.__dict__.values():
                self._check_free(x, seen)

    def _final(self, loc, v0, ph, v1, n):
        i = self.i
        last = add(sub(self.n, ONE), ZERO)
        if isinstance(v1, _Undef):
            return UNDEF
        if is_num(v1):
            s1 = lift(v1)
            if ph is UNDEF or ph is None or not is_num(ph):
                s1 = self._known(s1, True)
                if not self._free(s1):
                    raise Unsupported("loop-carried value of an undetermined form")
                return subst_val(s1, {i: sub(n, ONE)})
            sp = lift(ph)
            if s1.sort == "R" and sp.sort == "I":
                self.known.setdefault("real", []).append(loc)
                raise Retry()
            if s1.sort != "B":
                d = self._known(sym.s_sub(s1, S(sp.t)))
                if self._free(d):
                    with Scope(cx(), i, n):
                        pass
                    tot = sym.sum_flagged(n, i, d)
                    return out(sym.s_add(lift(v0), tot))
            s1 = self._known(s1, True)
            if self._free(s1):
                return subst_val(s1, {i: sub(n, ONE)})
            raise Unsupported("loop-carried number of an undetermined form (%s)" % (loc[1] if loc[0] == "local" else loc[2]))
        if isinstance(v1, Arr):
            return self._final_rebound(loc, v0, ph, v1, n)
        try:
            self._check_free(v1)
        except Unsupported:
            return UNDEF
        try:
            return _Later(lambda: subst_val(v1, {i: sub(n, ONE)})) if False else subst_val(v1, {i: sub(n, ONE)})
        except Unsupported:
            return UNDEF

    def _final_rebound(self, loc, v0, ph, v1, n):
        i = self.i
        from .vlist import _scopes
        if isinstance(ph, _Probe):
            self._check_free(v1)
            return subst_val(v1, {i: sub(n, ONE)})
        if isinstance(ph, PolyArr):
            p0 = ph
            ph = Arr(p0.__dict__["shp"], p0.getter(), p0.kind)
            if v1 is p0:
                return v0
            if len(v1._shape) != len(ph._shape):
                self.known["poly"].pop(loc)
                self.known.setdefault("nopoly", []).append(loc)
                raise Retry()
            was = v0
            if isinstance(v0, PolyArr):
                v0 = Arr(v0.__dict__["shp"], v0.getter(), v0.kind)
            else:
                v0 = Arr((ZERO,) + ph._shape[1:], lambda *idx: S(const(0)), v1.kind)
            r = self._extended(loc, v0, ph, v1, n)
            if not cx().entails(lt(ZERO, r._shape[0])):
                if not isinstance(was, PolyArr):
                    raise Unsupported("array that may stay empty in a loop")
                r = PolyArr(r._shape[0], r._shape[1:], r, was.known, was.loc)
            return r
        elif v0 is not UNDEF and not (isinstance(ph, Arr) and len(v1._shape) == len(ph._shape) and all(a is b for a, b in zip(v1._shape, ph._shape))):
            # the shape changes: either the previous value is not read at all, or the first iteration is different
            if v0 is not None and loc not in self.known.get("noundef", ()) and loc not in self.known.get("grow", ()):
                self.known.setdefault("undef", []).append(loc)
                raise Retry()
            if isinstance(v0, Arr) and len(v0._shape) == 1 and v0._shape[0] is ZERO and loc not in self.known.get("nopoly", ()) and len(v1._shape) >= 1 \
                    and not any(self._mentions(x) or i in x.fs for x in v1._shape[1:]):
                self.known.setdefault("poly", {})[loc] = tuple(v1._shape[1:])
                raise Retry()
            if v0 is None or not isinstance(ph, Arr) or len(v1._shape) != len(ph._shape) or v0._shape[:1] == (ZERO,):
                self._peel()
        if not isinstance(ph, Arr):
            self._check_free(v1)
            return subst_val(v1, {i: sub(n, ONE)})
        # same shape: accumulation or last value
        if all(a is b for a, b in zip(v1._shape, ph._shape)):
            return self._final_arr(v0, ph, v1, n)
        if loc not in self.known.setdefault("grow", []) and loc not in self.known.get("poly", {}):
            self.known["grow"].append(loc)
            raise Retry()
        return self._extended(loc, v0, ph, v1, n)

    def _extended(self, loc, v0, ph, v1, n):
        """extension along axis 0"""
        i = self.i
        from .vlist import _scopes
        c0 = ph._shape[0]
        m = sub(v1._shape[0], c0)
        if self._mentions(m) or any(a is not b for a, b in zip(v1._shape[1:], ph._shape[1:])):
            self._peel()
        if i in m.fs:
            raise Unsupported("array extended by a varying number of rows")
        ix = [T.fresh("ix", "I") for _ in v1._shape]
        g1, gp = v1.getter(), ph.getter()
        c = cx()
        with _scopes([i] + ix, [n] + list(v1._shape)):
            from .ctx import Assume
            with Assume(c, [lt(ix[0], c0)]):
                a, b = g1(*ix), gp(*ix)
                if not (a.t is b.t and a.nan is b.nan and a.pinf is b.pinf and a.ninf is b.ninf):
                    raise Unsupported("array rebuilt in a loop")
        j = T.fresh("ix", "I")
        with _scopes([i, j] + ix[1:], [n, m] + list(v1._shape[1:])):
            piece = g1(*([add(c0, j)] + ix[1:]))
        if not self._free(piece):
            raise Unsupported("loop-carried array of an undetermined form")
        g0 = v0.getter()
        n0 = v0._shape[0]

        def fn(*idx):
            r = idx[0]
            inold = sym.simp(lt(r, n0)) if n0 is not ZERO else FALSE
            if inold is TRUE:
                return g0(*idx)
            q, rem = (sub(r, n0), ZERO) if m is ONE else sym.split_mod(sub(r, n0), m)
            mm = {i: q, j: rem}
            mm.update(zip(ix[1:], idx[1:]))
            new = S(T.subst(piece.t, mm), T.subst(piece.nan, mm), T.subst(piece.pinf, mm), T.subst(piece.ninf, mm))
            return new if inold is FALSE else s_ite(inold, g0(*idx), new)
        return Arr((add(n0, mul(n, m)),) + v1._shape[1:], fn, v1.kind)

    def _restored(self, vals):
        """numbers which every iteration leaves as they were before the loop (changed and set back in between)"""
        for loc, h in self.havoced.items():
            if loc[0] == "attr":
                v1 = h[0].__dict__.get(loc[2], UNDEF)
            elif loc[0] == "local":
                v1 = vals[self.names.index(loc[1])]
            else:
                continue
            v0 = h[1]
            same = is_num(v0) and is_num(v1) and _same(lift(v0), lift(v1))
            known = self.known.setdefault("const", [])
            if loc in known and not same:
                known.remove(loc)
                self.known.setdefault("notconst", []).append(loc)
                raise Retry()
            if same and loc not in known and loc not in self.known.get("notconst", ()) and v1 is not h[2]:
                known.append(loc)
                raise Retry()

    def _prefixes(self, vals):
        """the value at the start of iteration i of every number which each iteration increases by a known amount"""
        self.prefix, self.atlast = {}, {}
        n, i = self.total(), self.i
        todo = []
        for loc, h in self.havoced.items():
            if loc[0] not in ("attr", "local"):
                continue
            v1 = h[0].__dict__.get(loc[2], UNDEF) if loc[0] == "attr" else vals[self.names.index(loc[1])]
            if is_num(h[1]) and is_num(v1) and isinstance(h[2], S) and h[2].t.op == "sym" and lift(v1).sort != "B" and lift(h[1]).clean():
                todo.append((h[2].t, lift(h[1]), lift(v1)))
        progress = True
        while progress and todo:
            progress = False
            for it in list(todo):
                x, v0, v1 = it
                if v1.sort == "R" and x.sort == "I":
                    continue
                d = self._known(sym.s_sub(v1, S(x)))
                if d.clean() and self._free(d):
                    with Scope(cx(), i, n):
                        k = T.fresh("k", "I")
                        self.prefix[x] = add(numt(v0), T.sum_body(i, k, T.subst(numt(d), {i: k})))
                    # at the last iteration: the final value less the last increment
                    self.atlast[x] = sub(add(numt(v0), T.sum_body(n, i, numt(d))), numt(d))
                    todo.remove(it)
                    progress = True

    def _known_val(self, o):
        return self._known(o) if isinstance(o, S) else o

    def _known(self, s, last=False):
        m = self.atlast if last else self.prefix
        if not m or self._free(s):
            return s
        return S(*[T.subst(t, m) for t in (s.t, s.nan, s.pinf, s.ninf)])

    def _peel(self):
        if self.known["peel"] >= 1:
            raise Unsupported("loop-carried array of an undetermined form")
        self.known["peel"] += 1
        raise Retry()

    def _final_arr(self, v0, ph, v1, n):
        i = self.i
        from .vlist import _scopes
        from .ctx import Assume
        c = cx()
        ix = [T.fresh("ix", "I") for _ in v1._shape]
        g1, gp, g0 = v1.getter(), ph.getter(), v0.getter()
        pname = gp(*ix).t
        with _scopes([i] + ix, [n] + list(v1._shape)):
            e1 = self._known(g1(*ix))
            p = gp(*ix)
            if not e1.sort == "B":
                d = sym.s_sub(e1, p)
                if self._free(d):
                    def fn(*idx):
                        mm = dict(zip(ix, idx))
                        dd = S(T.subst(d.t, mm), T.subst(d.nan, mm), T.subst(d.pinf, mm), T.subst(d.ninf, mm))
                        return sym.s_add(g0(*idx), sym.sum_flagged(n, i, dd))
                    return Arr(v1._shape, fn, v1.kind)
            if self._free(e1):
                # whole array overwritten every time: last value
                return subst_val(Arr(v1._shape, g1, v1.kind), {i: sub(n, ONE)})
            # one slice per iteration
            for a in range(len(ix)):
                hits = {ix[a]: self.idx}
                h = [T.subst(t, hits) for t in (e1.t, e1.nan, e1.pinf, e1.ninf)]
                # elements of the slice still referring to the old array are unchanged ones
                ph_at = T.subst(pname, hits)
                v0_at = g0(*[T.subst(x, hits) for x in ix])
                h[0] = T.replace(h[0], ph_at, sym.numt(v0_at)) if v0_at.clean() and ph_at.sort != "B" else h[0]
                hs = S(*h)
                if not self._free(hs):
                    hs = S(*[sym.resolve(t) for t in h])
                if not self._free(hs):
                    continue
                with Assume(c, [not_(eq(ix[a], self.idx))]):
                    e2 = g1(*ix)
                    e2 = S(*[sym.resolve(t) for t in (e2.t, e2.nan, e2.pinf, e2.ninf)]) if not e2.clean() else e2
                    same = e2.clean() and (e2.t is p.t or sym.resolve(e2.t) is p.t or e2.t.sort != "B" and c.entails(eq(e2.t, p.t)))
                if not same:
                    continue
                off = const(self.off)

                def fn(*idx, a=a, hs=hs):
                    mm = dict(zip(ix, idx))
                    mm[i] = sub(idx[a], off)
                    new = S(*[T.subst(t, mm) for t in (hs.t, hs.nan, hs.pinf, hs.ninf)])
                    inr = sym.simp(and_(le(off, idx[a]), lt(idx[a], self.n)))
                    return new if inr is TRUE else s_ite(inr, new, g0(*idx))
                return Arr(v1._shape, fn, v1.kind)
        raise Unsupported("array written in a loop in an undetermined pattern")


def _opaque_elem(i):
    raise Unsupported("element of a list under construction in a loop")


class ForInv:
    """contract of a for loop: an invariant over the state and the number of completed iterations"""
    concrete = False
    items = None
    peeled = ()

    def __init__(self, it, site, names, inv):
        self.it, self.site, self.names, self.inv = it, site, names, inv
        self.i = None
        self.active = self.completed = False
        c = cx()
        if c.scopes:
            raise Unsupported("loop contract inside another symbolic loop")

    def enter(self, vals):
        c = cx()
        env = dict(zip(self.names, vals))
        self.inv.check("holds on entry", env, out(S(ZERO)))
        # what the body writes is found on the path through it, which is explored first
        self.key = (self.site, "for", tuple(c.trace[:c.pos]), c.noid)
        self.known = c.job.loopinfo.setdefault(self.key, {"locs": []})
        self.body = c.choose([True, False])
        if not self.body:
            self.known["left"] = True
        self.start_oid = c.noid + 1
        self.havoced = set()
        if self.body:
            k = T.fresh("done", "I")
            c.assume(le(ZERO, k))
            c.assume(lt(k, self.it.n))
        else:
            k = self.it.n
            if k.op != "const":
                c.assume(le(ZERO, k))
        self.k = k
        c.ghost["done"] = out(S(k))
        for loc in list(self.known["locs"]):
            if loc[0] != "local":
                self._havoc(loc)
                self.havoced.add(loc)
        new = []
        for nm, v in zip(self.names, vals):
            loc = ("local", nm, None)
            if loc in self.known["locs"]:
                self.havoced.add(loc)
                new.append(self.inv.havoc(nm, v))
            else:
                new.append(v)
        self.start_vals = list(new)
        if c.clock is not None:
            t = T.app("clock", (const(c.ghost["nclock"]),), "R")
            c.ghost["nclock"] += 1
            c.assume(le(c.clock, t))
            c.clock = t
        self.inv.assume(dict(zip(self.names, new)), out(S(k)))
        if not self.body:
            return tuple(new)
        c.loops.append(self)
        self.active = True
        return tuple(new)

    def once(self):
        if self.body:
            yield self.it.elem(self.k)
            self.completed = True

    def bad(self):
        raise Unsupported("return or break inside a loop with a contract")

    def abort(self):
        self.leave()

    def close(self, vals):
        if not self.body:
            return vals
        self._locals_check(vals)
        self.leave()
        self.inv.check("is preserved", dict(zip(self.names, vals)), out(S(add(self.k, ONE))))
        raise PathEnd()


def begin(it, site, names):
    c = cx()
    sel = c.ghost.get("for_inv") if c is not None else None
    it = as_iter(it)
    if sel and not it.is_concrete():
        iv = sel(site, c, it.n)
        if iv is not None:
            return ForInv(it, site, names, iv)
    return Loop(it, site, names)


def map_symbolic(f, it):
    """[f(x) for x in it] over a symbolic range"""
    L = Loop(it, "comp", ())
    L.enter(())
    if L.skip:
        return VList()
    try:
        r = f(it.elem(L.idx))
        L.completed = True
    except BaseException:
        L.abort()
        raise
    i, n = L.i, L.total()
    L._check_free(r)
    L.close(())
    return VList.of(S(n), lambda j: subst_val(r, {i: j}))


# ------------------------------------------------------------------ while
MAX_UNROLL = 6


class While:
    def __init__(self, site, names, local):
        self.site, self.names = site, names
        c = cx()
        self.count = 0
        self.nb0 = c.nbranch
        sel = c.ghost.get("while_inv")
        self.inv = sel(site, c) if sel else None
        self.plain = self.inv is None
        self.completed = False
        self.active = False

    def tick(self):
        c = cx()
        self.count += 1
        lim = c.ghost.get("max_unroll", MAX_UNROLL)
        if self.count > lim and c.nbranch > self.nb0:
            raise Unsupported("while loop without an invariant (%s)" % self.site)
        if self.count > 2000:
            raise Unsupported("while loop does not end (%s)" % self.site)

    # ---- invariant rule
    def enter(self, vals):
        c = cx()
        self.inv.check("holds on entry", dict(zip(self.names, vals)))
        self.key = (self.site, "while", tuple(c.trace[:c.pos]), c.noid)
        self.known = c.job.loopinfo.setdefault(self.key, {"locs": []})
        self.start_oid = c.noid + 1
        self.havoced = set()
        # arbitrary state
        for loc in list(self.known["locs"]):
            if loc[0] != "local":
                self._havoc(loc)
                self.havoced.add(loc)
        new = []
        for nm, v in zip(self.names, vals):
            loc = ("local", nm, None)
            if loc in self.known["locs"]:
                self.havoced.add(loc)
                new.append(self.inv.havoc(nm, v))
            else:
                new.append(v)
        self.start_vals = list(new)
        # time and randomness advance by an unknown amount
        if c.clock is not None:
            t = T.app("clock", (const(c.ghost["nclock"]),), "R")
            c.ghost["nclock"] += 1
            c.assume(le(c.clock, t))
            c.clock = t
        self.inv.assume(dict(zip(self.names, new)))
        self.i = None
        c.loops.append(self)
        self.active = True
        return tuple(new)

    def _havoc(self, loc):
        o = cx().objs.get(loc[1])
        if o is None:
            raise Unsupported("loop location lost")
        kind, oid, name = loc
        if kind == "attr":
            v = o.__dict__.get(name, UNDEF)
            object.__setattr__(o, name, self.inv.havoc((o, name), v))
            for l in cx().loops:
                l.note_attr(o, name)
        elif kind == "arr":
            ph = self.inv.havoc_arr(o)
            o._fn, o._memo = ph.getter(), {}
            for l in cx().loops:
                l.note_arr(o)
        elif kind == "list":
            self.inv.havoc_list(o)
            for l in cx().loops:
                l.note_list(o)

    def note(self, kind, obj, name=None):
        if not self.active:
            return
        oid = getattr(obj, "_vf_oid", None) if kind == "attr" else obj.oid
        if oid is None:
            return
        own = cx().owner.get(oid)
        while own is not None:
            # part of a list's element: the list's contents change
            st = own[0]
            if st.oid < self.start_oid:
                return self.note_store(st)
            own = cx().owner.get(st.oid)
        if oid >= self.start_oid:
            return
        loc = (kind, oid, name)
        if loc not in self.havoced:
            if self.known.get("left"):
                raise Unsupported("location written by a loop body found too late")
            self.known["locs"].append(loc)
            raise Retry()

    def note_read(self, st, j):
        pass

    def note_store(self, st):
        if self.active and st.oid < self.start_oid:
            if st.vl is None:
                raise Unsupported("part of a list element written in a loop with a contract")
            self.note("list", st.vl)

    note_arr = Loop.note_arr
    note_attr = Loop.note_attr
    note_list = Loop.note_list

    def once(self):
        yield 0
        self.completed = True

    def _locals_check(self, vals):
        for nm, a, b in zip(self.names, self.start_vals, vals):
            loc = ("local", nm, None)
            if a is not b and loc not in self.havoced:
                if self.known.get("left"):
                    raise Unsupported("location written by a loop body found too late")
                self.known["locs"].append(loc)
                raise Retry()

    def step(self, vals):
        self._locals_check(vals)
        self.leave()
        self.inv.check("is preserved", dict(zip(self.names, vals)))
        raise PathEnd()

    def leave(self):
        if self.active:
            self.active = False
            c = cx()
            if self in c.loops:
                c.loops.remove(self)


for _m in ("_havoc", "note", "note_read", "note_store", "note_arr", "note_attr", "note_list", "_locals_check", "leave"):
    setattr(ForInv, _m, While.__dict__[_m])


def begin_while(site, names, local):
    return While(site, names, local)


# ------------------------------------------------------------------ conditions inside loop bodies
class Cond:
    """if / conditional expression.  Inside the body of a symbolic loop, where the outcome may differ between iterations,
    both branches are executed (each under its condition) and their results are merged."""

    def __init__(self, test, names):
        c = cx()
        self.names = names
        self.i = None
        self.plain = True
        if not c.scopes or isinstance(test, (bool, str, type(None))) or not (is_num(test) or isinstance(test, Arr)):
            self.val = bool(test)
        else:
            t = test
            if isinstance(t, Arr) and not all(d is ONE for d in t._shape):
                self.val = bool(t)
            else:
                b = sym.simp(sym.truth(t))
                if c.entails(b):
                    self.val = True
                elif c.entails(not_(b)):
                    self.val = False
                else:
                    self.plain, self.cond = False, b
        self.run_a = self.val if self.plain else True
        self.run_b = not self.val if self.plain else True
        self.asm = None

    def _start(self, cond):
        from .ctx import Assume
        c = cx()
        self.olds = []
        self.seen = set()
        self.start_oid = c.noid + 1
        self.nev = (len(c.draws), len(c.events))
        self.asm = Assume(c, [cond])
        self.asm.__enter__()
        c.loops.append(self)

    def _stop(self):
        """leave a branch: its writes, undone"""
        c = cx()
        if self in c.loops:
            c.loops.remove(self)
        if self.asm is not None:
            self.asm.__exit__()
            self.asm = None
        if self.nev != (len(c.draws), len(c.events)):
            raise Unsupported("random draw or evaluation in a branch taken in some iterations only")
        new = []
        for kind, o, name, old in self.olds:
            if kind == "attr":
                new.append((kind, o, name, old, o.__dict__.get(name, UNDEF)))
                if old is UNDEF:
                    object.__delattr__(o, name)
                else:
                    object.__setattr__(o, name, old)
            else:
                new.append((kind, o, name, old, Arr(o._shape, o.getter(), o.kind)))
                o._fn, o._memo = old
        return new

    def note(self, kind, o, name=None):
        oid = getattr(o, "_vf_oid", None) if kind == "attr" else o.oid
        if oid is None or (kind, id(o), name) in self.seen:
            return
        if oid >= self.start_oid:
            own = cx().owner.get(oid)
            while own is not None:
                if own[0].oid < self.start_oid:
                    raise Unsupported("list element first used in a branch taken in some iterations only")
                own = cx().owner.get(own[0].oid)
            return
        if kind == "list":
            raise Unsupported("list changed in a branch taken in some iterations only")
        self.seen.add((kind, id(o), name))
        self.olds.append((kind, o, name, o.__dict__.get(name, UNDEF) if kind == "attr" else (o._fn, o._memo)))

    def note_read(self, st, j):
        pass

    def note_store(self, st):
        if st.oid < self.start_oid:
            raise Unsupported("list elements updated in a branch taken in some iterations only")

    note_arr = Loop.note_arr
    note_attr = Loop.note_attr
    note_list = Loop.note_list

    def enter(self, vals):
        if self.plain:
            return vals
        self.before = vals
        self._start(self.cond)
        return vals

    def mid(self, vals):
        if self.plain:
            return vals
        self.av, self.aw = vals, self._stop()
        self._start(not_(self.cond))
        return self.before

    def end(self, vals):
        if self.plain:
            return vals
        bw = self._stop()
        locs = {}
        for k, ws in ((0, self.aw), (1, bw)):
            for kind, o, name, old, new in ws:
                locs.setdefault((kind, id(o), name), [o, old, None, None])[2 + k] = new
        for (kind, _, name), (o, old, a, b) in locs.items():
            if kind == "attr":
                v = self.merge(old if a is None and (kind, id(o), name) not in [(x[0], id(x[1]), x[2]) for x in self.aw] else a,
                               old if b is None and (kind, id(o), name) not in [(x[0], id(x[1]), x[2]) for x in bw] else b)
                cx().journal_attr(o, name)
                object.__setattr__(o, name, v)
            else:
                o0 = Arr(o._shape, o.getter(), o.kind)
                v = self.merge(o0 if a is None else a, o0 if b is None else b)
                cx().journal_arr(o)
                o._fn, o._memo = v.getter(), {}
        return tuple(self.merge(a, b) for a, b in zip(self.av, vals))

    def abort(self):
        if self.plain:
            return
        c = cx()
        if self in c.loops:
            c.loops.remove(self)
        if self.asm is not None:
            self.asm.__exit__()
            self.asm = None
        import sys
        e = sys.exc_info()[1]
        if isinstance(e, Exception) and not isinstance(e, (Retry, Unsupported, PathEnd)):
            raise Unsupported("exception in a branch taken in some iterations only: %r" % e)

    def merge(self, a, b):
        if a is b:
            return a
        if isinstance(a, _Undef) or isinstance(b, _Undef):
            return UNDEF
        if is_num(a) and is_num(b):
            return out(s_ite(self.cond, lift(a), lift(b)))
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a._shape) == len(b._shape):
            sa, sb = a._shape, b._shape
            if all(x is y for x, y in zip(sa, sb)):
                ga, gb, cond = a.getter(), b.getter(), self.cond
                return Arr(sa, lambda *i: s_ite(cond, ga(*i), gb(*i)), a.kind if a.kind == b.kind else "f")
            if self._covers(a, b, not_(self.cond)):
                return a
            if self._covers(b, a, self.cond):
                return b
        return UNDEF

    def _covers(self, a, b, cond):
        """is a equal to b whenever cond holds?"""
        from .ctx import Assume
        from .vlist import _scopes
        c = cx()
        with Assume(c, [cond]):
            if not all(x is y or c.entails(eq(x, y)) for x, y in zip(a._shape, b._shape)):
                return False
            ix = [T.fresh("ix", "I") for _ in a._shape]
            with _scopes(ix, b._shape):
                x, y = a.get(tuple(ix)), b.get(tuple(ix))
                return _same(x, y) or (x.clean() and y.clean() and c.entails(eq(numt(x), numt(y))))


def begin_if(test, names):
    return Cond(test, names)


def if_exp(test, fa, fb):
    C = Cond(test, ("r",))
    if C.plain:
        return fa() if C.val else fb()
    try:
        C.enter((UNDEF,))
        a = fa()
        C.mid((a,))
        b = fb()
    except BaseException:
        C.abort()
        raise
    r = C.end((b,))[0]
    if r is UNDEF:
        raise Unsupported("results of a conditional expression which cannot be merged")
    return r
