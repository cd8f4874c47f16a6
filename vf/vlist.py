"""Lists whose length may be symbolic, and substitution of an index symbol through an object graph."""
import types
from . import terms as T
from .terms import TRUE, FALSE, ZERO, ONE, add, sub, lt, le, eq, and_
from .ctx import Ctx, Unsupported, touched
from .sym import S, Arr, lift, out, cx, is_num


class Const:
    """a single object, as a segment's content"""

    def __init__(self, x):
        self.x = x

    def __call__(self, i):
        return self.x


class Store:
    """The elements of a segment: created on demand, each the same object whenever asked for, shared by the lists that share the segment."""

    def __init__(self, n, base, vl=None):
        self.n, self.base, self.vl = n, base, vl
        self.memo = {}
        self.dirty = []
        c = cx()
        self.oid = c.new_oid(self) if c is not None else 0

    def __call__(self, j):
        c = cx()
        c.elem_read(self, j)
        for dj, do in reversed(self.dirty):
            if dj is j or c.branch(eq(dj, j)):
                return do
        r = self.memo.get(j.id)
        if r is None:
            a = c.noid
            r = self.memo[j.id] = self.base(j)
            for oid in range(a + 1, c.noid + 1):
                c.owner.setdefault(oid, (self, j, r))
        return r

    def set(self, base):
        self.base, self.memo, self.dirty = base, {}, []


class VList(list):
    """A Python list; with `segs` set, a sequence of segments (length term, index term -> element)."""

    def __init__(self, items=()):
        super().__init__(items)
        self.segs = None
        c = cx()
        self.oid = c.new_oid(self) if c is not None else 0

    @staticmethod
    def of(n, fn):
        n = lift(n).t
        if n.op == "const":
            return VList([fn(T.const(i)) for i in range(max(0, int(n.args[0])))])
        r = VList()
        r.segs = [(n, fn if isinstance(fn, (Store, Const)) else Store(n, fn, r))]
        return r

    @staticmethod
    def repeat(x, n):
        n = lift(n).t
        return VList.of(S(n), (lambda i: x) if n.op == "const" else Const(x))

    def to_segs(self):
        if self.segs is None:
            self.segs = [(ONE, Const(x)) for x in list.__iter__(self)]
            list.clear(self)

    def state(self):
        return (list(list.__iter__(self)), None if self.segs is None else list(self.segs))

    def restore(self, st):
        list.clear(self)
        list.extend(self, st[0])
        self.segs = None if st[1] is None else list(st[1])

    def adopt(self, new):
        """take over the contents of a list that goes away"""
        self.restore(new.state())
        for _, fn in self.segs or ():
            if isinstance(fn, Store) and fn.vl is new:
                fn.vl = self

    def nterm(self):
        if self.segs is None:
            return T.const(list.__len__(self))
        r = ZERO
        for n, _ in self.segs:
            r = add(r, n)
        return r

    def vlen(self):
        return out(S(self.nterm()))

    def __len__(self):
        if self.segs is None:
            return list.__len__(self)
        n = self.vlen()
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a list of symbolic length through the C interface")

    def __bool__(self):
        if self.segs is None:
            return list.__len__(self) > 0
        return cx().branch(lt(ZERO, self.nterm()))

    def concrete(self):
        if self.segs is None:
            return True
        n = self.vlen()
        if isinstance(n, int):
            items = [self.at(T.const(i)) for i in range(n)]
            self.segs = None
            list.extend(self, items)
            return True
        return False

    def at(self, i):
        """element at an index term known to be in range"""
        if self.segs is None:
            if i.op == "const":
                return list.__getitem__(self, int(i.args[0]))
            items = list(list.__iter__(self))
            if all(is_num(x) for x in items):
                from .sym import s_ite
                r = lift(items[-1])
                for k in range(len(items) - 2, -1, -1):
                    r = s_ite(eq(i, T.const(k)), items[k], r)
                return r
            for k in range(len(items) - 1):
                if cx().branch(eq(i, T.const(k))):
                    return items[k]
            return items[-1]
        off = ZERO
        last = len(self.segs) - 1
        for k, (n, fn) in enumerate(self.segs):
            j = sub(i, off)
            if k == last or cx().branch(lt(j, n)):
                return fn(j)
            off = add(off, n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            if self.concrete():
                def cc(x):
                    return None if x is None else (x if isinstance(x, int) else x.__index__())
                return VList(list.__getitem__(self, slice(cc(k.start), cc(k.stop), cc(k.step))))
            from .sym import slice_bounds
            lo, ln, step = slice_bounds(k, self.nterm())
            if step != 1:
                raise Unsupported("reverse slice of a symbolic list")
            st = self.frozen()
            r = VList()
            r.segs = [(ln, lambda i: st(add(i, lo)))]
            r.concrete()
            return r
        if self.concrete() and isinstance(k, int):
            return list.__getitem__(self, k)
        if isinstance(k, Arr):
            k = lift(k)
        from .sym import int_index
        if not isinstance(k, (int, S)) or (isinstance(k, S) and k.sort != "I"):
            raise TypeError("list indices must be integers or slices")
        return self.at(int_index(k, self.nterm()))

    def frozen(self):
        """the elements the list has now (the same objects)"""
        r = VList()
        r.segs = list(self.segs)
        return r.at

    def __setitem__(self, k, v):
        cx().journal_list(self)
        if self.concrete() and isinstance(k, (int, slice)):
            list.__setitem__(self, k, v)
            return
        from .sym import int_index
        i = int_index(k, self.nterm())
        self.to_segs()
        old = VList()
        old.segs = list(self.segs)
        n = self.nterm()

        def fn(j):
            return v if (j is i or cx().branch(eq(j, i))) else old.at(j)
        self.segs = [(n, fn)]

    def __iter__(self):
        if self.concrete():
            return list.__iter__(self)
        raise Unsupported("iteration over a list of symbolic length")

    def append(self, x):
        cx().journal_list(self)
        if self.segs is None:
            list.append(self, x)
        else:
            self.segs.append((ONE, Const(x)))

    def extend(self, o):
        cx().journal_list(self)
        if isinstance(o, VList) and not o.concrete():
            self.to_segs()
            self.segs.extend(o.segs)
            return
        from . import load
        items = list(load.v_iter(o))
        if self.segs is None:
            list.extend(self, items)
        else:
            self.segs.extend((ONE, Const(x)) for x in items)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def __radd__(self, o):
        r = VList(o)
        r.extend(self)
        return r

    def __mul__(self, n):
        if isinstance(n, S):
            if self.concrete() and list.__len__(self) == 1:
                return VList.repeat(list.__getitem__(self, 0), n)
            raise Unsupported("list repetition")
        return VList(list.__mul__(self, n))

    __rmul__ = __mul__

    def copy(self):
        r = VList()
        r.restore(self.state())
        return r

    def _conc(self, what):
        if not self.concrete():
            raise Unsupported("%s on a list of symbolic length" % what)
        cx().journal_list(self)

    def pop(self, k=-1):
        self._conc("pop")
        return list.pop(self, k)

    def insert(self, k, x):
        self._conc("insert")
        list.insert(self, k, x)

    def remove(self, x):
        self._conc("remove")
        list.remove(self, x)

    def clear(self):
        cx().journal_list(self)
        list.clear(self)
        self.segs = None

    def index(self, x, *a):
        self._conc("index")
        return list.index(self, x, *a)

    def sort(self, **kw):
        self._conc("sort")
        raise Unsupported("sort")

    def reverse(self):
        self._conc("reverse")
        list.reverse(self)

    def __contains__(self, x):
        if not self.concrete():
            raise Unsupported("membership in a list of symbolic length")
        for y in list.__iter__(self):
            if y is x or bool(y == x):
                return True
        return False

    def __eq__(self, o):
        return self is o or (isinstance(o, list) and self.concrete() and (not isinstance(o, VList) or o.concrete()) and
                             list.__len__(self) == len(o) and all(bool(a == b) for a, b in zip(list(self), list(o))))

    def __hash__(self):
        return id(self)


def subst_val(v, m, memo=None):
    """v with the symbols in m replaced, through arrays, lists and objects (objects are copied)."""
    memo = {} if memo is None else memo
    if isinstance(v, S):
        return out(S(T.subst(v.t, m), T.subst(v.nan, m), T.subst(v.pinf, m), T.subst(v.ninf, m)))
    if v is None or isinstance(v, (bool, int, float, str, bytes, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType)):
        return v
    if isinstance(v, T.Term):
        return T.subst(v, m)
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, Arr):
        dims = tuple(T.subst(d, m) for d in v._shape)
        g = v.getter()
        syms = [T.fresh("ix", "I") for _ in dims]
        cell = []

        def fn(*i):
            s = g(*syms)
            mm = dict(m)
            mm.update(zip(syms, i))
            return S(T.subst(s.t, mm), T.subst(s.nan, mm), T.subst(s.pinf, mm), T.subst(s.ninf, mm))
        # unchanged arrays keep their identity
        r = Arr(dims, fn, v.kind)
        s = None
        try:
            with _scopes(syms, v._shape):
                s = g(*syms)
            fs = s.t.fs | s.nan.fs | s.pinf.fs | s.ninf.fs
            for d in v._shape:
                fs |= d.fs
            if not (fs & m.keys()):
                r = v
        except Unsupported:
            raise
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, VList):
        r = VList()
        memo[id(v)] = (r, v)
        if v.segs is None:
            list.extend(r, [subst_val(x, m, memo) for x in list.__iter__(v)])
        else:
            r.segs = []
            for n, fn in v.segs:
                if isinstance(fn, Const):
                    r.segs.append((T.subst(n, m), Const(subst_val(fn.x, m, memo))))
                    continue
                if isinstance(fn, Store) and fn.dirty:
                    raise Unsupported("list of updated elements inside an element of another list")
                k = T.fresh("ix", "I")
                n2 = T.subst(n, m)
                r.segs.append((n2, Store(n2, (lambda fn, k: lambda j: subst_val(fn(k), {**m, k: j}))(fn, k), r)))
        return r
    if isinstance(v, dict):
        r = {}
        memo[id(v)] = (r, v)
        for k, x in v.items():
            r[k] = subst_val(x, m, memo)
        return r
    if isinstance(v, (tuple, list)):
        return type(v)(subst_val(x, m, memo) for x in v)
    if isinstance(v, types.MethodType):
        s = subst_val(v.__self__, m, memo)
        return types.MethodType(v.__func__, s)
    f = getattr(v, "vf_subst", None)
    if f is not None:
        r = f(m, memo)
        memo[id(v)] = (r, v)
        return r
    if hasattr(v, "__dict__"):
        r = object.__new__(type(v))
        memo[id(v)] = (r, v)
        for k, x in v.__dict__.items():
            object.__setattr__(r, k, cx().new_oid(r) if k == "_vf_oid" else subst_val(x, m, memo))
        return r
    return v


class _scopes:
    def __init__(self, syms, dims):
        self.s = [T.scope(k, n) for k, n in zip(syms, dims)]

    def __enter__(self):
        for s in self.s:
            s.__enter__()

    def __exit__(self, *a):
        for s in reversed(self.s):
            s.__exit__(*a)
        return False
