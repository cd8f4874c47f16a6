"""Path conditions, obligations and the back end (z3) that discharges them."""
import os
import time
from fractions import Fraction
import z3
z3.z3.Z3_DEBUG = False
z3.z3core.Elementaries.Check = lambda self, ctx: None
from . import terms as T
from .terms import TRUE, FALSE, ZERO, ONE, const, add, sub, mul, neg, lt, le, eq, and_, or_, not_, implies


class Unsupported(Exception):
    """The generator cannot translate a construct."""


class PathEnd(Exception):
    """The current path is infeasible or finished."""


class Budget(Exception):
    pass


STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "max_query_s": 0.0}
DEBUG = bool(os.environ.get("VF_DEBUG"))
RLIMIT_FAST = 400000
RLIMIT = 30000000
RLIMIT_MID = 4000000
TIMEOUT_MS = 60000
NEST = 0


class Z3Tr:
    """Translation of terms to z3 with axiom instantiation."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.apps = {}       # name -> list of app terms
        self.aggs = []
        self.pows = []       # (base, exp, z3)
        self.seen_app = set()
        self.new = []        # freshly seen terms needing axioms
        self.idx = {}        # index terms id -> term
        self.gen = {}        # generation of index terms and aggregates: how many instantiations deep they appeared
        self.cur = 0
        self.funcs = {}

    def num(self, t):
        """z3 real/int expression"""
        return self.tr(t)

    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if z3.is_int(e) else e

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self._tr(t)
        return r

    def addidx(self, t):
        if t.op == "sym" and (t.args[0].startswith("dist_") or t.args[0] in self.ctx.dimnames):
            return
        if t.id not in self.idx:
            self.idx[t.id] = t
            self.gen[t.id] = self.cur

    def func(self, name, args, sort):
        key = (name, tuple(a.sort for a in args), sort)
        f = self.funcs.get(key)
        if f is None:
            zs = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
            nm = "%s/%d%s" % (name, len(args), "".join(a.sort for a in args))
            f = self.funcs[key] = z3.Function(nm, *([zs[a.sort] for a in args] + [zs[sort]]))
        return f

    def _tr(self, t):
        op = t.op
        if op == "sym":
            nm = t.args[0]
            if t.sort == "I":
                self.addidx(t)
            return z3.Int(nm) if t.sort == "I" else z3.Real(nm) if t.sort == "R" else z3.Bool(nm)
        if op == "const":
            v = t.args[0]
            return z3.IntVal(int(v)) if t.sort == "I" else z3.RealVal(str(v))
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "poly":
            parts = []
            isint = t.sort == "I"
            for m, c in t.args:
                fs = []
                conds = []
                for a, e in m:
                    if a.op == "iv":
                        conds.append(self.tr(a.args[0]))
                        continue
                    fs.append(self.powq(a, e, isint))
                cc = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
                if not fs:
                    v = cc
                else:
                    v = fs[0]
                    for f in fs[1:]:
                        v = v * f
                    if c != 1:
                        v = cc * v
                if conds:
                    cnd = conds[0] if len(conds) == 1 else z3.And(*conds)
                    v = z3.If(cnd, v, z3.IntVal(0) if isint else z3.RealVal(0))
                parts.append(v)
            r = parts[0]
            for q in parts[1:]:
                r = r + q
            return r
        if op == "iv":
            return z3.If(self.tr(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == "not":
            return z3.Not(self.tr(t.args[0]))
        if op == "and":
            return z3.And(*[self.tr(a) for a in t.args])
        if op == "lt0":
            return self.tr(t.args[0]) < 0
        if op == "eq0":
            return self.tr(t.args[0]) == 0
        if op == "app":
            name = t.args[0]
            args = t.args[1:]
            if t.id not in self.seen_app:
                self.seen_app.add(t.id)
                self.apps.setdefault(name, []).append(t)
                self.new.append(t)
            if name == "idiv":
                a, b = self.tr(args[0]), self.tr(args[1])
                return a / b
            if name == "floor":
                return z3.ToInt(self.real(args[0]))
            for a in args:
                if a.sort == "I" and name not in ("exp", "log", "pow"):
                    self.addidx(a)
            zargs = [self.real(a) if name in ("exp", "log") or name.startswith("dens_fn_") else self.tr(a) for a in args]
            if name in ("exp", "log"):
                f = self.funcs.get(name)
                if f is None:
                    f = self.funcs[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
                return f(*zargs)
            return self.func(name, args, t.sort)(*zargs)
        if op == "agg":
            z = {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[t.sort]("agg%d_%s" % (t.id, t.args[0]))
            self.aggs.append(t)
            self.gen[t.id] = self.cur
            self.new.append(t)
            for x in t.args[4]:
                if x.sort == "I":
                    self.addidx(x)
                self.tr(x)
            return z
        raise RuntimeError(op)

    def powq(self, a, e, isint):
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                base = self.real(a)
            else:
                base = self.tr(a) if isint else self.real(a)
            r = base
            for _ in range(abs(n) - 1):
                r = r * base
            if n < 0:
                if a.op == "agg" or True:
                    # reciprocal as its own symbol: easier for the solver than division
                    key = ("inv", a.id, abs(n))
                    if key not in self.memo:
                        v = z3.Real("inv_%d_%d" % (a.id, abs(n)))
                        self.memo[key] = v
                        self.pows.append(("inv", a, abs(n), v, r))
                        self.new.append(None)
                    return self.memo[key]
            return r
        key = ("pow", a.id, e)
        if key not in self.memo:
            v = z3.Real("root_%d_%s" % (a.id, str(e).replace("/", "_")))
            self.memo[key] = v
            self.real(a)
            self.pows.append(("root", a, e, v, None))
            self.new.append(None)
        return self.memo[key]


def _int_skeleton(t, memo):
    """digest with Int-sorted leaves abstracted; used to pair aggregates for congruence"""
    k = t.id
    r = memo.get(k)
    if r is not None:
        return r
    if t.sort == "I" and t.op != "agg":
        r = "*"
    elif t.op == "poly":
        r = "p" + str(sorted({str((sorted((_int_skeleton(a, memo), str(e)) for a, e in m if a.op != "iv"), str(c))) for m, c in t.args}))
    elif t.op == "app":
        r = "a" + t.args[0] + str([_int_skeleton(a, memo) for a in t.args[1:]])
    elif t.op == "agg":
        r = "g" + t.args[0] + str(len(t.args[1])) + _int_skeleton(t.args[3], memo)
    elif t.op == "sym":
        r = t.args[0]
    elif t.op == "and":
        r = "&" + str(sorted(_int_skeleton(a, memo) for a in t.args))
    else:
        r = t.op + str([_int_skeleton(a, memo) if isinstance(a, T.Term) else str(a) for a in t.args])
    if len(r) > 64:
        r = T._digest_of(r)
    memo[k] = r
    return r


def touched(c, oid):
    """an object is being written: when it is part of a list's element, reads of that element see it from now on"""
    o = c.owner.get(oid)
    while o is not None:
        st, j, root = o
        if not any(r is root for _, r in st.dirty):
            st.dirty.append((j, root))
        o = c.owner.get(st.oid)


class Ctx:
    cur = None

    solving = 0

    def __init__(self, job=None):
        self.job = job
        self.reset_path([])
        self.pending = []

    # ------------------------------------------------------------ path handling
    def reset_path(self, trace):
        T.POS_NAMES.clear()
        T.reset_caches()
        T.reset_fresh()
        self.path = []            # list of Bool terms
        self.pathset = set()
        self.trace = list(trace)
        self.pos = 0
        self.uf_facts = {}        # app name -> list of fn(args)->Bool
        from . import sym
        self.dimnames = set()
        self.agg_facts = {"sel": [sym.sel_facts], "rank": [sym.rank_facts]}   # agg name -> list of fn(term)->[Bool]
        sym.EPOCH[0] += 1
        self.noid = 0
        self.objs = {}
        self.owner = {}         # objects that are part of a list's element: oid -> (store, index, element)
        self.loops = []           # active symbolic loops, innermost last
        self.draws = []           # recorded random draws
        self.events = []          # ghost trace
        self.clock = None
        self.ghost = {}
        self.global_facts = []
        self.ent_cache = {}
        self.ent_alpha = {}
        self.decisions = set()
        self.proving = 0
        self.notes = []
        self.nbranch = 0
        self.scopes = 0
        self.scope_stack = []
        Ctx.cur = self
        T.POS_HOOK[0] = self._pos
        T.COND_HOOK[0] = self.simp
        T.SIZE_HOOK[0] = self.nonempty
        T.SCOPE_HOOK[0] = lambda k, n: Scope(self, k, n)

    def new_oid(self, obj):
        self.noid += 1
        self.objs[self.noid] = obj
        return self.noid

    def elem_read(self, st, j):
        for l in self.loops:
            l.note_read(st, j)

    def journal_arr(self, a):
        touched(self, a.oid)
        for l in self.loops:
            l.note_arr(a)

    def journal_attr(self, o, name):
        touched(self, getattr(o, "_vf_oid", None))
        for l in self.loops:
            l.note_attr(o, name)

    def journal_list(self, o):
        touched(self, o.oid)
        for l in self.loops:
            l.note_list(o)

    def _pos(self, a):
        if T.is_pos_struct(a, True):
            return True
        return self.entails(lt(ZERO, a))

    def nonempty(self, n):
        """is the dimension n at least one on this path?"""
        return le(T.ONE, n).id in self.pathset

    def simp(self, c):
        """Simplify a condition using the path."""
        if c is TRUE or c is FALSE:
            return c
        if c.op in ("lt0", "eq0") and T.is_pos_struct(c.args[0], True):
            return FALSE
        if c.op == "lt0" and T.is_pos_struct(T.neg(c.args[0]), True):
            return TRUE
        if c.op == "and":
            return and_(*[self.simp(x) for x in c.args])
        if self.entails(c):
            return TRUE
        if self.entails(not_(c)):
            return FALSE
        return c

    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise PathEnd()
        if c.op == "and":
            for x in c.args:
                self.assume(x)
            return
        if c.id in self.pathset:
            return
        self.path.append(c)
        self.pathset.add(c.id)
        self.ent_cache = {k: v for k, v in self.ent_cache.items() if v}
        if c.op == "not" and c.args[0].op == "agg" and c.args[0].args[0] == "all" and not self.scopes:
            # name a witness
            _, ns, syms, body, _ = c.args[0].args
            ren = {k: T.sym("wit_%d_%d" % (c.args[0].id, i), "I") for i, k in enumerate(syms)}
            for h in [x for n, k in zip(ns, syms) for x in (le(ZERO, ren[k]), lt(ren[k], n))] + [not_(T.subst(body, ren))]:
                if h is FALSE:
                    raise PathEnd()
                self.assume(h)

    def fact(self, c):
        self.assume(c)

    def branch(self, c, why=""):
        """Decide a condition on this path, forking when both outcomes are possible."""
        if isinstance(c, bool):
            return c
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.scopes:
            if self.entails(c):
                return True
            if self.entails(not_(c)):
                return False
            raise Unsupported("branch on a symbolic condition inside an element definition: %s" % T.show(c)[:200])
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            if d[1]:
                self.decided(c if d[0] else not_(c))
            return d[0]
        yes = not self.refuted(c)
        no = not self.refuted(not_(c))
        if not yes and not no:
            raise PathEnd()
        if yes and no:
            self.job.fork(self.trace[:self.pos] + [(False, True)])
            d = (True, True)
            self.nbranch += 1
        else:
            d = (yes, False)
        self.trace = self.trace[:self.pos] + [d]
        self.pos += 1
        if d[1]:
            self.decided(c)
        return d[0]

    def decided(self, c):
        self.decisions.add(c.id)
        self.assume(c)

    def choose(self, options, why=""):
        """Non-deterministic choice among n options (all explored)."""
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
            self.pos += 1
            return d
        for o in reversed(options[1:]):
            self.job.fork(self.trace[:self.pos] + [o])
        self.trace = self.trace[:self.pos] + [options[0]]
        self.pos += 1
        return options[0]

    # ------------------------------------------------------------ queries
    def refuted(self, c):
        """True if path & c is known unsatisfiable."""
        return self.entails(not_(c))

    def entails(self, c, fast=True):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.id in self.pathset:
            return True
        if c.op == "and":
            return all(self.entails(x, fast) for x in c.args)
        r = self.ent_cache.get(c.id)
        if r is not None:
            return r
        n = not_(c)
        if n.id in self.pathset:
            return False
        if self.solving > NEST:
            return False        # no queries inside queries
        key = self.alpha_key(c)
        if key is not None and key in self.ent_alpha:
            r = self.ent_alpha[key]
        else:
            st, _ = self.solve(c, fast=fast)
            r = st == "proved"
            if key is not None:
                self.ent_alpha[key] = r
        self.ent_cache[c.id] = r
        if r and self.scope_stack:
            self.scope_stack[-1].newpos.append(c)
        return r

    def alpha_key(self, c):
        """the query up to the names of the indices of the open element definitions"""
        if not self.scope_stack:
            return None
        env = {}
        for j, sc in enumerate(self.scope_stack):
            if sc.k in c.fs:
                env[sc.k] = -1000 - j
        if not env:
            return None
        loc = {sc.k: -1000 - j for j, sc in enumerate(self.scope_stack)}
        hyp = tuple(sorted(T._dig(f, loc) if f.fs & loc.keys() else str(f.id) for f in self.path))
        return T._dig(c, env), hyp

    def prove(self, c):
        """Proof attempt: cheap queries and tactics first, then full strength. Returns ('proved'|'refuted'|'unknown', model)"""
        if self.proving:
            return self._prove(c)
        try:
            self.proving = 1
            r = self._prove(c)
            if r[0] != "proved":
                self.proving = 2
                r = self._prove(c)
        finally:
            self.proving = 0
        return r

    def _prove(self, c):
        if c is TRUE:
            return "proved", None
        if c.op == "and":
            worst = ("proved", None)
            for x in c.args:
                r = self.prove(x)
                if r[0] == "refuted":
                    return r
                if r[0] != "proved":
                    worst = r
            return worst
        if c.id in self.pathset:
            return "proved", None
        if c.op == "agg" and c.args[0] == "all":
            _, ns, syms, body, _ = c.args
            ren = {s: T.fresh("sk", "I") for s in syms}
            hyp = [x for n, s in zip(ns, syms) for x in (le(ZERO, ren[s]), lt(ren[s], n))]
            with Assume(self, hyp):
                return self.prove(T.subst(body, ren))
        if c.op == "not" and c.args[0].op == "and":
            # disjunction: assume the negation of all but one disjunct
            ds = [not_(x) for x in c.args[0].args]
            isall = lambda d: d.op == "agg" and d.args[0] == "all"
            alls = [d for d in ds if isall(d)] + [d for d in ds if d.op == "and" and any(isall(x) for x in d.args)]
            first = None
            for g in alls:
                with Assume(self, [not_(d) for d in ds if d is not g]):
                    r = self.prove(g)
                if r[0] == "proved":
                    return r
                first = first or r
            if first:
                return first
        r = self.solve(c, fast=False)
        if r[0] == "proved":
            return r
        r2 = self._tactics(c)
        if r2:
            return "proved", None
        return r

    def _tactics(self, c):
        # a = b with matching aggregates: clear denominators and merge sums
        if c.op == "eq0":
            p = c.args[0]
            q = clear_denominators(self, p)
            if q is not None and q is not p:
                if q is ZERO:
                    return True
                if self.solve(T.eq0(q), fast=False)[0] == "proved":
                    return True
                p = q
            if merge_sums(self, p):
                return True
        # case split on the conditions inside
        conds = []
        for t in walk(c):
            if t.op == "iv" and t.args[0] not in conds:
                conds.append(t.args[0])
        if 0 < len(conds) <= 4:
            ok = True
            for val in (True, False):
                k = conds[0]
                with Assume(self, [k if val else not_(k)]) as a:
                    if a.dead:
                        continue
                    c2 = assign_cond(c, k, val)
                    if self.prove(c2)[0] != "proved":
                        ok = False
                        break
            return ok
        return False

    def solve(self, goal, fast=True, extra=()):
        """Is path => goal valid?"""
        STATS["queries"] += 1
        t0 = time.time()
        self.solving += 1
        try:
            return self._solve(goal, fast, extra)
        finally:
            self.solving -= 1
            dt = time.time() - t0
            STATS["solver_s"] += dt
            STATS["max_query_s"] = max(STATS["max_query_s"], dt)

    def _solve(self, goal, fast, extra):
        if fast:
            return self._solve1(goal, extra, 1, 2, RLIMIT_FAST)
        r = self._solve1(goal, extra, 1, 3, RLIMIT_MID)
        if r[0] == "proved":
            return r
        if r[0] == "unknown":
            # the outcomes of the tests on this path are often not needed, and hard to reason about
            keep = [f for f in self.path if f.id not in self.decisions]
            if len(keep) < len(self.path):
                save, self.path = self.path, keep
                try:
                    if self._solve1(goal, extra, 1, 3, RLIMIT_MID)[0] == "proved":
                        return "proved", None
                finally:
                    self.path = save
        if self.proving == 1:
            return "unknown", None
        r2 = self._solve1(goal, extra, 2, 5, RLIMIT)
        if r2[0] == "proved":
            return r2
        if r2[0] == "unknown" and r[0] == "refuted":
            return "unknown", r[1]
        return r2

    def _solve1(self, goal, extra, depth, rounds, rlimit):
        tr = Z3Tr(self)
        s = z3.Solver()
        s.set("random_seed", 1)
        pins = pinned(list(self.path) + list(extra))
        if pins:
            for p, c in pins.items():
                s.add(tr.tr(p) == tr.tr(c))
            goal = T.subst(goal, pins)
        g = not_(goal)
        asserted = set()

        def add_fact(f):
            if pins:
                f = T.subst(f, pins)
            if f is TRUE or f.id in asserted:
                return
            asserted.add(f.id)
            s.add(tr.tr(f))

        for f in self.path:
            add_fact(f)
        for f in extra:
            add_fact(f)
        for f in self.global_facts:
            add_fact(f)
        add_fact(g)
        full = self._axioms(tr, s, add_fact, rounds, depth)
        s.set("rlimit", rlimit)
        s.set("timeout", 4000 if rlimit == RLIMIT_FAST else 15000 if rlimit == RLIMIT_MID else TIMEOUT_MS)
        t0 = time.time()
        r = s.check()
        if DEBUG:
            print("solve depth=%d %s %.2fs path=%d aggs=%d apps=%d idx=%d asserts=%d goal=%s" % (
                depth, r, time.time() - t0, len(self.path), len(tr.aggs), len(tr.seen_app), len(tr.idx), len(s.assertions()), T.show(goal)[:150]), flush=True)
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "refuted", (s.model(), tr)
        STATS["unknown"] += 1
        return "unknown", None

    def _axioms(self, tr, s, add_fact, rounds, depth):
        done_app, done_agg, done_pow = set(), set(), 0
        inst = set()
        skc = {}

        def sk(t, tag):
            key = (t.id, tag)
            if key not in skc:
                skc[key] = T.sym("sk_%d_%s" % (t.id, tag), "I")
            return skc[key]

        exps, logs = [], []
        gen = tr.gen

        def level(t, *its):
            g = gen.get(t.id, 0) + sum(gen.get(x.id, 0) for x in its)
            return g

        def depth_of(t, *its):
            return max([gen.get(t.id, 0)] + [gen.get(x.id, 0) for x in its])
        for rnd in range(rounds):
            progress = False
            # function facts
            apps = [(n, list(l)) for n, l in tr.apps.items()]
            for name, lst in apps:
                for t in lst:
                    if t.id in done_app:
                        continue
                    done_app.add(t.id)
                    progress = True
                    tr.cur = 1
                    if name == "exp":
                        u = tr.real(t.args[1])
                        e = tr.tr(t)
                        s.add(e > 0, e >= 1 + u, (u == 0) == (e == 1), (u > 0) == (e > 1))
                        for u2, e2 in exps:
                            s.add((u < u2) == (e < e2))
                        exps.append((u, e))
                    elif name == "log":
                        u = tr.real(t.args[1])
                        e = tr.tr(t)
                        s.add(z3.Implies(u > 0, z3.And(e <= u - 1, (u == 1) == (e == 0), (u > 1) == (e > 0))))
                        for u2, e2 in logs:
                            s.add(z3.Implies(z3.And(u > 0, u2 > 0), (u < u2) == (e < e2)))
                        logs.append((u, e))
                        if t.args[1] is const(2):
                            s.add(e > z3.RealVal("0.6931"), e < z3.RealVal("0.6932"))
                    elif name == "pow":
                        b, n = t.args[1:]
                        s.add(z3.Implies(tr.real(b) > 0, tr.tr(t) > 0))
                        s.add(z3.Implies(tr.real(n) == 0, tr.tr(t) == 1))
                        s.add(z3.Implies(tr.real(n) == 1, tr.tr(t) == tr.real(b)))
                    if name.startswith("dens_"):
                        s.add(tr.tr(t) >= 0)
                    for fn in self.uf_facts.get(name, ()):
                        f = fn(*t.args[1:])
                        if f is not None and f is not TRUE:
                            add_fact(f)
            while done_pow < len(tr.pows):
                kind, a, e, v, r = tr.pows[done_pow]
                done_pow += 1
                progress = True
                if kind == "inv":
                    b = tr.real(a)
                    s.add(z3.Implies(r != 0, v * r == 1))
                    if e % 2:
                        s.add(z3.Implies(b > 0, v > 0), z3.Implies(b < 0, v < 0))
                    else:
                        s.add(z3.Implies(b != 0, v > 0))
                else:
                    b = tr.real(a)
                    s.add(z3.Implies(b > 0, v > 0))
                    if e > 0:
                        s.add(z3.Implies(b == 0, v == 0))
                        s.add(z3.Implies(b >= 0, v >= 0))
                    if e == Fraction(1, 2):
                        s.add(z3.Implies(b >= 0, v * v == b))
                    elif e == Fraction(-1, 2):
                        s.add(z3.Implies(b > 0, v * v * b == 1))
                    s.add(z3.Implies(b == 1, v == 1))
            if T.PI.id in tr.memo and T.PI.id not in asserted_pi(tr):
                p = tr.tr(T.PI)
                s.add(p > z3.RealVal("3.14159265358979"), p < z3.RealVal("3.14159265358980"))
                tr.pi_done = True
            # aggregates
            idx_terms = [t for t in tr.idx.values() if t.sort == "I"]
            for t in list(tr.aggs):
                name, ns, syms, body, extra = t.args
                ga = gen.get(t.id, 0)
                if ga > depth:
                    continue
                first = t.id not in done_agg
                if first:
                    done_agg.add(t.id)
                    progress = True
                tr.cur = ga + 1
                z = tr.tr(t)
                if name == "all":
                    if first:
                        # ground index terms below quantifiers are candidates for instantiation
                        for x in ground_indices(body, syms):
                            if x.id not in tr.idx:
                                tr.cur = ga
                                tr.tr(x)
                                tr.addidx(x)
                        tr.cur = ga + 1
                        ren = {k: sk(t, "a%d" % i) for i, k in enumerate(syms)}
                        rng = and_(*[x for n, k in zip(ns, syms) for x in (le(ZERO, ren[k]), lt(ren[k], n))])
                        s.add(z3.Or(z, z3.And(tr.tr(rng), z3.Not(tr.tr(T.subst(body, ren))))))
                        for k in ren.values():
                            tr.addidx(k)
                    cand = idx_terms if len(syms) == 1 else idx_terms[:12]
                    for it in _tuples(cand, len(syms)):
                        key = (t.id,) + tuple(x.id for x in it)
                        if key in inst or level(t, *it) > depth:
                            continue
                        tr.cur = depth_of(t, *it) + 1
                        inst.add(key)
                        progress = True
                        ren = dict(zip(syms, it))
                        rng = and_(*[x for n, k in zip(ns, syms) for x in (le(ZERO, ren[k]), lt(ren[k], n))])
                        if rng is FALSE:
                            continue
                        s.add(z3.Implies(z3.And(z, tr.tr(rng)), tr.tr(T.subst(body, ren))))
                elif name in ("max", "min", "argmax", "argmin"):
                    n, k = ns[0], syms[0]
                    am = sk(t, "m")
                    val = T.subst(body, {k: am})
                    if first:
                        s.add(z3.Implies(tr.tr(lt(ZERO, n)), z3.And(tr.tr(le(ZERO, am)), tr.tr(lt(am, n)))))
                        if name in ("max", "min"):
                            s.add(z3.Implies(tr.tr(lt(ZERO, n)), z == tr.tr(val)))
                        else:
                            s.add(z3.Implies(tr.tr(lt(ZERO, n)), z == tr.tr(am)))
                        tr.addidx(am)
                    for it in idx_terms:
                        key = (t.id, it.id)
                        if key in inst or level(t, it) > depth:
                            continue
                        tr.cur = depth_of(t, it) + 1
                        inst.add(key)
                        progress = True
                        ren = {k: it}
                        rng = and_(le(ZERO, it), lt(it, n))
                        if rng is FALSE:
                            continue
                        b = T.subst(body, ren)
                        if name in ("max", "argmax"):
                            f = le(b, val)
                            g = lt(b, val)
                        else:
                            f = le(val, b)
                            g = lt(val, b)
                        s.add(z3.Implies(tr.tr(rng), tr.tr(f)))
                        if name.startswith("arg"):
                            s.add(z3.Implies(z3.And(tr.tr(rng), tr.tr(it) < tr.tr(am)), tr.tr(g)))
                elif name == "sum" and first:
                    lo_ = {k: sk(t, "s%d" % i) for i, k in enumerate(syms)}      # where the body is least
                    hi_ = {k: sk(t, "u%d" % i) for i, k in enumerate(syms)}      # where it is greatest
                    ne = z3.Or(*[tr.tr(n) <= 0 for n in ns])
                    for ren, sgn in ((lo_, 1), (hi_, -1)):
                        b1 = T.subst(body, ren)
                        if b1.op == "const" or T.is_pos_struct(b1):
                            v1 = b1.args[0] if b1.op == "const" else 1
                            if v1 * sgn > 0:
                                s.add(z3.Or(ne, z * sgn > 0))
                            elif v1 * sgn == 0:
                                s.add(z * sgn >= 0)
                            continue
                        rng = tr.tr(and_(*[x for n, k in zip(ns, syms) for x in (le(ZERO, ren[k]), lt(ren[k], n))]))
                        w = tr.tr(b1)
                        s.add(z3.Or(z * sgn >= 0, z3.And(rng, w * sgn < 0)))
                        s.add(z3.Or(ne, z * sgn > 0, z3.And(rng, w * sgn <= 0)))
                    s.add(z3.Implies(ne, z == 0))
                    for r_ in (lo_, hi_):
                        for k in r_.values():
                            if k.id in tr.memo:
                                tr.addidx(k)
                elif name == "sum" and not first and len(syms) == 1:
                    n, k = ns[0], syms[0]
                    # if no element is negative, each element is at most the sum
                    b1 = T.subst(body, {k: sk(t, "s0")})
                    hasneg = None
                    for it in idx_terms:
                        key = (t.id, it.id, "le")
                        if key in inst or gen.get(it.id, 0) > 0 or ga > 0:
                            continue
                        inst.add(key)
                        rng = and_(le(ZERO, it), lt(it, n))
                        if rng is FALSE:
                            continue
                        progress = True
                        if hasneg is None:
                            hasneg = z3.And(tr.tr(and_(le(ZERO, sk(t, "s0")), lt(sk(t, "s0"), n))), tr.tr(lt(b1, ZERO)))
                        s.add(z3.Or(hasneg, z3.Not(tr.tr(rng)), tr.tr(T.subst(body, {k: it})) <= z))
                elif name == "prod" and first:
                    k, n = syms[0], ns[0]
                    a = sk(t, "p")
                    rng = and_(le(ZERO, a), lt(a, n))
                    s.add(z3.Or(z3.And(tr.tr(rng), tr.tr(le(T.subst(body, {k: a}), ZERO))), z > 0))
                    b = sk(t, "q")
                    rng = and_(le(ZERO, b), lt(b, n))
                    s.add(z3.Or(z3.And(tr.tr(rng), tr.tr(lt(T.subst(body, {k: b}), ZERO))), z >= 0))
                    c = sk(t, "r")
                    rng = and_(le(ZERO, c), lt(c, n))
                    s.add(z3.Implies(z == 0, z3.And(tr.tr(rng), tr.tr(T.eq0(T.subst(body, {k: c}))))))
                    tr.addidx(a)
                    tr.addidx(b)
                    tr.addidx(c)
                elif name == "prod" and not first:
                    k, n = syms[0], ns[0]
                    for it in idx_terms:
                        key = (t.id, it.id, "z")
                        if key in inst or level(t, it) > depth:
                            continue
                        tr.cur = depth_of(t, it) + 1
                        inst.add(key)
                        rng = and_(le(ZERO, it), lt(it, n))
                        if rng is FALSE:
                            continue
                        progress = True
                        s.add(z3.Implies(z3.And(tr.tr(rng), tr.tr(T.eq0(T.subst(body, {k: it})))), z == 0))
                if first and t.sort != "B" and T.is_nonneg_struct(t):
                    s.add(z >= 0)
                for fn in self.agg_facts.get(name, ()):
                    if first:
                        for f in fn(t):
                            add_fact(f)
            # congruence between aggregates of the same shape
            memo = {}
            groups = {}
            for t in list(tr.aggs):
                if t.args[0] in ("all",):
                    key = ("all", len(t.args[1]), _int_skeleton(t.args[3], memo))
                else:
                    key = (t.args[0], len(t.args[1]), len(t.args[4]), t.sort,
                           _int_skeleton(t.args[3], memo) if t.args[0] != "dens" else "")
                groups.setdefault(key, []).append(t)
            for g in groups.values():
                for i in range(len(g)):
                    for j in range(i):
                        a, b = g[i], g[j]
                        key = ("cong", a.id, b.id)
                        if a is b or key in inst or level(a, b) > depth:
                            continue
                        tr.cur = depth_of(a, b) + 1
                        inst.add(key)
                        progress = True
                        self._congruence(tr, s, a, b)
            if not progress:
                break

    def _congruence(self, tr, s, a, b):
        na, nsa, sya, ba, exa = a.args
        nb, nsb, syb, bb, exb = b.args
        diff = []
        for x, y in zip(nsa, nsb):
            if x is not y:
                diff.append(tr.tr(x) != tr.tr(y))
        for x, y in zip(exa, exb):
            if x is not y:
                diff.append(tr.tr(x) != tr.tr(y))
        sks = [T.sym("cg_%d_%d_%d" % (a.id, b.id, i), "I") for i in range(len(sya))]
        r1, r2 = dict(zip(sya, sks)), dict(zip(syb, sks))
        b1, b2 = T.subst(ba, r1), T.subst(bb, r2)
        if b1 is not b2:
            d = not_(eq(b1, b2)) if b1.sort != "B" else not_(T.iff(b1, b2))
            if d is FALSE:
                pass
            else:
                rng = and_(*[x for n, k in zip(nsa, sks) for x in (le(ZERO, k), lt(k, n))])
                diff.append(z3.And(tr.tr(rng), tr.tr(d)))
                for k in sks:
                    tr.addidx(k)
        e = tr.tr(a) == tr.tr(b)
        s.add(z3.Or(*(diff + [e])) if diff else e)


def ground_indices(body, syms):
    """uninterpreted integer terms below quantifiers that mention no bound variable"""
    bound = set(s.id for s in syms)
    subs, seen, stack = [], set(), [body]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        subs.append(x)
        if x.op == "agg":
            bound.update(s.id for s in x.args[2])
            stack.append(x.args[3])
            stack.extend(x.args[1])
            stack.extend(x.args[4])
        else:
            stack.extend(T.children(x))
    return [x for x in subs if x.op == "app" and x.sort == "I" and not any(y.op == "sym" and y.id in bound for y in walk(x))]


def pinned(facts):
    """dimension symbols that the path makes equal to a small constant"""
    r = {}
    for f in facts:
        if f.op == "eq0":
            d = T.pdict(f.args[0])
            if len(d) == 1 or len(d) == 2 and () in d:
                (m, c), = [(m, c) for m, c in d.items() if m != ()]
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym" and m[0][0].sort == "I":
                    v = -d.get((), 0) / Fraction(c)
                    if v.denominator == 1:
                        r[m[0][0]] = const(int(v))
    return r


def asserted_pi(tr):
    return {T.PI.id} if getattr(tr, "pi_done", False) else ()


def _tuples(cand, n):
    if n == 1:
        return [(c,) for c in cand]
    import itertools
    return list(itertools.product(cand, repeat=n))[:200]


def walk(t, seen=None):
    """all subterms outside binder bodies"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == "agg":
            stack.extend(x.args[1])
            stack.extend(x.args[4])
        else:
            stack.extend(T.children(x))


def assign_cond(t, k, val):
    """Replace the condition k by a truth value everywhere outside binders (sound under that assumption)."""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if x is k:
            r = TRUE if val else FALSE
        elif op in ("sym", "const", "true", "false"):
            r = x
        elif op == "poly":
            parts = []
            for m, c in x.args:
                p = const(c)
                for a, e in m:
                    p = mul(p, T.power(go(a), e))
                parts.append(p)
            r = add(*parts)
        elif op == "app":
            r = T.rebuild_app(x.args[0], [go(a) for a in x.args[1:]], x.sort)
        elif op == "iv":
            r = T.iv(go(x.args[0]))
        elif op == "not":
            r = not_(go(x.args[0]))
        elif op == "and":
            r = and_(*[go(a) for a in x.args])
        elif op == "lt0":
            r = T.lt0(go(x.args[0]))
        elif op == "eq0":
            r = T.eq0(go(x.args[0]))
        elif op == "agg":
            name, ns, syms, body, extra = x.args
            f = T._BUILD.get(name)
            b2 = go(body) if k in _conds_in(body, k) else body
            ns2, ex2 = tuple(go(n) for n in ns), tuple(go(e) for e in extra)
            r = f(ns2, syms, b2, ex2, x.sort) if f else T.agg_raw(name, ns2, syms, b2, ex2, x.sort)
        else:
            raise RuntimeError(op)
        memo[x.id] = r
        return r
    return go(t)


def _conds_in(body, k):
    # a condition without bound symbols may occur inside a binder body
    seen = set()
    stack = [body]
    while stack:
        x = stack.pop()
        if x is k:
            return (k,)
        if x.id in seen:
            continue
        seen.add(x.id)
        stack.extend(T.children(x))
    return ()


def clear_denominators(ctx, p):
    d = T.pdict(p)
    den = {}
    for m, c in d.items():
        for a, e in m:
            if e < 0 and e.denominator == 1:
                den[a] = min(den.get(a, 0), e)
    if not den:
        return None
    f = ONE
    for a, e in den.items():
        if not (T.is_pos_struct(a) or ctx.entails(not_(T.eq0(a)))):
            return None
        f = mul(f, T.power(a, -e))
    return mul(p, f)


def merge_sums(ctx, p):
    """prove p = 0 by grouping  coef*sum(n, f)  terms with the same range and proving the merged body zero."""
    groups = {}
    rest = ZERO
    for m, c in T.pdict(p).items():
        sums = [a for a, e in m if a.op == "agg" and a.args[0] == "sum" and e == 1]
        if len(sums) != 1:
            rest = add(rest, T._from_pdict({m: c}))
            continue
        a = sums[0]
        other = T._from_pdict({tuple(x for x in m if x[0] is not a): c})
        key = tuple(n.id for n in a.args[1])
        groups.setdefault(key, []).append((other, a))
    if not groups or not (rest is ZERO or ctx.solve(T.eq0(rest), fast=False)[0] == "proved"):
        return False
    for key, lst in groups.items():
        ns = lst[0][1].args[1]
        sks = [T.fresh("ms", "I") for _ in ns]
        body = ZERO
        for other, a in lst:
            body = add(body, mul(other, T.subst(a.args[3], dict(zip(a.args[2], sks)))))
        hyp = [x for n, k in zip(ns, sks) for x in (le(ZERO, k), lt(k, n))]
        with Assume(ctx, hyp):
            if ctx.prove(T.eq0(body))[0] != "proved":
                return False
    return True


class Assume:
    """Temporarily extend the path condition."""

    def __init__(self, ctx, hyps):
        self.ctx, self.hyps, self.dead = ctx, hyps, False

    def __enter__(self):
        c = self.ctx
        self.saved = (list(c.path), set(c.pathset), dict(c.ent_cache))
        from . import sym
        sym.EPOCH[0] += 1
        try:
            for h in self.hyps:
                c.assume(h)
        except PathEnd:
            self.dead = True
            c.path.append(FALSE)
        return self

    def __exit__(self, *a):
        c = self.ctx
        c.path, c.pathset, c.ent_cache = self.saved
        from . import sym
        sym.EPOCH[0] += 1
        T.reset_caches()
        return False


class Scope:
    """0 <= k < n holds while an element body is being built."""

    def __init__(self, ctx, k, n):
        self.ctx, self.k, self.n = ctx, k, n

    def __enter__(self):
        c = self.ctx
        c.scopes += 1
        self.saved = (len(c.path), set(c.pathset))
        self.newpos = []
        c.scope_stack.append(self)
        for h in (le(ZERO, self.k), lt(self.k, self.n)):
            if h is not TRUE and h is not FALSE and h.id not in c.pathset:
                c.path.append(h)
                c.pathset.add(h.id)

    def __exit__(self, *a):
        c = self.ctx
        c.scopes -= 1
        del c.path[self.saved[0]:]
        c.pathset = self.saved[1]
        # what was concluded inside holds under the index range only: drop it unless it mentions the index
        c.scope_stack.pop()
        drop = [t for t in self.newpos if self.k not in t.fs]
        if drop:
            for t in drop:
                c.ent_cache.pop(t.id, None)
            T.reset_caches()
        if c.scope_stack:
            c.scope_stack[-1].newpos.extend(self.newpos)
        return False


class Job:
    """Explores all paths of one harness function and collects obligations."""

    def __init__(self, max_paths=400, deadline=None):
        self.pending = []
        self.max_paths = max_paths
        self.deadline = deadline
        self.loopinfo = {}
        self.lastloop = {}

    def fork(self, trace):
        self.pending.append(trace)

    def explore(self, fn):
        self.pending = [[]]
        n = 0
        ctx = Ctx(self)
        while self.pending:
            tr = self.pending.pop()
            n += 1
            if n > self.max_paths:
                raise Budget("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget exhausted")
            from .loops import Retry
            for attempt in range(400):
                mark = len(self.pending)
                ctx.reset_path(tr)
                try:
                    fn(ctx)
                except PathEnd:
                    pass
                except Retry:
                    del self.pending[mark:]
                    continue
                break
            else:
                raise Unsupported("loop analysis does not settle")
        return n
