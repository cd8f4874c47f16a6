"""The Metropolis-Hastings chain and layered AIS's adaptation under contract."""
from contracts import samplers as Z


def mh(v, positive=True):
    d, lo, hi, p = Z.base(v)
    q, t = v.dist("q", d, positive=True), v.dist("t", d, positive=positive)
    p.update(n_steps=v.dim("steps"), n_burnin=v.dim("burn"), proposal_d=q, proposal_sigma=v.real("psig", pos=True), kde_bw=v.real("bw", pos=True), n_samples_kde=v.dim("kde"))
    return v.cls(Z.SM + "CMetropolisHastings")(p), q, t, d, lo, hi, p


def inside(v, x, lo, hi, d):
    return v.forall(d, lambda j: v.And(v.le(v.at(lo, j), v.at(x, 0, j)), v.le(v.at(x, 0, j), v.at(hi, j))))


def same(v, a, b, d):
    return v.forall(d, lambda j: v.eq(v.at(a, 0, j), v.at(b, 0, j)))


def point(v, name, lo, hi, d):
    """any point of the space, as a batch of one"""
    x = v.fresh_reals(name, (1, d))
    v.assume(inside(v, x, lo, hi, d))
    return x


def move(v, rel=None, done=None):
    """one move of the chain, until it accepts or runs out of time"""
    np = v.np
    m, q, t, d, lo, hi, p = mh(v)
    m.target_d = t
    x = point(v, "x", lo, hi, d)
    x0 = v.copy(x)
    K = v.fresh_int("tries")
    pts = v.fresh_reals("tr", (K, d))
    m.trajectory_samples, m.trajectory_types = v.list(K, lambda i: v.row(pts, i)), v.list(K, lambda i: 0)
    cur = {}
    c = dict(v=v, m=m, q=q, t=t, d=d, lo=lo, hi=hi, p=p, x=x0)

    def inv(env):
        cur.update(env)
        y = v.local(env, "x_new")
        return [("the proposed point is inside the space", inside(v, y, lo, hi, d)),
                ("moves start from the same state", same(v, x, x0, d)),
                ("an accepted move is on the record", v.Implies(v.local(env, "accepted"), v.le(1, v.len(m.trajectory_types))))]

    def snap(env):
        return dict(pi=m._num_pi_evals, q=m._num_q_samples, evals=t.evals, draws=len(v.draws()), events=len(v.events("prob")))

    def step(pre, env):
        dr = v.draws()[pre["draws"]:]
        prop, uni = [z for z in dr if z.kind.startswith("sample_")], [z for z in dr if z.kind == "uniform"]
        v.ensure("one point is proposed, with one fresh uniform draw", len(prop) == 1 and len(uni) == 1 and len(dr) == 2)
        return rel(c, pre, dict(env, prop=prop[0].out, u=uni[0].out, post=snap(env))) if rel else []
    lists = {id(m.trajectory_samples): _grow(v, d), id(m.trajectory_types): _grow(v, None)}
    v.while_inv("moves", inv, step, lists, snap)
    r = m.mcmc_step(x, timeout=v.real("timeout"))
    if done:
        done(c, r, cur)
    v.cover("returned")


def _grow(v, d):
    def f(o):
        n = v.fresh_int("tries")
        if d is None:
            return v.list(n, lambda i: 0)
        pts = v.fresh_reals("tr", (n, d))
        return v.list(n, lambda i: v.row(pts, i))
    return f


# ---------------------------------------------------------------- the calls above a move, against its contract
class Chain:
    pass


def chain(v):
    """a chain in any state, between two moves"""
    c = Chain()
    c.v = v
    c.m, c.q, c.t, c.d, c.lo, c.hi, c.p = mh(v)
    m = c.m
    m.target_d = c.t
    m.current_sample = point(v, "x", c.lo, c.hi, c.d)
    K = v.fresh_int("tries")
    pts = v.fresh_reals("tr", (K, c.d))
    m.trajectory_samples, m.trajectory_types = v.list(K, lambda i: v.row(pts, i)), v.list(K, lambda i: 0)
    c.lists = {id(m.trajectory_samples): _grow(v, c.d), id(m.trajectory_types): _grow(v, None)}
    counted(c)
    return c


def counted(c):
    """the difference between what is counted and what was done, from here on"""
    c.pi0, c.q0 = c.m._num_pi_evals - c.t.evals, c.m._num_q_samples - c.q.drawn


def facts(c, what):
    v, m = c.v, c.m
    r = []
    if what == "inside":
        r += [("the state is a point of the space", v.And(v.eq(v.shape(m.current_sample, 0), 1), v.eq(v.shape(m.current_sample, 1), c.d))),
              ("the state is inside the space", inside(v, m.current_sample, c.lo, c.hi, c.d))]
    if what == "count":
        r += [("target evaluations counted are those made", v.eq(m._num_pi_evals - c.t.evals, c.pi0)),
              ("proposal samples counted are those drawn", v.eq(m._num_q_samples - c.q.drawn, c.q0))]
    return r


def step_stub(c, what):
    v = c.v

    def mcmc_step(self, x, timeout=60):
        if what == "inside":
            v.ensure("a move starts inside the space", inside(v, x, c.lo, c.hi, c.d))
        k = v.fresh_int("tries")
        self._num_q_samples += k
        self._num_pi_evals += 2 * k
        c.t.count(evals=2 * k)
        c.q.count(drawn=k)
        c.moves = getattr(c, "moves", 0) + 1
        return point(v, "moved", c.lo, c.hi, c.d)
    v.stub(v.cls(Z.SM + "metropolis_hastings.CMetropolisHastings"), "mcmc_step", mcmc_step)


def steps(v, what):
    """mcmc(1, n): any number of moves; the sample is the chain's state after them"""
    c = chain(v)
    m = c.m
    v.has_method(m, "mcmc", 2)
    v.has_method(m, "mcmc_step", 1)
    step_stub(c, what)
    n = c.p["n_steps"]
    v.for_inv("moves", lambda env, k: facts(c, what), None, c.lists, over=n)
    r = m.mcmc(1, n, v.real("timeout"))
    for l, f in facts(c, what):
        v.ensure(l, f)
    v.ensure("one sample, the chain's state", v.And(v.eq(v.shape(r, 0), 1), v.eq(v.shape(r, 1), c.d), same(v, r, m.current_sample, c.d)))
    v.cover("moved")


def mcmc_stub(c, what):
    v = c.v

    def mcmc(self, n_samples, n_steps, timeout=60):
        v.ensure("one sample after the configured number of moves", v.And(v.eq(n_samples, 1), v.eq(n_steps, c.p["n_steps"])))
        for l, f in facts(c, what):
            v.ensure("before a sample: " + l, f)
        k = v.fresh_int("tries")
        self._num_q_samples += k
        self._num_pi_evals += 2 * k
        c.t.count(evals=2 * k)
        c.q.count(drawn=k)
        self.current_sample = point(v, "moved", c.lo, c.hi, c.d)
        return self.current_sample
    v.stub(v.cls(Z.SM + "metropolis_hastings.CMetropolisHastings"), "mcmc", mcmc)


def one_sample(v, what):
    """sample(1): the burn-in if it was not done, then one sample"""
    c = chain(v)
    m = c.m
    v.has_method(m, "mcmc", 2)
    v.has_method(m, "mcmc_step", 1)
    m.is_init = v.choose(2) == 0
    step_stub(c, what)
    mcmc_stub(c, what)
    v.for_inv("burn-in", lambda env, k: facts(c, what), None, c.lists, over=c.p["n_burnin"])
    r = m.sample(1, v.real("timeout"))
    for l, f in facts(c, what):
        v.ensure(l, f)
    v.ensure("one sample, the chain's state", v.And(v.eq(v.shape(r, 0), 1), v.eq(v.shape(r, 1), c.d), same(v, r, m.current_sample, c.d)))
    v.cover("sampled")


def request(v, what):
    """importance_sample: samples are added one by one"""
    c = chain(v)
    m, t = c.m, c.t
    v.has_method(m, "sample", 1)
    v.stub(v.cls(Z.SM + "base.CMixtureSamplingMethod"), "_update_model", lambda self: None)
    m.target_d = None if v.choose(2) == 0 else t
    M0 = 0
    if v.choose(2):
        M0 = v.fresh_int("M", 1)
        m.samples = v.fresh_reals("S", (M0, c.d))
        if what == "inside":
            v.assume(_all_inside(c))

    def sample(self, n_samples, timeout=60):
        v.ensure("the target is set", self.target_d is t)
        v.ensure("one sample at a time", v.eq(n_samples, 1))
        k = v.fresh_int("tries")
        self._num_q_samples += k
        self._num_pi_evals += 2 * k
        t.count(evals=2 * k)
        c.q.count(drawn=k)
        self.current_sample = point(v, "moved", c.lo, c.hi, c.d)
        return self.current_sample
    v.stub(v.cls(Z.SM + "metropolis_hastings.CMetropolisHastings"), "sample", sample)
    first = v.copy(m.samples)

    def havoc(_):
        if v.choose(2) == 0:
            return v.np.array([])
        return v.fresh_reals("S", (v.fresh_int("M", 1), c.d))

    def inv(env):
        S = m.samples
        r = [("one row per sample", True if v.len0(S) else v.eq(v.shape(S, 1), c.d))] + facts(c, what)
        if what == "inside":
            r += [("samples are inside the space", _all_inside(c))]
        if what == "keep":
            r += [("earlier samples are still there, first and in order", v.And(v.le(M0, v.len(S)), v.forall(M0, lambda i: v.forall(c.d, lambda j: v.eq(v.at(S, i, j), v.at(first, i, j))))))]
        return r

    def snap(env):
        return dict(n=v.len(m.samples), S=v.copy(m.samples))

    def step(pre, env):
        S = m.samples
        return [("one sample is added", v.eq(v.len(S), pre["n"] + 1)),
                ("it is the chain's state", v.forall(c.d, lambda j: v.eq(v.at(S, pre["n"], j), v.at(m.current_sample, 0, j)))),
                ("earlier samples stay", v.forall(pre["n"], lambda i: v.forall(c.d, lambda j: v.eq(v.at(S, i, j), v.at(pre["S"], i, j)))))]
    v.while_inv("sampling", inv, step, {"samples": havoc}, snap)
    n = v.dim("n")
    timeout = v.inf if what == "keep" else v.real("timeout", pos=True)
    S, W = m.importance_sample(t, n, timeout=timeout)
    v.ensure("the samples held are returned", v.And(v.eq(v.len(S), v.len(m.samples)), v.forall(v.len(S), lambda i: v.forall(c.d, lambda j: v.eq(v.at(S, i, j), v.at(m.samples, i, j))))))
    v.ensure("as many weights as samples", v.eq(v.len(S), v.len(W)))
    v.ensure("equal weights, not negative", v.forall(v.len(W), lambda i: v.eq(v.at(W, i), v.quot(1, v.len(W)))))
    if what == "keep":
        v.ensure("at least as many samples as asked for", v.le(n, v.len(S)))
    for l, f in facts(c, what):
        v.ensure(l, f)
    v.cover("returned")


def _all_inside(c):
    v, S = c.v, c.m.samples
    return v.forall(v.len(S), lambda i: v.forall(c.d, lambda j: v.And(v.le(v.at(c.lo, j), v.at(S, i, j)), v.le(v.at(S, i, j), v.at(c.hi, j)))))


# ---------------------------------------------------------------- layered AIS
def adaptation(v, rel=None):
    """mcmc_mh: the configured number of steps of one proposal"""
    np = v.np
    d, lo, hi, p, m = Z.lais(v)
    t = v.dist("t", d, positive=True)
    v.has_method(m, "mcmc_mh", 4)
    x = v.fresh_reals("x", (d,))
    box = lambda y: v.forall(d, lambda j: v.And(v.le(v.at(lo, j), v.at(y, j)), v.le(v.at(y, j), v.at(hi, j))))
    v.assume(box(x))
    q = v.cls(Z.NORMAL)({"mean": x, "sigma": np.diag(np.ones(d) * p["sigma"])})
    L = p["L"]
    c = dict(v=v, m=m, t=t, d=d, lo=lo, hi=hi, p=p, q=q)
    pi0, q0 = m._num_pi_evals, m._num_q_samples

    def inv(env, k):
        y = v.local(env, "x")
        return [("the centre is inside the space", v.And(v.eq(v.len(y), d), box(y))),
                ("the proposal's centre is the state", v.forall(d, lambda j: v.eq(v.at(q.loc, j), v.at(y, j)))),
                ("the covariance is the configured one", v.forall(d, lambda a: v.forall(d, lambda b: v.eq(v.at(q.scale, a, b), v.If(v.eq(a, b), p["sigma"], 0))))),
                ("two target evaluations for every step", v.eq(m._num_pi_evals, pi0 + 2 * k)),
                ("one proposal sample for every step", v.eq(m._num_q_samples, q0 + k))]

    def snap(env):
        return dict(pi=m._num_pi_evals, q=m._num_q_samples, evals=t.evals, draws=len(v.draws()), loc=v.copy(q.loc))

    def step(pre, env):
        dr = v.draws()[pre["draws"]:]
        uni, prop = [z for z in dr if z.kind == "uniform"], [z for z in dr if z.kind != "uniform"]
        v.ensure("one point is proposed, with one fresh uniform draw", len(prop) == 1 and len(uni) == 1)
        return rel(c, pre, dict(env, prop=prop[0], u=uni[0].out, post=snap(env))) if rel else []
    v.for_inv("steps", inv, step, {}, snap, over=L)
    r = m.mcmc_mh(q.loc, q, t, L)
    v.ensure("the centre is returned", v.And(v.eq(v.len(r), d), v.forall(d, lambda j: v.eq(v.at(r, j), v.at(q.loc, j)))))
    v.ensure("the centre is inside the space", box(r))
    v.ensure("the covariance is the configured one", v.forall(d, lambda a: v.forall(d, lambda b: v.eq(v.at(q.scale, a, b), v.If(v.eq(a, b), p["sigma"], 0)))))
    v.ensure("two target evaluations for every step", v.eq(m._num_pi_evals, pi0 + 2 * L))
    v.ensure("one proposal sample for every step", v.eq(m._num_q_samples, q0 + L))
    v.cover("adapted")
