"""C23 proposal adaptation follows the published update rules."""
from contracts import samplers as Z
from contracts import zoo as Y


def b_dm_ais(v):
    np = v.np
    z = Y.make(v, "dm", positive=v.pick("pos", [True, False]))
    m, p = z.m, z.par
    for i in range(int(v.pick("batches", [1, 2, 4]))):
        if i and v.pick("reset%d" % i, [0, 0, 1]):
            Y.restart(z)
        old = [np.array(q.loc) for q in m.proposals]
        n0, mark = len(m.samples), len(v.draws())
        m.importance_sample(z.t, n0 + 1, timeout=z.timeout)
        S, W = m.samples[n0:], m.weights[n0:]
        cats = [dr for dr in v.draws()[mark:] if dr.kind == "categorical"]
        if not W.sum() > 0:
            v.ensure("nothing to choose from: the proposals stay", all(np.array_equal(a, q.loc) for a, q in zip(old, m.proposals)))
            continue
        idx = []
        for dr in cats:
            pv = np.asarray(dr.args[0], dtype=float)
            v.ensure("chosen with probability proportional to the importance weights", pv.shape == W.shape and np.allclose(pv, W / W.sum(), rtol=1e-6, atol=1e-9))
            idx += [int(k) for k in np.ravel(dr.out)]
        v.ensure("one choice for every proposal", len(idx) == p["N"])
        for k, q in zip(idx, m.proposals):
            v.ensure("the mean is the chosen sample", np.array_equal(q.loc, S[k]))
            v.ensure("never one of zero weight", W[k] > 0)
            v.ensure("the covariance stays", np.array_equal(q.scale, np.eye(z.d) * p["sigma"]))
        v.cover("adapted")


def b_mixture_pmc(v):
    np = v.np
    z = Y.make(v, "pmc")
    m, p = z.m, z.par
    for i in range(int(v.pick("batches", [1, 2, 3]))):
        if i and v.pick("reset%d" % i, [0, 0, 1]):
            Y.restart(z)
        import copy
        old, alpha = copy.deepcopy(m.proposals), np.array(m.wproposals)
        n0 = len(m.samples)
        m.importance_sample(z.t, n0 + 1, timeout=z.timeout)
        S = m.samples[n0:]
        comp = np.array([a * np.asarray(q.prob(S)).reshape(-1) for a, q in zip(alpha, old)])
        v.assume(bool(np.all(np.isfinite(comp)) and np.all(comp.sum(axis=0) > 1e-250)))
        rho = comp / comp.sum(axis=0)
        w = np.array([z.t.at(s) for s in S]) / comp.sum(axis=0)
        w = w / w.sum()
        na = (w * rho).sum(axis=1)
        v.assume(bool(np.all(na > 1e-6)))
        v.ensure("component weights are the weighted total posteriors, renormalised", np.allclose(m.wproposals, na / na.sum(), rtol=1e-6, atol=1e-9))
        v.ensure("the mixture uses them", np.allclose(m.model.weights, m.wproposals, rtol=1e-9))
        v.ensure("the mixture is made of the proposals", len(m.model.models) == p["N"] and all(a is b for a, b in zip(m.model.models, m.proposals)))
        for k, q in enumerate(m.proposals):
            g = w * rho[k] / na[k]
            mu = (g[:, None] * S).sum(axis=0)
            v.ensure("mean is the weighted average of the samples", np.allclose(q.loc, mu, rtol=1e-6, atol=1e-7))
            dev = S - mu
            cov = (g[:, None, None] * dev[:, :, None] * dev[:, None, :]).sum(axis=0)
            det, big = np.linalg.det(cov), np.max(cov)
            v.assume(abs(big - 10) > 1e-6 and (det > 1e-12))
            if big > 10:
                v.ensure("a covariance beyond the cap is replaced", np.allclose(q.scale, np.eye(z.d) * 10))
            else:
                v.ensure("covariance is the weighted average of outer products of deviations", np.allclose(q.scale, cov, rtol=1e-5, atol=1e-9))
        v.cover("adapted")


def _chosen(c):
    """DM-AIS: every proposal moves to the sample its own draw chose"""
    v, m, d, p, n0, n1, N = c["v"], c["m"], c["d"], c["p"], c["pre"]["n"], c["post"]["n"], c["p"]["N"]
    S, W, pr = m.samples, m.weights, m.proposals
    k = n1 - n0
    tot = v.sum(k, lambda a: v.at(W, n0 + a))
    segs = v.choices(c["pre"]["draws"])
    if not segs:
        v.ensure("nothing is chosen only if no weight is positive", v.le(tot, 0))
        return [("nothing to choose from: the proposals stay", v.forall(N, lambda j: v.forall(d, lambda a: v.eq(
            v.at(v.getitem(pr, j).loc, a), v.at(v.getitem(c["pre"]["props"], j).loc, a)))))]
    r, off = [], 0
    for cnt, idx, prob, length in segs:
        q = lambda j, off=off: v.getitem(pr, off + j)
        r += [("one probability for every sample", v.eq(length, k)),
              ("chosen with probability proportional to the importance weights",
               v.forall(cnt, lambda j: v.forall(k, lambda a: v.eq(prob(j, a), v.quot(v.at(W, n0 + a), tot))))),
              ("the mean is the chosen sample", v.forall(cnt, lambda j: v.forall(d, lambda a: v.eq(v.at(q(j).loc, a), v.at(S, n0 + idx(j), a))))),
              ("never one of zero weight", v.forall(cnt, lambda j: v.And(v.le(0, idx(j)), v.lt(idx(j), k), v.lt(0, v.at(W, n0 + idx(j)))))),
              ("the covariance stays", v.forall(cnt, lambda j: v.forall(d, lambda a: v.forall(d, lambda b: v.eq(
                  v.at(q(j).scale, a, b), v.If(v.eq(a, b), p["sigma"], 0))))))]
        off = off + cnt
    return r + [("one choice for every proposal", v.eq(off, N))]


def h_dm_ais(v):
    if not v.symbolic:
        return b_dm_ais(v)
    Z.ais_batch(v, "dm", _chosen)


def _used(c):
    """mixture PMC: the samples the batch adds are those the update was given"""
    v = c["v"]
    return [("the batch adds one sample for every draw", v.eq(c["post"]["n"] - c["pre"]["n"], c["p"]["K"]))]


def h_mixture_pmc(v):
    if not v.symbolic:
        return b_mixture_pmc(v)
    Z.ais_batch(v, "pmc", _used, posterior=True)


def h_update(v):
    """mixture PMC: one update of the component weights, means and covariances (Cappe et al., 14.1 to 14.3)"""
    if not v.symbolic:
        return b_mixture_pmc(v)
    np = v.np
    d, lo, hi, p, m = Z.pmc(v)
    v.has_method(m, "adapt", 3)
    N, n = p["N"], v.dim("n")
    S = v.reals("S", (n, d))
    w = v.reals("w", (n,), pos=True)
    rho = v.reals("rho", (N, n), pos=True)
    tot = lambda k: v.sum(n, lambda i: v.at(w, i) * v.at(rho, k, i))
    v.have("every component has some posterior weight", v.forall(N, lambda k: v.lt(0, tot(k))))
    v.have("posterior weight in total", v.lt(0, v.sum(N, tot)))
    mu0 = v.reals("mu", (N, d))
    cov0 = v.spd_family("cov", d)
    v.overwrite(m.proposals, v.list(N, lambda i: v.cls(Z.NORMAL)({"mean": v.row(mu0, i), "sigma": cov0(i)})))
    q = lambda k: v.getitem(m.proposals, k)
    g = lambda k, i: v.quot(v.at(w, i) * v.at(rho, k, i), tot(k))
    mu = lambda k, a: v.sum(n, lambda i: g(k, i) * v.at(S, i, a))
    scatter = lambda k, a, b: v.sum(n, lambda i: g(k, i) * (v.at(S, i, a) - mu(k, a)) * (v.at(S, i, b) - mu(k, b)))
    n0 = len(v.draws())

    def snap(env=None):
        return dict(props=v.frozen(m.proposals))

    def inv(env, k):
        return [("total posteriors so far", lambda: v.forall(k, lambda j: v.eq(v.at(m.wproposals, j), tot(j)))),
                ("as many proposals", lambda: v.eq(v.len(m.proposals), N)),
                ("means so far", lambda: means(k))]

    def some():
        # the component of this iteration, or any other one
        if v.choose(2) == 0:
            return v.done()
        j = v.fresh_int("j")
        v.assume(v.And(v.lt(j, N), v.Not(v.eq(j, v.done()))))
        return j

    def means(k):
        if v.known_zero(k):
            return True
        j = some()
        return v.Implies(v.lt(j, k), v.forall(d, lambda a: v.eq(v.at(q(j).loc, a), mu(j, a))))

    def step(pre, env):
        k, j = v.done(), some()
        same = lambda: v.And(v.forall(d, lambda a: v.eq(v.at(q(j).loc, a), v.at(v.getitem(pre["props"], j).loc, a))),
                               v.forall(d, lambda a: v.forall(d, lambda b: v.eq(v.at(q(j).scale, a, b), v.at(v.getitem(pre["props"], j).scale, a, b)))))
        big = v.Not(v.forall(d, lambda a: v.forall(d, lambda b: v.le(scatter(k, a, b), 10))))
        C = lambda a, b: v.at(q(k).scale, a, b)
        r = [("other components stay", True if j is k else same()),
             ("mean is the weighted average of the samples", v.forall(d, lambda a: v.eq(v.at(q(k).loc, a), mu(k, a))))]
        return r + [("covariance is the weighted average of outer products of deviations, or replaced where it is beyond the cap",
                 v.Or(v.And(v.Not(big), v.forall(d, lambda a: v.forall(d, lambda b: v.eq(C(a, b), scatter(k, a, b))))),
                      v.And(v.Or(big, v.le(np.linalg.det(v.matrix(d, d, lambda a, b: scatter(k, a, b))), 0)),
                            v.forall(d, lambda a: v.forall(d, lambda b: v.eq(C(a, b), v.If(v.eq(a, b), 10, 0)))))))]

    def weights(o):
        k = v.done()
        if v.same(k, N):
            return v.vector(N, tot)
        a = v.fresh_reals("alpha", (N,))
        return v.vector(N, lambda j: v.If(v.lt(j, k), tot(j), v.at(a, j)))

    def props(o):
        k = v.done()
        a, cov = v.fresh_reals("mean", (N, d)), v.spd_family("cov", d)
        return v.list(N, lambda j: v.cls(Z.NORMAL)({"mean": v.vector(d, lambda e: v.If(v.lt(j, k), mu(j, e), v.at(a, j, e))), "sigma": cov(j)}))
    v.for_inv("update", inv, step, {id(m.wproposals): weights, id(m.proposals): props}, snap, over=N)
    m.adapt(S, w, rho)
    v.cover("adapted")
    v.ensure("component weights are the weighted total posteriors, renormalised",
             v.forall(N, lambda k: v.eq(v.at(m.wproposals, k) * v.sum(N, tot), tot(k))))
    v.ensure("the mixture uses them", v.forall(N, lambda k: v.eq(v.at(m.model.weights, k), v.at(m.wproposals, k))))
    v.ensure("the mixture is made of the proposals", v.And(m.model.models is m.proposals, v.eq(v.len(m.proposals), N)))
    v.ensure("means are the weighted averages of the samples", v.forall(N, lambda k: v.forall(d, lambda a: v.eq(v.at(q(k).loc, a), mu(k, a)))))
