"""Shared builders and invariants for the contracts of the sampling methods."""
from contracts.lib import P
SM = "ais_benchmarks.sampling_methods."
NORMAL = P + "CMultivariateNormal"


def space(v, d):
    lo = v.reals("lo", (d,))
    return lo, lo + v.reals("width", (d,), pos=True)


def base(v, small=3):
    d = v.dim("d")
    lo, hi = space(v, d)
    return d, lo, hi, {"space_min": v.copy(lo), "space_max": v.copy(hi), "dims": d}


def dm(v):
    d, lo, hi, p = base(v)
    p.update(K=v.dim("K"), N=v.dim("N"), J=1, sigma=v.real("sigma", pos=True))
    return d, lo, hi, p, v.cls(SM + "CDeterministicMixtureAIS")(p)


def lais(v):
    d, lo, hi, p = base(v)
    p.update(K=v.dim("K"), N=v.dim("N"), J=1, L=v.dim("L"), sigma=v.real("sigma", pos=True), mh_sigma=v.real("mh_sigma", pos=True))
    return d, lo, hi, p, v.cls(SM + "CLayeredAIS")(p)


def pmc(v):
    d, lo, hi, p = base(v)
    p.update(K=v.dim("K"), N=v.dim("N"), J=1, sigma=v.real("sigma", pos=True))
    return d, lo, hi, p, v.cls(SM + "CMixturePMC")(p)


AIS = {"dm": dm, "lais": lais, "pmc": pmc}


def dens(v, q, x):
    """density of a distribution object at the point x (its own contract: C02, C03)"""
    return v.at(q.prob(v.np.reshape(x, (1, v.len(x)))), 0)


def mixture_before(c, x):
    """density at x of the full mixture of the proposals as they were before the batch"""
    v, N = c["v"], c["p"]["N"]
    a = (lambda j: v.at(c["pre"]["alpha"], j)) if c["kind"] == "pmc" else (lambda j: v.quot(1, N))
    return v.sum(N, lambda j: a(j) * dens(v, v.getitem(c["pre"]["props"], j), x))


def _state(v, m, d, kind):
    """arbitrary states of a sampler at the head of its sampling loop"""
    np = v.np
    n_prop = v.len(m.proposals)

    held = {}

    def count(who):
        # nothing yet, or any number of samples; the same for samples and weights
        if not held or who in held["used"]:
            held.update(M=0 if v.choose(2) == 0 else v.fresh_int("M", 1), used=set())
        held["used"].add(who)
        return held["M"]

    def samples(_):
        M = count("samples")
        return np.array([]) if isinstance(M, int) else v.fresh_reals("S", (M, d))

    def weights(_):
        M = count("weights")
        return np.array([]) if isinstance(M, int) else v.fresh_reals("W", (M,), pos=True)

    def props(_):
        mu = v.fresh_reals("mu", (n_prop, d), between=(m.space_min, m.space_max) if kind == "lais" else None)
        if kind == "pmc":
            cov = v.spd_family("cov", d)
            return v.list(n_prop, lambda i: v.cls(NORMAL)({"mean": v.row(mu, i), "sigma": cov(i)}))
        C = np.diag(np.ones(d) * m.sigma)
        return v.list(n_prop, lambda i: v.cls(NORMAL)({"mean": v.row(mu, i), "sigma": C}))

    mix = {}

    def wprop(who):
        # the mixture uses the component weights
        def f(_):
            if not mix or who in mix["used"]:
                mix.update(a=weights_of(v, n_prop), used=set())
            mix["used"].add(who)
            return mix["a"]
        return f
    r = {(id(m), "samples"): samples, (id(m), "weights"): weights, id(m.proposals): props, id(m.model.models): props}
    if kind == "pmc":
        r.update({(id(m), "wproposals"): wprop("own"), (id(m.model), "weights"): wprop("model")})
    return r


def weights_of(v, n):
    """any component weights: not negative, of sum one"""
    a = v.fresh_reals("alpha", (n,), pos=True)
    v.have("the component weights have a positive sum", v.lt(0, v.np.sum(a)))
    return a / v.np.sum(a)


def adapted_by_contract(v, m, t, d, lo, hi, p):
    """layered AIS: an adaptation step by its contract (contracts/chain.py: adaptation)"""
    v.has_method(m, "mcmc_mh", 4)

    def mcmc_mh(self, x, prop_d, target_d, n_steps):
        v.ensure("a proposal is adapted by the configured number of steps", v.eq(n_steps, p["L"]))
        v.ensure("a proposal is adapted from where it is", v.forall(d, lambda j: v.eq(v.at(x, j), v.at(prop_d.loc, j))))
        v.ensure("a proposal is adapted to the target", target_d is t)
        v.ensure("a proposal is adapted inside the space", v.forall(d, lambda j: v.And(v.le(v.at(lo, j), v.at(x, j)), v.le(v.at(x, j), v.at(hi, j)))))
        self._num_pi_evals += 2 * n_steps
        t.count(evals=2 * n_steps)
        self._num_q_samples += n_steps
        self.mhproposal.sample(n_steps)
        prop_d.set_moments(v.any_point(lo, hi), v.np.diag(v.np.ones(d) * p["sigma"]))
        return prop_d.loc
    v.stub(v.cls(SM + "layered_ais.CLayeredAIS"), "mcmc_mh", mcmc_mh)


def updated_by_contract(v, m, t, d, lo, hi, p, posterior=False):
    """mixture PMC: the update of the proposals by its contract (contracts/c23.py: h_update): it may change the proposals, their weights
    and the model, and nothing else; every component weight is positive afterwards if all that goes in is"""
    v.has_method(m, "adapt", 3)

    def adapt(self, samples, weights, posteriors):
        N, n, K = p["N"], v.len(samples), p["K"]
        v.ensure("one importance weight and one posterior of every component for every sample of the batch",
                 v.And(v.eq(n, K), v.eq(v.len(weights), K), v.eq(v.shape(posteriors, 0), N), v.eq(v.shape(posteriors, 1), K)))
        v.ensure("the update is given positive weights", v.forall(K, lambda i: v.lt(0, v.at(weights, i))))
        v.ensure("the update is given positive posteriors", v.forall(N, lambda j: v.forall(K, lambda i: v.lt(0, v.at(posteriors, j, i)))))
        if posterior:
            v.ensure("the weights given to the update sum to one", v.eq(v.sum(K, lambda i: v.at(weights, i)), 1))
            mix = lambda x: v.sum(N, lambda j: v.at(self.wproposals, j) * dens(v, v.getitem(self.proposals, j), x))
            v.ensure("the update is given the posteriors of the components", v.forall(N, lambda j: v.forall(K, lambda i: v.eq(
                v.at(posteriors, j, i) * mix(v.row(samples, i)), v.at(self.wproposals, j) * dens(v, v.getitem(self.proposals, j), v.row(samples, i))))))
            x0, w0 = v.row(samples, 0), v.at(weights, 0)
            v.ensure("the update is given the importance weights", v.forall(K, lambda i: v.eq(
                v.at(weights, i) * mix(v.row(samples, i)) * t.at(x0), w0 * mix(x0) * t.at(v.row(samples, i)))))
        self.wproposals = weights_of(v, p["N"])
        self.model.weights = self.wproposals
        mu = v.fresh_reals("mu", (p["N"], d))
        cov = v.spd_family("cov", d)
        new = v.list(p["N"], lambda i: v.cls(NORMAL)({"mean": v.row(mu, i), "sigma": cov(i)}))
        v.overwrite(self.proposals, new)
    v.stub(v.cls(SM + "m_pmc.CMixturePMC"), "adapt", adapt)


def ais_batch(v, kind, rel, exit=None, positive=True, posterior=False):
    """one arbitrary batch of an adaptive importance sampler: rel(pre, post) -> obligations.

    Proof: the loop of importance_sample from an arbitrary state at its head.  Concretely: some batches on the real code."""
    d, lo, hi, p, m = AIS[kind](v)
    t = v.dist("t", d, positive=positive)

    def snap(env=None):
        z = dict(n=v.len(m.samples), samples=v.copy(m.samples), weights=v.copy(m.weights), pi=m._num_pi_evals, q=m._num_q_samples,
                 evals=t.evals, draws=len(v.draws()), events=len(v.events("prob")),
                 props=v.frozen(m.proposals),
                 alpha=v.copy(m.wproposals) if kind == "pmc" else None)
        return z

    def step(pre, env):
        return rel(dict(v=v, m=m, t=t, d=d, lo=lo, hi=hi, p=p, kind=kind, pre=pre, post=snap()))

    def inv(env):
        r = [("as many weights as samples", v.eq(v.len(m.samples), v.len(m.weights))),
             ("one row per sample", True if v.len0(m.samples) else v.eq(v.shape(m.samples, 1), d))]
        if kind == "lais":
            r.append(("centres are inside the space", lambda: v.forall(p["N"], lambda j: v.forall(d, lambda a: v.And(
                v.le(v.at(lo, a), v.at(v.getitem(m.proposals, j).loc, a)), v.le(v.at(v.getitem(m.proposals, j).loc, a), v.at(hi, a)))))))
        if kind == "pmc":
            r.append(("the mixture uses the component weights", lambda: v.forall(p["N"], lambda j: v.eq(v.at(m.model.weights, j), v.at(m.wproposals, j)))))
        return r
    if v.symbolic:
        n = v.dim("n")
        if kind == "lais":
            adapted_by_contract(v, m, t, d, lo, hi, p)
        if kind == "pmc":
            updated_by_contract(v, m, t, d, lo, hi, p, posterior)
        v.while_inv("sampling", inv, step, _state(v, m, d, kind), snap)
        r = m.importance_sample(t, n, timeout=v.inf)
        v.cover("returned")
        v.ensure("at least as many samples as asked for", v.le(n, v.len(r[0])))
        if exit:
            exit(dict(v=v, m=m, t=t, d=d, lo=lo, hi=hi, p=p, kind=kind, n=n, r=r))
    else:
        for b in range(int(v.pick("batches", [1, 2, 3]))):
            pre = snap()
            n = len(m.samples) + 1
            r = m.importance_sample(t, n, timeout=v.inf)
            for l, c in step(pre, None) + inv(None):
                v.ensure(l, c)
            v.ensure("at least as many samples as asked for", v.le(n, v.len(r[0])))
            if exit:
                exit(dict(v=v, m=m, t=t, d=d, lo=lo, hi=hi, p=p, kind=kind, n=n, r=r))
        v.cover("returned")
