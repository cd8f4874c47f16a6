"""C24 acceptance rate and effective sample size are correct and scale-free."""
from contracts import samplers as Z
from contracts import zoo as Y


def _kind(kind):
    def b(v):
        np = v.np
        z = Y.make(v, kind, positive=v.pick("pos", [True, True, False]) if kind in ("nested", "multinested") else True)

        def body(S, W, n, out, prev):
            m = z.m
            v.assume(len(S) > 0)
            v.ensure("acceptance rate is samples kept by proposals drawn", v.eq(m.get_acceptance_rate(), len(S) / Y.drawn(z)) is not False)
            w = np.asarray(m.weights if kind != "tp" else W, dtype=float).reshape(-1)
            v.assume(bool(np.all(np.isfinite(w))) and w.sum() > 0)
            if kind in ("nested", "multinested"):
                p = w[w > 0]
                e = np.exp(-(p * np.log(p)).sum()) / len(S)
            else:
                e = w.sum() ** 2 / (w * w).sum() / len(S)
            if kind in ("mh", "rejection"):
                v.ensure("approximate effective sample size", v.eq(m.get_approx_NESS(), e) is not False)
                return      # its get_NESS is about autocorrelation
            r = m.get_NESS()
            v.ensure("effective sample size, normalised", v.eq(r, e) is not False)
            v.ensure("in (0, 1]", 0 < r <= 1 + 1e-9)
            if kind in ("dm", "lais", "pmc"):
                v.ensure("approximate effective sample size", v.eq(m.get_approx_NESS(), e) is not False)
                c, keep = float(v.pick("c", [0.25, 3.0, 1000.0])), m.weights
                m.weights = keep * c
                v.ensure("unchanged by scaling the weights", v.eq(m.get_NESS(), e) is not False)
                m.weights = np.ones(len(keep))
                v.ensure("1 for equal weights", v.eq(m.get_NESS(), 1.0) is not False)
                m.weights = keep
        Y.history(z, body)
    b.__name__ = "b_" + kind
    return b


for _k in Y.NAMES:
    globals()["b_" + _k] = _kind(_k)


def _held(v, m, d, zero=False):
    """any samples held, with any weights of positive total"""
    M = v.fresh_int("M", 1)
    m.samples = v.fresh_reals("S", (M, d))
    m.weights = v.fresh_reals("W", (M,), pos=True)
    return M


def _rate(v, m, M):
    m._num_q_samples = v.fresh_int("drawn", 1)
    v.ensure("acceptance rate is samples kept by proposals drawn", v.eq(m.get_acceptance_rate(), v.quot(M, m.num_proposal_samples)))


def _ness(v, m, M, get):
    np, W = v.np, m.weights
    w = lambda i: v.at(W, i)
    s1, s2 = v.sum(M, w), v.sum(M, lambda i: w(i) * w(i))
    v.have("positive", v.And(v.lt(0, s1), v.lt(0, s2)))
    e = get()
    v.ensure("effective sample size, normalised", v.eq(e * s2 * M, s1 * s1))
    # Cauchy-Schwarz: the sum of squared deviations is not negative
    v.lemma_sum_mono("deviations", M, lambda i: 0, lambda i: (M * w(i) - s1) * (M * w(i) - s1))
    v.have("Cauchy-Schwarz", v.le(s1 * s1, M * s2))
    v.ensure("in (0, 1]", v.And(v.lt(0, e), v.le(e, 1)))
    c = v.real("c", pos=True)
    m.weights = W * c
    t1, t2 = v.sum(M, lambda i: v.at(m.weights, i)), v.sum(M, lambda i: v.at(m.weights, i) * v.at(m.weights, i))
    v.have("scaled", v.And(v.eq(t1, c * s1), v.eq(t2, c * c * s2)))
    v.ensure("unchanged by scaling the weights", v.eq(get(), e))
    m.weights = np.ones(M) * c
    v.ensure("1 for equal weights", v.eq(get(), 1))


def h_importance(v):
    """the base of DM-AIS, layered AIS, mixture PMC"""
    if not v.symbolic:
        return b_pmc(v)
    d, lo, hi, p, m = Z.AIS[["dm", "pmc", "lais"][v.choose(3)]](v)
    M = _held(v, m, d)
    _rate(v, m, M)
    _ness(v, m, M, m.get_NESS)
    v.cover("computed")


def h_rejection(v):
    if not v.symbolic:
        return b_rejection(v)
    from contracts import c19
    m, q, t, d, p = c19.sampler(v)
    M = _held(v, m, d)
    _rate(v, m, M)
    _ness(v, m, M, m.get_approx_NESS)
    v.cover("computed")


def nested(v, kind="nested"):
    d, lo, hi, p = Z.base(v)
    q = v.dist("q", d, positive=True)
    p.update(proposal="params['q']", q=q, N=v.dim("N"), kde_bw=v.real("bw", pos=True), n_samples_kde=v.dim("kde"), converged_radius=v.real("radius", pos=True), inflate_factor=v.real("inflate", pos=True))
    m = v.cls(Z.SM + ("CNestedSampling" if kind == "nested" else "CMultiNestedSampling"))(p)
    return m, q, d, lo, hi, p


def _entropy(v, kind):
    np = v.np
    m, q, d, lo, hi, p = nested(v, kind)
    M = v.fresh_int("M", 1)
    m.samples, m.weights = v.fresh_reals("S", (M, d)), v.fresh_reals("W", (M,), nonneg=True)
    w = lambda i: v.at(m.weights, i)
    _rate(v, m, M)
    H = v.sum(M, lambda i: v.If(v.lt(0, w(i)), w(i) * np.log(w(i)), 0))
    v.ensure("exponential of the entropy, normalised; zero weights contribute nothing", v.eq(m.get_NESS() * M, np.exp(-H)))
    v.cover("computed")


def h_nested(v):
    if not v.symbolic:
        return b_nested(v)
    _entropy(v, "nested")


def h_multi_nested(v):
    if not v.symbolic:
        return b_multinested(v)
    _entropy(v, "multinested")


def h_metropolis_hastings(v):
    if not v.symbolic:
        return b_mh(v)
    d, lo, hi, p = Z.base(v)
    p.update(n_steps=v.dim("steps"), n_burnin=v.dim("burn"), proposal_d=v.dist("q", d, positive=True), proposal_sigma=v.real("psig", pos=True), kde_bw=v.real("bw", pos=True), n_samples_kde=v.dim("kde"))
    m = v.cls(Z.SM + "CMetropolisHastings")(p)
    M = _held(v, m, d)
    _rate(v, m, M)
    _ness(v, m, M, m.get_approx_NESS)
    v.cover("computed")


def h_hidaisee(v):
    if not v.symbolic:
        return b_hidaisee(v)
    d, lo, hi, p = Z.base(v)
    p.update(tau=v.real("tau", pos=True), n_min=v.dim("nmin"), target_ess=0.5)
    m = v.cls(Z.SM + "CHiDaiseeSampling")(p)
    M = _held(v, m, d)
    _rate(v, m, M)
    _ness(v, m, M, m.get_NESS)
    v.cover("computed")


def h_tree_pyramid(v):
    if not v.symbolic:
        return b_tp(v)
    d = 1 + v.choose(3)
    lo, hi = Z.space(v, d)
    p = dict(space_min=lo, space_max=hi, dims=d, method="simple", resampling="none", kernel="haar", ess_target=None, n_min=5, parallel_samples=v.dim("par"))
    m = v.cls(Z.SM + "tree_pyramid.CTreePyramidSampling")(p)
    # any samples and weights in the leaves
    M = v.fresh_int("M", 1)
    m.T.samples, m.T.weights, m.T.leaves_idx = v.fresh_reals("S", (M, d)), v.fresh_reals("W", (M,), pos=True), v.np.ones(M, dtype=bool)
    m._num_q_samples = v.fresh_int("drawn", 1)
    v.ensure("acceptance rate is samples kept by proposals drawn", v.eq(m.get_acceptance_rate(), v.quot(M, m.num_proposal_samples)))
    W = m.T.weights
    w = lambda i: v.at(W, i)
    s1, s2 = v.sum(M, w), v.sum(M, lambda i: w(i) * w(i))
    v.have("positive", v.And(v.lt(0, s1), v.lt(0, s2)))
    v.ensure("effective sample size, normalised", v.eq(m.get_NESS() * s2 * M, s1 * s1))
    v.cover("computed")
