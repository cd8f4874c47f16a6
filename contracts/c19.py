"""C19 rejection sampling accepts exactly by the density ratio."""
from contracts import zoo as Y


def b_rejection(v):
    np = v.np
    z = Y.make(v, "rejection", positive=v.pick("pos", [True, False]))
    m, have, n, timed = z.m, [], 0, False
    z.timeout = float(v.pick("time", [200, 30, 2]))
    for i in range(int(v.pick("calls", [1, 2, 3]))):
        if i and v.pick("reset%d" % i, [0, 0, 1]):
            Y.restart(z)
            have, n = [], 0
        n = max(1, n + int(v.pick("more%d" % i, [1, 3, 9, 0, -1])))
        mark = len(v.draws())
        missing = n - len(have)
        S, W = m.importance_sample(z.t, n, timeout=z.timeout)
        # the order of the draws is the code's; the k-th proposed point goes with the k-th uniform draw
        us, k, n0 = Y.uniforms(v, mark), 0, len(have)
        total = sum(len(dr.out) for dr in v.draws()[mark:] if dr.kind == "sample_q")
        v.ensure("one uniform draw for every proposed point", len(us) == total)
        for dr in v.draws()[mark:]:
            if dr.kind == "sample_q":
                v.ensure("no more points are drawn than samples missing", len(dr.out) <= n - len(have))
                for r in dr.out:
                    if Y.below(v, us[k], z.t.at(r) / (z.par["scaling"] * z.q.at(r))):
                        have.append(r)
                    k += 1
        v.ensure("exactly the accepted points are kept, in order", len(S) == len(have) and (not have or np.array_equal(np.asarray(S), np.array(have))))
        v.ensure("never more samples than requested", len(S) <= max(n, n0))
        v.ensure("equal weights that sum to one", len(W) == len(have) and np.allclose(W, 1 / max(1, len(have)), rtol=1e-12))
        v.cover("sampled")


def sampler(v, positive=True):
    """the sampler in any state that earlier calls can leave"""
    from contracts import samplers as Z
    d, lo, hi, p = Z.base(v)
    q, t = v.dist("q", d, positive=True), v.dist("t", d)
    p.update(proposal="params['q']", q=q, scaling=v.real("scaling", pos=True), kde_bw=v.real("bw", pos=True), n_samples_kde=v.dim("kde"))
    m = v.cls(Z.SM + "CRejectionSampling")(p)
    return m, q, t, d, p


def held(v, m, d, first=None):
    """arbitrary samples already held"""
    if v.choose(2) == 0:
        m.samples, m.weights = v.np.array([]), v.np.array([])
        return 0
    M = v.fresh_int("M", 1)
    m.samples, m.weights = v.fresh_reals("S", (M, d)), v.fresh_reals("W", (M,), pos=True)
    return M


def h_rejection(v):
    if not v.symbolic:
        return b_rejection(v)
    np = v.np
    m, q, t, d, p = sampler(v)
    M0 = held(v, m, d)
    n = v.dim("n")
    most = v.If(v.le(n, M0), M0, n)

    def havoc(which):
        def h(_):
            if which == "samples":
                v.st = Y.Setup()
                v.st.empty = v.choose(2) == 0
                if v.st.empty:
                    return np.array([])
                v.st.M = v.fresh_int("M", 1)
                return v.fresh_reals("S", (v.st.M, d))
            return np.array([]) if v.st.empty else v.fresh_reals("W", (v.st.M,), pos=True)
        return h

    def inv(env):
        return [("as many weights as samples", v.eq(v.len(m.samples), v.len(m.weights))),
                ("one row per sample", True if v.len0(m.samples) else v.eq(v.shape(m.samples, 1), d)),
                ("never more than requested", v.le(v.len(m.samples), most))]

    def snap(env):
        return dict(n=v.len(m.samples), samples=v.copy(m.samples), draws=len(v.draws()))

    def step(pre, env):
        dr = v.draws()[pre["draws"]:]
        prop, uni = [x for x in dr if x.kind.startswith("sample_")], [x for x in dr if x.kind == "uniform"]
        v.ensure("one set of points is proposed, with one set of uniform draws", len(prop) == 1 and len(uni) == 1)
        P, u = prop[0].out, uni[0].out
        k = v.len(P)
        acc = lambda j: v.lt(v.at(u, j), v.quot(t.at(v.row(P, j)), p["scaling"] * q.at(v.row(P, j))))
        n0, S = pre["n"], m.samples
        v.lemma_sum_mono("no more points are accepted than proposed", k, lambda j: v.ind(acc(j)), lambda j: 1)
        return [("as many uniform draws as points", v.eq(v.len(u), k)),
                ("no more points than samples missing", v.le(k, n - n0)),
                ("the number of samples grows by the number of accepted points", v.eq(v.len(S), n0 + v.sum(k, lambda j: v.ind(acc(j))))),
                ("earlier samples stay", v.forall(n0, lambda i: v.forall(d, lambda c: v.eq(v.at(S, i, c), v.at(pre["samples"], i, c))))),
                ("accepted points are kept in order", v.forall(k, lambda j: v.Implies(acc(j), v.forall(d, lambda c: v.eq(
                    v.at(S, n0 + v.rank(k, acc, j), c), v.at(P, j, c))))))]
    v.while_inv("rounds", inv, step, {"samples": havoc("samples"), "weights": havoc("weights")}, snap)
    S, W = m.importance_sample(t, n, timeout=v.real("timeout"))
    v.ensure("as many weights as samples", v.eq(v.len(S), v.len(W)))
    v.ensure("never more samples than requested", v.le(v.len(S), most))
    v.ensure("equal weights", v.forall(v.len(W), lambda i: v.eq(v.at(W, i), v.quot(1, v.len(W)))))
    v.cover("returned")
