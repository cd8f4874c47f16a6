"""C10 the JSD metric is the base-2 Jensen-Shannon divergence of the normalised densities over the points where both are positive."""
from contracts import lib

M = "ais_benchmarks.metrics.divergences."


class Spec:
    """the divergence, for densities given as functions of the point's number"""

    def __init__(self, v, n, pv, qv, ok=None):
        both = lambda i: v.And(v.Not(v.eq(pv(i), 0)), v.Not(v.eq(qv(i), 0)), ok(i) if ok else True)
        self.both = both
        Sp = self.Sp = v.sum(n, lambda i: v.If(both(i), pv(i), 0))
        Sq = self.Sq = v.sum(n, lambda i: v.If(both(i), qv(i), 0))
        P, Q = (lambda i: v.quot(pv(i), Sp)), (lambda i: v.quot(qv(i), Sq))
        self.P, self.Q = P, Q
        mid = self.mid = lambda i: (P(i) + Q(i)) / 2
        self.lp = lambda i: v.ln(pv(i)) - v.ln(Sp) - v.ln(mid(i))
        self.lq = lambda i: v.ln(qv(i)) - v.ln(Sq) - v.ln(mid(i))
        self.nats = v.sum(n, lambda i: v.If(both(i), (P(i) * self.lp(i) + Q(i) * self.lq(i)) / 2, 0))
        self.value = v.quot(self.nats, v.ln(2))
        v.assume(v.exists(n, both))
        v.have("the densities have a positive total", v.And(v.lt(0, Sp), v.lt(0, Sq)))


def _setup(v):
    d, n = v.dim("d"), v.dim("n")
    p, q = v.dist("p", d), v.dist("q", d)
    x = v.reals("x", (n, d))
    pv = lambda i: p.at(v.row(x, i))
    qv = lambda i: q.at(v.row(x, i))
    return d, n, p, q, x, pv, qv, Spec(v, n, pv, qv)


def h_value(v):
    d, n, p, q, x, pv, qv, s = _setup(v)
    m = v.cls(M + "CJSDivergence")()
    r = m.compute_from_samples(p, q, x)
    v.ensure("base-2 JSD of the normalised densities", v.eq(r, s.value))
    v.ensure("the returned value is stored", v.eq(m.value, r))
    v.cover("computed")


def h_value_again(v):
    d, n, p, q, x, pv, qv, s = _setup(v)
    m = v.cls(M + "CJSDivergence")()
    m.compute_from_samples(v.dist("p2", d, positive=True), v.dist("q2", d, positive=True), v.reals("x2", (v.dim("n2"), d)))
    r = m.compute_from_samples(p, q, x)
    v.ensure("base-2 JSD of the normalised densities", v.eq(r, s.value))
    v.ensure("the returned value is stored", v.eq(m.value, r))
    v.cover("computed")


def h_nan_ignored(v):
    """densities may be NaN: these points do not count"""
    d, n = v.dim("d"), v.dim("n")
    a, b = v.reals("a", (n,), nonneg=True), v.reals("b", (n,), nonneg=True)
    na, nb = v.reals("na", (n,)), v.reals("nb", (n,))
    okp, okq = (lambda i: v.lt(0, v.at(na, i))), (lambda i: v.lt(0, v.at(nb, i)))
    s = Spec(v, n, lambda i: v.at(a, i), lambda i: v.at(b, i), lambda i: v.And(okp(i), okq(i)))
    p = v.tabulated(d, v.vec(n, lambda i: v.If(okp(i), v.at(a, i), v.nan)))
    q = v.tabulated(d, v.vec(n, lambda i: v.If(okq(i), v.at(b, i), v.nan)))
    r = v.cls(M + "CJSDivergence")().compute_from_samples(p, q, v.reals("x", (n, d)))
    v.ensure("base-2 JSD over the points with two densities", v.eq(r, s.value))
    v.cover("computed")


def h_symmetric(v):
    d, n, p, q, x, pv, qv, s = _setup(v)
    m = v.cls(M + "CJSDivergence")()
    r = m.compute_from_samples(p, q, x)
    t = v.cls(M + "CJSDivergence")().compute_from_samples(q, p, x)
    v.ensure("symmetric", v.eq(r, t))
    v.cover("computed")


def h_range(v):
    d, n, p, q, x, pv, qv, s = _setup(v)
    r = v.cls(M + "CJSDivergence")().compute_from_samples(p, q, x)
    for (A, lr, dens, S) in ((s.P, s.lp, pv, s.Sp), (s.Q, s.lq, qv, s.Sq)):
        u = lambda i: v.quot(s.mid(i) * S, dens(i))
        v.lemma_log("ln u <= u - 1 at u = M / P", n, [s.mid, lambda i: S], [dens], s.both)
        v.lemma_weighted_mono("P (1 - M / P) <= P ln(P / M)", n, A, lambda i: 1 - u(i), lr, s.both)
        v.have("these sum to the sum of P - M", v.eq(v.sum(n, lambda i: v.If(s.both(i), A(i) * (1 - u(i)), 0)),
                                                     v.sum(n, lambda i: v.If(s.both(i), A(i) - s.mid(i), 0))))
        v.lemma_ln_le("P <= 2 M", n, [dens], [lambda i: 2, lambda i: S, s.mid], s.both)
        v.lemma_weighted_mono("P ln(P / M) <= P ln 2", n, A, lr, lambda i: v.ln(2), s.both)
        v.have("P sums to one", v.eq(v.sum(n, lambda i: v.If(s.both(i), A(i), 0)), 1))
    v.have("the divergence in nats is not negative", v.le(0, s.nats))
    v.have("the divergence in nats is at most ln 2", v.le(s.nats, v.ln(2)))
    v.ensure("not negative", v.le(0, r))
    v.ensure("at most one", v.le(r, 1))
    v.cover("computed")


def h_proportional(v):
    d, n, c = v.dim("d"), v.dim("n"), v.real("c", pos=True)
    p = v.dist("p", d)
    x = v.reals("x", (n, d))
    pv = lambda i: p.at(v.row(x, i))
    v.assume(v.exists(n, lambda i: v.Not(v.eq(pv(i), 0))))
    v.have("the density has a positive total", v.lt(0, v.sum(n, pv)))
    r = v.cls(M + "CJSDivergence")().compute_from_samples(p, v.scaled(p, c), x)
    v.ensure("zero when the densities are proportional", v.eq(r, 0))
    v.cover("computed")


def h_points(v):
    lib.points(v, M + "CJSDivergence")
