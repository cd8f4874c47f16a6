"""C09 the KL metric is the normalised discrete KL divergence of the two densities over the points where both are positive."""
from contracts import lib

M = "ais_benchmarks.metrics.divergences."


def _pq(v, special=False):
    d, n = v.dim("d"), v.dim("n")
    p, q = v.dist("p", d), v.dist("q", d)
    x = v.reals("x", (n, d))
    pv = lambda i: p.at(v.row(x, i))
    qv = lambda i: q.at(v.row(x, i))
    return d, n, p, q, x, pv, qv


def _kl(v, n, pv, qv):
    """the discrete KL divergence, for densities given as functions of the point's number"""
    both = lambda i: v.And(v.Not(v.eq(pv(i), 0)), v.Not(v.eq(qv(i), 0)))
    Sp = v.sum(n, lambda i: v.If(both(i), pv(i), 0))
    Sq = v.sum(n, lambda i: v.If(both(i), qv(i), 0))
    return both, Sp, Sq, v.sum(n, lambda i: v.If(both(i), v.quot(pv(i), Sp) * (v.ln(pv(i)) - v.ln(Sp) - v.ln(qv(i)) + v.ln(Sq)), 0))


def h_value(v):
    d, n, p, q, x, pv, qv = _pq(v)
    both, Sp, Sq, kl = _kl(v, n, pv, qv)
    v.assume(v.exists(n, both))
    v.have("the densities have a positive total", v.And(v.lt(0, Sp), v.lt(0, Sq)))
    m = v.cls(M + "CKLDivergence")()
    r = m.compute_from_samples(p, q, x)
    v.ensure("KL of the normalised densities", v.eq(r, kl))
    v.ensure("the returned value is stored", v.eq(m.value, r))
    v.cover("computed")


def _setup(v):
    d, n, p, q, x, pv, qv = _pq(v)
    both, Sp, Sq, kl = _kl(v, n, pv, qv)
    v.assume(v.exists(n, both))
    v.have("the densities have a positive total", v.And(v.lt(0, Sp), v.lt(0, Sq)))
    return d, n, p, q, x, pv, qv, both, Sp, Sq, kl


def h_nonneg(v):
    d, n, p, q, x, pv, qv, both, Sp, Sq, kl = _setup(v)
    r = v.cls(M + "CKLDivergence")().compute_from_samples(p, q, x)
    P, Q = (lambda i: v.quot(pv(i), Sp)), (lambda i: v.quot(qv(i), Sq))
    # log u <= u - 1 at u = Q_i / P_i, times P_i, summed
    v.lemma_log("u = Q / P", n, [qv, lambda i: Sp], [pv, lambda i: Sq], both)
    v.lemma_sum_mono("P - Q <= P log(P / Q)", n, lambda i: v.If(both(i), P(i) - Q(i), 0),
                     lambda i: v.If(both(i), P(i) * (v.ln(pv(i)) - v.ln(Sp) - v.ln(qv(i)) + v.ln(Sq)), 0))
    v.have("P and Q have the same total", v.eq(v.sum(n, lambda i: v.If(both(i), P(i) - Q(i), 0)), 0))
    v.ensure("never negative", v.le(0, r))
    v.cover("computed")


def h_proportional(v):
    """q's density is c times p's"""
    d, n, c = v.dim("d"), v.dim("n"), v.real("c", pos=True)
    p = v.dist("p", d)
    q = v.scaled(p, c)
    x = v.reals("x", (n, d))
    pv = lambda i: p.at(v.row(x, i))
    if v.case(v.exists(n, lambda i: v.Not(v.eq(pv(i), 0)))):
        v.have("the density has a positive total", v.lt(0, v.sum(n, pv)))
    r = v.cls(M + "CKLDivergence")().compute_from_samples(p, q, x)
    v.ensure("zero when the densities are proportional", v.eq(r, 0))
    v.cover("computed")


def h_scaled(v):
    d, n, p, q, x, pv, qv, both, Sp, Sq, kl = _setup(v)
    c, e = v.real("c", pos=True), v.real("e", pos=True)
    r = v.cls(M + "CKLDivergence")().compute_from_samples(p, q, x)
    s = v.cls(M + "CKLDivergence")().compute_from_samples(v.scaled(p, c), v.scaled(q, e), x)
    v.ensure("unchanged when the densities are scaled", v.eq(r, s))
    v.cover("computed")


def h_value_again(v):
    """a metric object can be used again"""
    d, n, p, q, x, pv, qv, both, Sp, Sq, kl = _setup(v)
    m = v.cls(M + "CKLDivergence")()
    m.compute_from_samples(v.dist("p2", d, positive=True), v.dist("q2", d, positive=True), v.reals("x2", (v.dim("n2"), d)))
    r = m.compute_from_samples(p, q, x)
    v.ensure("KL of the normalised densities", v.eq(r, kl))
    v.ensure("the returned value is stored", v.eq(m.value, r))
    v.cover("computed")


def h_points(v):
    """compute evaluates at points drawn from p's support"""
    lib.points(v, M + "CKLDivergence")
