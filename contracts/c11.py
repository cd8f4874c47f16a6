"""C11 the expected-value metric is the squared distance between the density-weighted means of the points."""
from contracts import lib

M = "ais_benchmarks.metrics.statistics.CExpectedValueMSE"


def _setup(v):
    d, n = v.dim("d"), v.dim("n")
    p, q = v.dist("p", d), v.dist("q", d)
    x = v.reals("x", (n, d))
    pv = lambda i: p.at(v.row(x, i))
    qv = lambda i: q.at(v.row(x, i))
    Sp, Sq = v.sum(n, pv), v.sum(n, qv)
    v.assume(v.And(v.lt(0, Sp), v.lt(0, Sq)))
    gap = lambda k: v.sum(n, lambda i: v.at(x, i, k) * v.quot(pv(i), Sp)) - v.sum(n, lambda i: v.at(x, i, k) * v.quot(qv(i), Sq))
    v.lemma_squares(d, gap)
    return d, n, p, q, x, v.sum(d, lambda k: gap(k) * gap(k))


def h_value(v):
    d, n, p, q, x, dist2 = _setup(v)
    m = v.cls(M)()
    r = m.compute_from_samples(p, q, x)
    v.ensure("squared distance of the weighted means", v.eq(r, dist2))
    v.ensure("not negative", v.le(0, r))
    v.ensure("the returned value is stored", v.eq(m.value, r))
    v.cover("computed")


def h_value_again(v):
    d, n, p, q, x, dist2 = _setup(v)
    m = v.cls(M)()
    m.compute_from_samples(v.dist("p2", d, positive=True), v.dist("q2", d, positive=True), v.reals("x2", (v.dim("n2"), d)))
    r = m.compute_from_samples(p, q, x)
    v.ensure("squared distance of the weighted means", v.eq(r, dist2))
    v.ensure("the returned value is stored", v.eq(m.value, r))
    v.cover("computed")


def h_symmetric(v):
    d, n, p, q, x, dist2 = _setup(v)
    r = v.cls(M)().compute_from_samples(p, q, x)
    s = v.cls(M)().compute_from_samples(q, p, x)
    v.ensure("symmetric", v.eq(r, s))
    v.cover("computed")


def h_proportional(v):
    d, n, c = v.dim("d"), v.dim("n"), v.real("c", pos=True)
    p = v.dist("p", d)
    x = v.reals("x", (n, d))
    v.assume(v.lt(0, v.sum(n, lambda i: p.at(v.row(x, i)))))
    r = v.cls(M)().compute_from_samples(p, v.scaled(p, c), x)
    v.ensure("zero when the densities are proportional", v.eq(r, 0))
    v.cover("computed")


def h_points_unchanged(v):
    """the points belong to the caller"""
    d, n, p, q, x, dist2 = _setup(v)
    y = v.copy(x)
    v.cls(M)().compute_from_samples(p, q, x)
    v.ensure_eq("the points are left unchanged", x, (n, d), lambda i, k: v.at(y, i, k))
    v.cover("computed")


def h_points(v):
    lib.points(v, M)
