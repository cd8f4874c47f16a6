"""C07 mixture density is the weighted average of its components."""
from contracts.lib import P


def _check(v, q, n, k, x, dens):
    """dens(j, i): density of component j at row i"""
    w = q.weights if hasattr(q, "models") and not hasattr(q, "gmm") else q.gmm.weights
    p, lp = q.prob(x), q.log_prob(x)
    mix = lambda i: v.sum(k, lambda j: v.at(w, j) * dens(j, i))
    v.ensure_eq("density is the weighted sum of the component densities", p, (n,), mix)
    v.ensure_eq("log-density is the logarithm of that sum", lp, (n,), lambda i: v.log(mix(i)))
    v.cover("evaluated")


def _mix(v, k, d, comps, w):
    return v.cls(P + "CMixtureModel")({"models": comps, "weights": w, "dims": d,
                                       "support": [v.reals("lo", (d,)), v.reals("hi", (d,))]})


def h_mixture(v):
    k, d, n = v.dim("k"), v.dim("d"), v.dim("n")
    comps = v.dists("comp", k, d)
    q = _mix(v, k, d, comps, v.reals("w", (k,), special="n"))
    x = v.reals("x", (n, d))
    _check(v, q, n, k, x, lambda j, i: v.getitem(comps, j).at(v.row(x, i)))


def h_mixture_reweighted(v):
    k, d, n = v.dim("k"), v.dim("d"), v.dim("n")
    comps = v.dists("comp", k, d)
    q = _mix(v, k, d, comps, v.reals("w0", (k,), pos=True))
    q.prob(v.reals("y", (1, d)))
    q.set_weights(v.reals("w", (k,), nonneg=True))
    x = v.reals("x", (n, d))
    _check(v, q, n, k, x, lambda j, i: v.getitem(comps, j).at(v.row(x, i)))


def h_zero_weight_contributes_nothing(v):
    """two mixtures that differ only in a component of zero weight"""
    d, n = v.dim("d"), v.dim("n")
    a, b, c = v.dist("a", d), v.dist("b", d), v.dist("c", d)
    w = v.real("w", pos=True)
    np = v.np
    q1 = _mix(v, 2, d, [a, b], np.array([w, 0.0]))
    q2 = _mix(v, 2, d, [a, c], np.array([w, 0.0]))
    x = v.reals("x", (n, d))
    p1, p2 = q1.prob(x), q2.prob(x)
    v.ensure_eq("density", p1, (n,), lambda i: v.at(p2, i))
    v.ensure_eq("equals the only component of positive weight", p1, (n,), lambda i: a.at(v.row(x, i)))
    l1, l2 = q1.log_prob(x), q2.log_prob(x)
    v.ensure_eq("log-density", l1, (n,), lambda i: v.at(l2, i))
    v.cover("evaluated")


def _normal(v, d, m, s, x):
    """density of a normal with mean m(a) and diagonal covariance s(a) at x(a)"""
    return v.exp(-(d * v.log(2 * v.pi) + v.sum(d, lambda a: v.log(s(a)))
                   + v.sum(d, lambda a: (x(a) - m(a)) * (x(a) - m(a)) / s(a))) / 2)


def _gmm(v, weighted):
    k, d, n = v.dim("k"), v.dim("d"), v.dim("n")
    mu, s = v.reals("mu", (k, d)), v.reals("s", (k, d), pos=True)
    par = {"means": v.copy(mu), "sigmas": v.copy(s), "support": [v.reals("lo", (d,)), v.reals("hi", (d,))]}
    if weighted:
        w = v.reals("w", (k,), pos=True)
        par["weights"] = v.copy(w)
    q = v.cls(P + "CGaussianMixtureModel")(par)
    tot = v.sum(k, lambda j: v.at(w, j)) if weighted else k
    u = lambda j: (v.at(w, j) if weighted else 1) / tot
    x = v.reals("x", (n, d))
    p, lp = q.prob(x), q.log_prob(x)
    mix = lambda i: v.sum(k, lambda j: u(j) * _normal(v, d, lambda a: v.at(mu, j, a), lambda a: v.at(s, j, a), lambda a: v.at(x, i, a)))
    v.ensure_eq("density is the mixture of the given normals", p, (n,), mix)
    v.ensure_shape("one log-density per point", lp, (n,))
    v.ensure("log-density is the logarithm of the density", v.forall(n, lambda i: v.Or(v.underflows(v.at(lp, i)), v.eq(v.at(lp, i), v.log(mix(i))))))
    v.ensure("the dimension is that of the means", v.eq(q.dims, d))
    v.cover("evaluated")


def h_gmm_weighted(v):
    _gmm(v, True)


def h_gmm_unweighted(v):
    _gmm(v, False)
