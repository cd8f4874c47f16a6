"""C08 sampling returns n points of dimension d from the support."""
from contracts.lib import P, KINDS


def _shape(v, kind):
    q, d = KINDS[kind](v)
    n = v.dim("n")
    s = q.sample(n)
    v.ensure_shape("n samples of dimension d", s, (n, d))
    v.cover("sampled")
    return q, d, n, s


def h_normal(v):
    _shape(v, "normal")


def h_uniform(v):
    q, d, n, s = _shape(v, "uniform")
    _inside(v, q, d, n, s)


def h_uniform_one_radius(v):
    q, d, n, s = _shape(v, "uniform_radius")
    _inside(v, q, d, n, s)


def _inside(v, q, d, n, s):
    lo, hi = q.support()[0], q.support()[1]
    v.ensure("samples lie in the box", v.forall(n, lambda i: v.forall(d, lambda k: v.And(
        v.le(v.at(lo, k), v.at(s, i, k)), v.le(v.at(s, i, k), v.at(hi, k))))))


def h_uniform_box(v):
    """the box is centre +- radius"""
    d, n = v.dim("d"), v.dim("n")
    c, r = v.reals("c", (d,)), v.reals("r", (d,), pos=True)
    s = v.cls(P + "CMultivariateUniform")({"center": v.copy(c), "radius": v.copy(r)}).sample(n)
    v.ensure_shape("n samples of dimension d", s, (n, d))
    v.ensure("samples lie in the box", v.forall(n, lambda i: v.forall(d, lambda k: v.le(v.abs(v.at(s, i, k) - v.at(c, k)), v.at(r, k)))))
    v.cover("sampled")


def h_benchden_uniform(v):
    q, d, n, s = _shape(v, "bd_uniform")
    v.ensure("samples lie in [0, 1]", v.forall(n, lambda i: v.And(v.le(0, v.at(s, i, 0)), v.le(v.at(s, i, 0), 1))))


def h_delta(v):
    d, n = v.dim("d"), v.dim("n")
    c = v.reals("c", (d,))
    s = v.cls(P + "CMultivariateDelta")({"center": v.copy(c), "support": [c - 1, c + 1]}).sample(n)
    v.ensure_eq("every sample is the centre", s, (n, d), lambda i, k: v.at(c, k))
    v.cover("sampled")


def h_exponential(v):
    q, d, n, s = _shape(v, "exponential")
    v.ensure("samples lie in the positive orthant", v.forall(n, lambda i: v.forall(d, lambda k: v.le(0, v.at(s, i, k)))))


def h_exponential_replaced_mean(v):
    q, d, n, s = _shape(v, "exponential_moments")
    v.ensure("samples lie in the positive orthant", v.forall(n, lambda i: v.forall(d, lambda k: v.le(0, v.at(s, i, k)))))


def h_benchden_exponential(v):
    q, d, n, s = _shape(v, "bd_exponential")
    v.ensure("samples are positive", v.forall(n, lambda i: v.le(0, v.at(s, i, 0))))


def _deltas(v, k, d):
    """components with a recognisable sample: component j always returns row j of L"""
    L = v.reals("L", (k, d))
    mk = v.cls(P + "CMultivariateDelta")
    return L, v.list(k, lambda j: mk({"center": v.copy(v.row(L, j)), "support": [v.row(L, j) - 1, v.row(L, j) + 1]}))


def _mixture(v, reweigh):
    k, d, n = v.dim("k"), v.dim("d"), v.dim("n")
    L, comps = _deltas(v, k, d)
    w = v.reals("w", (k,), nonneg=True)
    if reweigh:
        q = v.cls(P + "CMixtureModel")({"models": comps, "weights": v.reals("w0", (k,), pos=True), "dims": d, "support": [L[0], L[0]]})
        q.set_weights(v.copy(w))
    else:
        q = v.cls(P + "CMixtureModel")({"models": comps, "weights": v.copy(w), "dims": d, "support": [L[0], L[0]]})
    s = q.sample(n)
    v.ensure_shape("n samples of dimension d", s, (n, d))
    u = q.weights
    v.ensure("every sample comes from a component of positive weight",
             v.forall(n, lambda i: v.exists(k, lambda j: v.And(v.lt(0, v.at(u, j)), v.forall(d, lambda a: v.eq(v.at(s, i, a), v.at(L, j, a)))))))
    for dr in v.draws():
        if dr.kind == "categorical" and dr.args[0] is not None:
            v.ensure_eq("the component is chosen with the mixture's weights", dr.args[0], (k,), lambda j: v.at(q.weights, j))
    v.cover("sampled")


def h_mixture(v):
    _mixture(v, False)


def h_mixture_reweighted(v):
    _mixture(v, True)


def h_mixture_of_any_components(v):
    _shape(v, "mixture")


def h_gmm(v):
    _shape(v, "gmm")


def b_mixture_frequencies(v):
    """bounded: how often each component is used in 3000 samples"""
    np = v.np
    k = int(v.rng.integers(1, 5))
    mk = v.cls(P + "CMultivariateDelta")
    w = v.reals("w", (k,), nonneg=True)
    comps = [mk({"center": np.array([float(j)]), "support": [-1, 9]}) for j in range(k)]
    q = v.cls(P + "CMixtureModel")({"models": comps, "weights": w.copy(), "dims": 1, "support": [-1, 9]})
    p = w / w.sum() if w.sum() > 0 else np.full(k, 1.0 / k)
    s = q.sample(3000)
    v.ensure_shape("shape", s, (3000, 1))
    for j in range(k):
        f = float(np.mean(s[:, 0] == j))
        v.ensure("component used with its weight", bool(abs(f - p[j]) <= 7 * np.sqrt(p[j] * (1 - p[j]) / 3000) + 1e-9))
