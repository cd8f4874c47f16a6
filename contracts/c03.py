"""C03 normal density: closed form, for every dimension, also after the moments are replaced."""
from contracts.lib import P


def _spec(v, d, m, C, x, i):
    iC = v.inv(C)
    return -(d * v.log(2 * v.pi) + v.log(v.det(C)) + v.sum(d, lambda a: v.sum(d, lambda b: (v.at(x, i, a) - v.at(m, a)) * v.at(iC, a, b) * (v.at(x, i, b) - v.at(m, b))))) / 2


def _check(v, q, d, m, C):
    n = v.dim("n")
    x = v.reals("x", (n, d))
    lp = q.log_prob(x)
    v.ensure_eq("log density is the closed form", lp, (n,), lambda i: _spec(v, d, m, C, x, i))
    p = q.prob(x)
    v.ensure_eq("density is the exponential of the closed form", p, (n,), lambda i: v.exp(_spec(v, d, m, C, x, i)))
    v.cover("evaluated")


def h_closed_form(v):
    d = v.dim("d")
    m, C = v.reals("m", (d,)), v.spd("C", d)
    q = v.cls(P + "CMultivariateNormal")({"mean": m, "sigma": C})
    v.ensure("one dimension per mean component", v.eq(q.dims, d))
    _check(v, q, d, m, C)


def h_replaced_moments(v):
    d = v.dim("d")
    m, C = v.reals("m", (d,)), v.spd("C", d)
    q = v.cls(P + "CMultivariateNormal")({"mean": v.reals("m0", (d,)), "sigma": v.spd("C0", d)})
    q.log_prob(v.reals("x0", (2, d)))
    q.set_moments(m, C)
    _check(v, q, d, m, C)


def h_only_the_latest_moments(v):
    """twice replaced, once back and forth, with evaluations in between"""
    d = v.dim("d")
    m, C = v.reals("m", (d,)), v.spd("C", d)
    m1, C1 = v.reals("m1", (d,)), v.spd("C1", d)
    q = v.cls(P + "CMultivariateNormal")({"mean": m, "sigma": C})
    q.set_moments(m1, C1)
    q.prob(v.reals("x0", (1, d)))
    if v.bool("same_mean"):
        q.set_moments(m1, C)
        _check(v, q, d, m1, C)
    else:
        q.set_moments(m, C1)
        _check(v, q, d, m, C1)


def _sampling(v, q, d, m, C):
    n = v.dim("n")
    k = len(v.draws())
    s = q.sample(n)
    v.ensure_shape("n samples of dimension d", s, (n, d))
    for dr in v.draws()[k:]:
        if dr.kind == "mvn":
            v.ensure_eq("samples use the current mean", dr.args[0], (d,), lambda i: v.at(m, i))
            v.ensure_eq("samples use the current covariance", dr.args[1], (d, d), lambda i, j: v.at(C, i, j))
    v.cover("sampled")


def h_sampling(v):
    d = v.dim("d")
    m, C = v.reals("m", (d,)), v.spd("C", d)
    q = v.cls(P + "CMultivariateNormal")({"mean": m, "sigma": C})
    _sampling(v, q, d, m, C)


def h_sampling_replaced_moments(v):
    d = v.dim("d")
    m, C = v.reals("m", (d,)), v.spd("C", d)
    q = v.cls(P + "CMultivariateNormal")({"mean": v.reals("m0", (d,)), "sigma": v.spd("C0", d)})
    q.sample(2)
    q.set_moments(m, C)
    _sampling(v, q, d, m, C)


def h_rejects_bad_covariance_shape(v):
    d, a, b = v.dim("d"), v.dim("a"), v.dim("b")
    q = v.cls(P + "CMultivariateNormal")({"mean": v.reals("m0", (d,)), "sigma": v.spd("C0", d)})
    v.assume(v.Not(v.And(v.eq(a, d), v.eq(b, d))))
    v.ensure_raises("a covariance that is not d x d is rejected", lambda: q.set_moments(v.reals("m", (d,)), v.reals("C", (a, b))))
    v.cover("rejected")


def h_rejects_nonpositive_determinant(v):
    d = v.dim("d")
    q = v.cls(P + "CMultivariateNormal")({"mean": v.reals("m0", (d,)), "sigma": v.spd("C0", d)})
    C = v.reals("C", (d, d))
    v.assume(v.le(v.det(C), -1e-3 if not v.symbolic else 0))
    v.ensure_raises("a covariance without positive determinant is rejected", lambda: q.set_moments(v.reals("m", (d,)), C))
    x = v.reals("x", (1, d))
    v.cover("rejected")


def h_constructor_rejects(v):
    d = v.dim("d")
    C = v.reals("C", (d, d))
    v.assume(v.le(v.det(C), -1e-3 if not v.symbolic else 0))
    v.ensure_raises("the constructor rejects a covariance without positive determinant",
                    lambda: v.cls(P + "CMultivariateNormal")({"mean": v.reals("m", (d,)), "sigma": C, "support": [0, 1]}))
    v.cover("rejected")


def b_sample_moments(v):
    """bounded: sample mean and covariance of 4000 draws (whatever generator the code uses)"""
    np = v.np
    d = int(v.rng.integers(1, 4))
    m, C = v.reals("m", (d,)), v.spd("C", d)
    q = v.cls(P + "CMultivariateNormal")({"mean": v.reals("m0", (d,)), "sigma": v.spd("C0", d)})
    q.set_moments(m, C)
    s = q.sample(4000)
    v.ensure_shape("shape", s, (4000, d))
    sd = np.sqrt(np.diag(C))
    v.ensure("sample mean", bool(np.all(np.abs(s.mean(axis=0) - m) < 7 * sd / np.sqrt(4000))))
    e = (s - m).T @ (s - m) / 4000
    v.ensure("sample covariance", bool(np.all(np.abs(e - C) < 7 * np.sqrt(2.0 / 4000) * np.outer(sd, sd))))
