"""Shared builders for the contracts: instances of the real distribution classes with arbitrary parameters."""
P = "ais_benchmarks.distributions."
D = P + "distributions."


def normal(v, t="", reparam=False):
    d = v.dim("d" + t)
    q = v.cls(P + "CMultivariateNormal")({"mean": v.reals("m" + t, (d,)), "sigma": v.spd("C" + t, d)})
    if reparam:
        q.set_moments(v.reals("m2" + t, (d,)), v.spd("C2" + t, d))
    return q, d


def uniform(v, t=""):
    d = v.dim("d" + t)
    q = v.cls(P + "CMultivariateUniform")({"center": v.reals("c" + t, (d,)), "radius": v.reals("r" + t, (d,), pos=True)})
    return q, d


def uniform1(v, t=""):
    """one radius for every dimension"""
    d = v.dim("d" + t)
    q = v.cls(P + "CMultivariateUniform")({"center": v.reals("c" + t, (d,)), "radius": v.reals("r" + t, (1,), pos=True)})
    return q, d


def delta(v, t=""):
    d = v.dim("d" + t)
    c = v.reals("c" + t, (d,))
    q = v.cls(P + "CMultivariateDelta")({"center": c, "support": [c - 1, c + 1]})
    return q, d


def exponential(v, t="", reparam=False):
    d = v.dim("d" + t)
    q = v.cls(P + "CMultivariateExponential")({"mean": v.reals("m" + t, (d,), pos=True)})
    if reparam:
        q.set_moments(v.reals("m2" + t, (d,), pos=True))
    return q, d


def mixture(v, t="", reweigh=False):
    d, k = v.dim("d" + t), v.dim("K" + t)
    models = v.dists("comp" + t, k, d)
    q = v.cls(P + "CMixtureModel")({"models": models, "weights": v.reals("w" + t, (k,), pos=True) if reweigh else v.reals("w" + t, (k,), special="nm"), "dims": d,
                                    "support": [v.reals("lo" + t, (d,)), v.reals("hi" + t, (d,))]})
    if reweigh:
        q.set_weights(v.reals("w2" + t, (k,), special="nm"))
    return q, d


def gmm(v, t=""):
    d, k = v.dim("d" + t), v.dim("K" + t)
    p = {"means": v.reals("mu" + t, (k, d)), "sigmas": v.reals("s" + t, (k, d), pos=True),
         "support": [v.reals("lo" + t, (d,)), v.reals("hi" + t, (d,))]}
    if v.bool("weighted" + t):
        p["weights"] = v.reals("w" + t, (k,), special="nm")
    return v.cls(P + "CGaussianMixtureModel")(p), d


def benchden(name):
    def f(v, t=""):
        return v.cls(P + name)(dict()), 1
    return f


def banana(v, t=""):
    return v.cls(P + "Banana2D")(dict()), 2


def user(v, which, t=""):
    """a distribution given by a user's likelihood and / or log-likelihood function"""
    d = v.dim("d" + t)
    f = v.dist("user" + t, d)
    base = v.cls(D + "CDistribution")
    cls = type("CUser", (base,), {"condition": lambda self, d: None, "marginal": lambda self, k: None})
    p = {"type": "user", "family": "user", "dims": d, "support": [v.reals("lo" + t, (d,)), v.reals("hi" + t, (d,))],
         "likelihood_f": f.prob if which in ("lik", "both") else None,
         "loglikelihood_f": f.log_prob if which in ("log", "both") else None}
    return cls(p), d


KINDS = {
    "normal": normal, "normal_moments": lambda v, t="": normal(v, t, True), "uniform": uniform, "uniform_radius": uniform1,
    "delta": delta, "exponential": exponential, "exponential_moments": lambda v, t="": exponential(v, t, True),
    "mixture": mixture, "mixture_weights": lambda v, t="": mixture(v, t, True), "gmm": gmm,
    "bd_uniform": benchden("BenchDenUniform"), "bd_exponential": benchden("BenchDenExponential"),
    "bd_maxwell": benchden("BenchDenMaxwell"), "bd_laplace": benchden("BenchDenLaplace"),
    "bd_pareto": benchden("BenchDenSymmetricPareto"), "banana": banana,
    "user_lik": lambda v, t="": user(v, "lik", t), "user_log": lambda v, t="": user(v, "log", t),
    "user_both": lambda v, t="": user(v, "both", t),
}


def each(ns, kinds, body, prefix="h_"):
    """one harness per kind of distribution"""
    for k in kinds:
        def h(v, k=k):
            q, d = KINDS[k](v)
            body(v, k, q, d)
        h.__name__ = prefix + k
        ns[prefix + k] = h


def points(v, cls):
    """compute evaluates the metric at points drawn from p's support"""
    d, n = v.dim("d"), v.dim("n")
    lo, w = v.reals("lo", (d,)), v.reals("w", (d,), pos=True)
    p, q = v.dist("p", d, support=[lo, lo + w]), v.dist("q", d)
    m = v.cls(cls)()
    r = m.compute(p=p, q=q, nsamples=n)
    ep, eq = [[e for e in v.events("prob") if e[1] is z] for z in (p, q)]
    v.ensure("each density is evaluated on one set of points", len(ep) == 1 and len(eq) == 1)
    x = ep[0][2]
    v.ensure_shape("as many points as asked, of p's dimension", x, (n, d))
    v.ensure_eq("both densities are evaluated at the same points", eq[0][2], (n, d), lambda i, k: v.at(x, i, k))
    v.ensure("the points lie in p's support", v.forall(n, lambda i: v.forall(d, lambda k: v.And(
        v.le(v.at(lo, k), v.at(x, i, k)), v.le(v.at(x, i, k), v.at(lo, k) + v.at(w, k))))))
    v.ensure("the returned value is stored", v.eq(m.value, r))
    s = v.cls(cls)().compute_from_samples(p, q, x)
    v.ensure("the metric is evaluated at these points", v.Or(v.eq(r, s), v.And(v.isnan(r), v.isnan(s))))
    v.cover("computed")
