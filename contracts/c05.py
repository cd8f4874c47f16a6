"""C05 exponential, BenchDen and banana densities against their definitions."""
from contracts.lib import P


def _exponential(v, q, d, m):
    n = v.dim("n")
    x = v.reals("x", (n, d))
    p, lp = q.prob(x), q.log_prob(x)
    v.ensure_shape("one value per point", p, (n,))
    v.ensure_shape("one log value per point", lp, (n,))
    ins = lambda i: v.forall(d, lambda k: v.lt(0, v.at(x, i, k)))
    v.ensure("density on the positive orthant", v.forall(n, lambda i: v.Implies(ins(i), v.eq(
        v.at(p, i), v.prod(d, lambda k: v.exp(-v.at(x, i, k) / v.at(m, k)) / v.at(m, k))))))
    v.ensure("log-density on the positive orthant", v.forall(n, lambda i: v.Implies(ins(i), v.eq(
        v.at(lp, i), v.sum(d, lambda k: -v.at(x, i, k) / v.at(m, k) - v.log(v.at(m, k)))))))
    v.ensure("zero density elsewhere", v.forall(n, lambda i: v.Implies(v.Not(ins(i)), v.eq(v.at(p, i), 0))))
    v.ensure("log-density minus infinity elsewhere", v.forall(n, lambda i: v.Implies(v.Not(ins(i)), v.eq(v.at(lp, i), -v.inf))))
    v.cover("evaluated")


def h_exponential(v):
    d = v.dim("d")
    m = v.reals("m", (d,), pos=True)
    _exponential(v, v.cls(P + "CMultivariateExponential")({"mean": v.copy(m)}), d, m)


def h_exponential_replaced_mean(v):
    d = v.dim("d")
    m = v.reals("m", (d,), pos=True)
    q = v.cls(P + "CMultivariateExponential")({"mean": v.reals("m0", (d,), pos=True)})
    q.set_moments(v.copy(m))
    _exponential(v, q, d, m)


def h_benchden_exponential(v):
    q = v.cls(P + "BenchDenExponential")(dict())
    _exponential(v, q, 1, v.vec(1, lambda i: 1))


def _one(v, name, dens, logdens, positive=False):
    q = v.cls(P + name)(dict())
    n = v.dim("n")
    x = v.reals("x", (n, 1))
    p, lp = q.prob(x), q.log_prob(x)
    v.ensure_shape("one value per point", p, (n,))
    v.ensure_shape("one log value per point", lp, (n,))
    ins = (lambda i: v.lt(0, v.at(x, i, 0))) if positive else (lambda i: True)
    v.ensure("density", v.forall(n, lambda i: v.Implies(ins(i), v.eq(v.at(p, i), dens(v.at(x, i, 0))))))
    v.ensure("log-density", v.forall(n, lambda i: v.Implies(ins(i), v.eq(v.at(lp, i), logdens(v.at(x, i, 0))))))
    if positive:
        v.ensure("zero density elsewhere", v.forall(n, lambda i: v.Implies(v.Not(ins(i)), v.eq(v.at(p, i), 0))))
        v.ensure("log-density minus infinity elsewhere", v.forall(n, lambda i: v.Implies(v.Not(ins(i)), v.eq(v.at(lp, i), -v.inf))))
    v.cover("evaluated")


def h_maxwell(v):
    pos = lambda x: v.If(v.lt(0, x), x, 1)
    _one(v, "BenchDenMaxwell", lambda x: x * v.exp(-x * x / 2), lambda x: v.log(pos(x)) - x * x / 2, True)


def h_laplace(v):
    _one(v, "BenchDenLaplace", lambda x: v.exp(-v.abs(x)) / 2, lambda x: -v.abs(x) - v.log(2))


def h_pareto(v):
    _one(v, "BenchDenSymmetricPareto", lambda x: 1 / (4 * v.sqrt(1 + v.abs(x)) * (1 + v.abs(x))),
         lambda x: -v.log(4) - 1.5 * v.log(1 + v.abs(x)))


def h_benchden_uniform(v):
    q = v.cls(P + "BenchDenUniform")(dict())
    n = v.dim("n")
    x = v.reals("x", (n, 1))
    p, lp = q.prob(x), q.log_prob(x)
    v.ensure_shape("one value per point", p, (n,))
    xi = lambda i: v.at(x, i, 0)
    ins = lambda i: v.And(v.lt(0, xi(i)), v.lt(xi(i), 1))
    outs = lambda i: v.Or(v.lt(xi(i), 0), v.lt(1, xi(i)))
    v.ensure("one on (0, 1)", v.forall(n, lambda i: v.Implies(ins(i), v.And(v.eq(v.at(p, i), 1), v.eq(v.at(lp, i), 0)))))
    v.ensure("zero outside [0, 1]", v.forall(n, lambda i: v.Implies(outs(i), v.And(v.eq(v.at(p, i), 0), v.eq(v.at(lp, i), -v.inf)))))
    v.ensure("dimension one", v.eq(q.dims, 1))
    v.cover("evaluated")


def h_banana(v):
    q = v.cls(P + "Banana2D")(dict())
    n = v.dim("n")
    x = v.reals("x", (n, 2))
    p, lp = q.prob(x), q.log_prob(x)

    def spec(i):
        x1, x2 = v.at(x, i, 0), v.at(x, i, 1)
        e = x2 + 0.03 * (x1 * x1 - 100)
        return -(0.03 * x1 * x1 + e * e) / 2
    v.ensure_eq("density", p, (n,), lambda i: v.exp(spec(i)))
    v.ensure_eq("log-density", lp, (n,), spec)
    v.cover("evaluated")
