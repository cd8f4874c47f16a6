"""C04 uniform and delta: densities, supports and region integrals."""
from contracts.lib import P


def _mk(v, kind):
    d = v.dim("d") if kind != "bd" else 1
    if kind == "bd":
        q = v.cls(P + "BenchDenUniform")(dict())
        return q, 1, (lambda k: 0), (lambda k: 1)
    c = v.reals("c", (d,))
    r = v.reals("r", (1 if kind == "one" else d,), pos=True)
    q = v.cls(P + "CMultivariateUniform")({"center": v.copy(c), "radius": v.copy(r)})
    rk = (lambda k: v.at(r, 0)) if kind == "one" else (lambda k: v.at(r, k))
    return q, d, (lambda k: v.at(c, k) - rk(k)), (lambda k: v.at(c, k) + rk(k))


def _density(v, kind):
    q, d, lo, hi = _mk(v, kind)
    n = v.dim("n")
    x = v.reals("x", (n, d))
    p, lp = q.prob(x), q.log_prob(x)
    vol = v.prod(d, lambda k: hi(k) - lo(k))
    inside = lambda i: v.forall(d, lambda k: v.And(v.lt(lo(k), v.at(x, i, k)), v.lt(v.at(x, i, k), hi(k))))
    outside = lambda i: v.exists(d, lambda k: v.Or(v.lt(v.at(x, i, k), lo(k)), v.lt(hi(k), v.at(x, i, k))))
    v.ensure_shape("one value per point", p, (n,))
    v.ensure_shape("one log value per point", lp, (n,))
    v.ensure("density inside the box is one over its volume", v.forall(n, lambda i: v.Implies(inside(i), v.eq(v.at(p, i) * vol, 1))))
    v.ensure("density outside the box is zero", v.forall(n, lambda i: v.Implies(outside(i), v.eq(v.at(p, i), 0))))
    v.ensure("log-density inside the box", v.forall(n, lambda i: v.Implies(inside(i), v.eq(v.at(lp, i), -v.log(vol)))))
    v.ensure("log-density outside the box", v.forall(n, lambda i: v.Implies(outside(i), v.eq(v.at(lp, i), -v.inf))))
    s = q.support()
    v.ensure_shape("lower and upper limits of the support", s, (2, d))
    v.ensure_eq("lower end of the support", s[0], (d,), lo)
    v.ensure_eq("upper end of the support", s[1], (d,), hi)
    v.cover("evaluated")


def h_uniform_density(v):
    _density(v, "radii")


def h_uniform_density_one_radius(v):
    _density(v, "one")


def h_benchden_uniform_density(v):
    _density(v, "bd")


def _integral(v, kind):
    q, d, lo, hi = _mk(v, kind)
    a = v.reals("a", (d,))
    b = v.reals("b", (d,))
    if not v.symbolic:
        a, b = v.np.minimum(a, b), v.np.maximum(a, b) + 0.125 * (a == b)
    v.assume(v.forall(d, lambda k: v.lt(v.at(a, k), v.at(b, k))))
    I = q.integral(a, b)
    if v.ndim(I) == 1:
        v.ensure_shape("a single value", I, (1,))
        I = v.at(I, 0)
    vol = v.prod(d, lambda k: hi(k) - lo(k))
    mx = lambda s, t: v.If(v.le(t, s), s, t)
    mn = lambda s, t: v.If(v.le(s, t), s, t)
    side = lambda k: mx(0, mn(v.at(b, k), hi(k)) - mx(v.at(a, k), lo(k)))
    overlap = v.prod(d, side)
    v.ensure("integral is the overlap divided by the volume", v.eq(I * vol, overlap))
    disjoint = v.exists(d, lambda k: v.Or(v.lt(v.at(b, k), lo(k)), v.lt(hi(k), v.at(a, k))))
    covers = v.forall(d, lambda k: v.And(v.le(v.at(a, k), lo(k)), v.le(hi(k), v.at(b, k))))
    v.lemma_prod_mono("each side of the overlap is at most that of the box", d, side, lambda k: hi(k) - lo(k), scale=1 / vol)
    v.lemma_prod_eq("a region containing the box overlaps it completely", d, side, lambda k: hi(k) - lo(k), covers, scale=1 / vol)
    v.ensure("zero over a disjoint region", v.Implies(disjoint, v.eq(I, 0)))
    v.ensure("one over a region containing the box", v.Implies(covers, v.eq(I, 1)))
    v.ensure("never negative", v.le(0, I))
    v.ensure("at most one", v.le(I, 1))
    v.cover("integrated")


def h_uniform_integral(v):
    _integral(v, "radii")


def h_uniform_integral_one_radius(v):
    _integral(v, "one")


def h_benchden_uniform_integral(v):
    _integral(v, "bd")


def _delta(v):
    d = v.dim("d")
    c = v.reals("c", (d,))
    return v.cls(P + "CMultivariateDelta")({"center": v.copy(c), "support": [c - 1, c + 1]}), d, c


def h_delta_density(v):
    q, d, c = _delta(v)
    n = v.dim("n")
    x = v.reals("x", (n, d))
    p, lp = q.prob(x), q.log_prob(x)
    v.ensure_shape("one value per point", p, (n,))
    v.ensure_shape("one log value per point", lp, (n,))
    # "away from the centre": further than floating-point closeness (relative 1e-5, absolute 1e-8) in some coordinate
    far = lambda i: v.exists(d, lambda k: v.lt(1e-7 + 1.01e-5 * (v.abs(v.at(x, i, k)) + v.abs(v.at(c, k))), v.abs(v.at(x, i, k) - v.at(c, k))))
    at = lambda i: v.forall(d, lambda k: v.eq(v.at(x, i, k), v.at(c, k)))
    v.ensure("zero away from the centre", v.forall(n, lambda i: v.Implies(far(i), v.eq(v.at(p, i), 0))))
    v.ensure("log-density minus infinity away from the centre", v.forall(n, lambda i: v.Implies(far(i), v.eq(v.at(lp, i), -v.inf))))
    v.ensure("positive at the centre", v.forall(n, lambda i: v.Implies(at(i), v.lt(0, v.at(p, i)))))
    v.cover("evaluated")


def h_delta_integral(v):
    q, d, c = _delta(v)
    a, b = v.reals("a", (d,)), v.reals("b", (d,))
    if not v.symbolic:
        a, b = v.np.minimum(a, b), v.np.maximum(a, b) + 0.125 * (a == b)
    v.assume(v.forall(d, lambda k: v.lt(v.at(a, k), v.at(b, k))))
    I = q.integral(a, b)
    if v.ndim(I) == 1:
        v.ensure_shape("a single value", I, (1,))
        I = v.at(I, 0)
    inside = v.forall(d, lambda k: v.And(v.lt(v.at(a, k), v.at(c, k)), v.lt(v.at(c, k), v.at(b, k))))
    v.ensure("one if the centre is strictly inside, else zero", v.eq(I, v.If(inside, 1, 0)))
    v.cover("integrated")
