"""C28 grid, egg-box and random-mixture generators respect their box."""
from contracts.lib import P
BASE, MISC = "ais_benchmarks.sampling_methods.base", "ais_benchmarks.utils.misc"


def h_hms(v):
    t = v.real("seconds", nonneg=True)
    h, m, s = v.mod(MISC).time_to_hms(t)
    v.ensure("adds up", v.eq(h * 3600 + m * 60 + s, t, tol=1e-9))
    v.ensure("minutes below 60", v.And(v.le(0, m), v.lt(m, 60)))
    v.ensure("seconds below 60", v.And(v.le(0, s), v.lt(s, 60)))
    v.ensure("whole hours", v.And(v.le(0, h), v.eq(v.floor(h), h)))
    v.ensure("whole minutes", v.eq(v.floor(m), m))
    v.cover("split")


def box(v, d):
    lo = v.reals("lo", (d,))
    return lo, lo + v.reals("width", (d,), pos=True)


def resolution(v, lo, hi, name="resolution"):
    r = v.real(name, pos=True)
    if not v.symbolic:
        while v.np.prod(v.np.maximum(1, (hi - lo) / r)) > 3000:
            r = r * 2
    return r


def h_grid(v):
    d = v.pick("d", [1, 2, 3])
    lo, hi = box(v, d)
    res = resolution(v, lo, hi)
    g, dims, shape = v.mod(BASE).make_grid(lo, hi, res)
    want = [v.floor((v.at(hi, k) - v.at(lo, k)) / res) for k in range(d)]
    n = [v.If(v.le(1, w), w, 1) for w in want]
    v.ensure("one axis per dimension", v.len(dims) == d and v.len(shape) == d)
    total = 1
    for k in range(d):
        a = dims[k]
        v.ensure("values per axis", v.eq(v.len(a), n[k]))
        v.ensure("reported shape", v.eq(v.at(shape, k), n[k]))
        v.ensure("equally spaced from the lower to the upper limit", v.forall(v.len(a), lambda i: v.eq(
            v.at(a, i) * v.If(v.le(n[k], 1), 1, n[k] - 1), v.at(lo, k) * v.If(v.le(n[k], 1), 1, n[k] - 1) + i * (v.at(hi, k) - v.at(lo, k)), tol=1e-9)))
        total = total * n[k]
    v.ensure_shape("every combination once: number of points", g, (v.len(dims[0]) * (v.len(dims[1]) if d > 1 else 1) * (v.len(dims[2]) if d > 2 else 1), d))
    v.cover("grid")


def b_grid(v):
    """every combination of the axes' values exactly once"""
    d = v.pick("d", [1, 2, 3, 4])
    lo, hi = box(v, d)
    res = resolution(v, lo, hi)
    g, dims, shape = v.mod(BASE).make_grid(lo, hi, res)
    n = [max(1, int((hi[k] - lo[k]) / res)) for k in range(d)]
    v.ensure("reported shape", [int(x) for x in shape] == n)
    import itertools
    v.ensure("every combination exactly once", sorted(map(tuple, v.np.asarray(g).tolist())) == sorted(itertools.product(*[v.np.asarray(a).tolist() for a in dims])))


def check(v, q, d, K, lo, hi, spread):
    """spread(k, s): is s a requested spread in dimension k"""
    v.ensure("one component per mean", v.eq(v.len(q.models), K))
    mean = lambda j, k: v.at(v.getitem(q.models, j).loc, k)
    cov = lambda j, a, b: v.at(v.getitem(q.models, j).scale, a, b)
    s = q.support()
    each = lambda f: v.forall(K, lambda j: v.forall(d, lambda k: f(j, k)))
    v.ensure("means inside the box", each(lambda j, k: v.And(v.le(v.at(lo, k), mean(j, k)), v.le(mean(j, k), v.at(hi, k)))))
    v.ensure("requested spreads", each(lambda j, k: spread(k, cov(j, k, k))))
    v.ensure("no correlations", each(lambda j, k: v.forall(d, lambda l: v.Or(v.eq(l, k), v.eq(cov(j, k, l), 0)))))
    tol = 0 if v.symbolic else 1e-9
    v.ensure("support reaches five spreads below every mean", each(lambda j, k: v.le(v.at(s[0], k), mean(j, k) - 5 * cov(j, k, k) + tol)))
    v.ensure("support reaches five spreads above every mean", each(lambda j, k: v.le(mean(j, k) + 5 * cov(j, k, k) - tol, v.at(s[1], k))))
    for w in (q.weights, q.gmm.weights):
        v.ensure("one weight per component", v.eq(v.len(w), K))
        v.ensure("weights not negative", v.forall(K, lambda j: v.le(0, v.at(w, j))))
        v.ensure("weights sum to one", v.eq(v.sum(K, lambda j: v.at(w, j)), 1, tol=1e-9))
    v.cover("mixture")


def h_random_mixture(v):
    d, K = v.dim("d"), v.dim("K")
    lo = v.reals("lo", (d,))
    smin = v.reals("smin", (d,), pos=True)
    smax = smin + v.reals("sextra", (d,), nonneg=True)
    hi = lo + 10 * smax + v.reals("extra", (d,), pos=True)
    q = v.mod(MISC).generateRandomGMM(lo, hi, K, smin, smax)
    for r in v.draws():
        if not r.loops and v.ndim(r.out) == 1:
            # an event of probability zero
            z = v.sum(v.len(r.out), lambda j: v.at(r.out, j))
            v.assume(v.Not(v.eq(z, 0)))
    check(v, q, d, K, lo, hi, lambda k, s: v.And(v.le(v.at(smin, k), s), v.le(s, v.at(smax, k))))


def h_egg_box(v):
    """for every grid inside the box (as make_grid gives)"""
    d, K = v.dim("d"), v.dim("K")
    lo, hi = box(v, d)
    sigma = v.reals("sigma", (d,), pos=True) if v.bool("sigma_per_dimension") else v.real("sigma1", pos=True)
    delta = resolution(v, lo, hi, "delta")
    if v.symbolic:
        grid = v.reals("grid", (K, d), lo=lo, hi=hi)
        seen = []
        v.setmod(v.mod(MISC), "make_grid", lambda a, b, r: (seen.append((a, b, r)), (grid, None, None))[1])
    else:
        grid = v.mod(BASE).make_grid(lo, hi, delta)[0]
        K = len(grid)
    q = v.mod(MISC).generateEggBoxGMM(lo, hi, delta, sigma)
    if v.symbolic:
        v.ensure("one grid over the box at the given resolution", len(seen) == 1)
        v.ensure("grid over the box", v.And(v.eq(seen[0][2], delta), v.forall(d, lambda k: v.And(
            v.eq(v.at(seen[0][0], k), v.at(lo, k)), v.eq(v.at(seen[0][1], k), v.at(hi, k))))))
    v.ensure("one mean per grid point", v.forall(K, lambda j: v.forall(d, lambda k: v.eq(v.at(v.getitem(q.models, j).loc, k), v.at(grid, j, k)))))
    check(v, q, d, K, lo, hi, lambda k, s: v.eq(s, v.at(sigma, k) if v.ndim(sigma) else sigma))
