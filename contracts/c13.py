"""C13 importance weights are target density over proposal density."""
from contracts import samplers as Z
from contracts import zoo as Y


def _proportional(v, label, W, t, q):
    """W is proportional to t / q, up to rounding"""
    np = v.np
    W, t, q = (np.asarray(a, dtype=float).reshape(-1) for a in (W, t, q))
    v.assume(bool(np.all(np.isfinite(W)) and np.all(q > 1e-280) and np.all(t > 0)))
    r = np.log(t) - np.log(q)
    v.assume(bool(np.ptp(r) < 500))     # beyond that a weight vanishes next to the others
    v.ensure(label, bool(np.all(W > 0)) and np.allclose(np.log(W) - np.log(W).max(), r - r.max(), rtol=1e-6, atol=1e-6))


def _mixture(kind):
    def b(v):
        import copy
        np = v.np
        z = Y.make(v, kind)
        m = z.m
        for i in range(int(v.pick("batches", [1, 2, 3]))):
            if i and v.pick("reset%d" % i, [0, 0, 1]):
                Y.restart(z)
            old = copy.deepcopy(m.proposals)
            alpha = np.array(m.wproposals) if kind == "pmc" else np.ones(len(old)) / len(old)
            v.assume(all(np.linalg.cond(q.scale) < 1e7 and np.linalg.det(q.scale) > 1e-9 for q in old))
            n0 = len(m.samples)
            S, W = m.importance_sample(z.t, n0 + 1, timeout=z.timeout)
            S, W = np.array(S)[n0:], np.array(W)[n0:]
            q = sum(a * np.asarray(c.prob(S)).reshape(-1) for a, c in zip(alpha, old))
            _proportional(v, "weights are proportional to target density over mixture density", W, [z.t.at(s) for s in S], q)
        v.cover("sampled")
    return b


def _drawn_from(z, x):
    """the distribution a sample was drawn from"""
    for q, rows in reversed(z.watch.rows):
        for r in rows:
            if z.v.np.array_equal(r, x):
                return q
    return None


def b_tree_pyramid(v):
    """simple tree pyramid: the sampled cell's own distribution"""
    np = v.np
    par = dict(method="simple", resampling="none", kernel=v.pick("kernel", ["haar", "normal"]), ess_target=v.pick("ess", [None, 2.0, 0.9, 0.3]), n_min=int(v.pick("n_min", [1, 2, 5])),
               parallel_samples=int(v.pick("par", [1, 4, 100])))
    z = Y.make(v, "tp", tp=par)
    for i in range(int(v.pick("rounds", [1, 2]))):
        Y.restart(z)
        z.watch.rows.clear()
        S, W = z.m.importance_sample(z.t, int(v.pick("n%d" % i, [1, 3, 9, 30])), timeout=z.timeout)
        qs = [_drawn_from(z, s) for s in S]
        v.ensure("every sample was drawn from a cell's distribution", all(q is not None for q in qs))
        _proportional(v, "weights are proportional to target density over the cell's density", W, [z.t.at(s) for s in S],
                      [np.asarray(q.prob(np.reshape(s, (1, -1)))).reshape(-1)[0] for q, s in zip(qs, S)])
        v.cover("sampled")


def b_hidaisee(v):
    """HiDaisee: the density of the cell that holds the sample"""
    np = v.np
    z = Y.make(v, "hidaisee")

    def body(S, W, n, out, prev):
        T = z.m.T
        cells = [T.nodes[i] for i in T.leaves]
        for s, w in zip(S, W):
            near = [float(z.t.at(s) * np.prod(2 * np.asarray(c.radius))) for c in cells if np.all(np.abs(s - c.center) <= c.radius * (1 + 1e-9) + 1e-12)]
            v.ensure("every sample lies in a cell", len(near) > 0)
            v.ensure("weight is target density over the cell's density", any(np.isclose(w, e, rtol=1e-6, atol=0) for e in near))
    Y.history(z, body)


def _weights(c):
    v, m, t, n0, n1 = c["v"], c["m"], c["t"], c["pre"]["n"], c["post"]["n"]
    S, W = m.samples, m.weights
    x0 = v.row(S, n0)
    mix0, t0, w0 = Z.mixture_before(c, x0), t.at(x0), v.at(W, n0)

    def ok(i):
        x = v.row(S, n0 + i)
        return v.eq(v.at(W, n0 + i) * Z.mixture_before(c, x) * t0, w0 * mix0 * t.at(x))
    return [("weights are proportional to target density over mixture density", v.forall(n1 - n0, ok))]




def h_dm_ais(v):
    if not v.symbolic:
        return _mixture("dm")(v)
    Z.ais_batch(v, "dm", _weights)


def h_layered_ais(v):
    if not v.symbolic:
        return _mixture("lais")(v)
    Z.ais_batch(v, "lais", _weights)


def h_mixture_pmc(v):
    if not v.symbolic:
        return _mixture("pmc")(v)
    Z.ais_batch(v, "pmc", _weights)
