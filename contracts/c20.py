"""C20 nested samplers replace the worst point and weight by prior-mass shells."""
from contracts import zoo as Y


def _weights(z, S, W):
    v, np, N = z.v, z.v.np, z.par["N"]
    shell = np.array([1.0 if i == 0 else np.exp(-(i - 1) / N) - np.exp(-i / N) for i in range(len(S))])
    e = np.array([z.t.at(s) for s in S]) * shell
    v.ensure("one weight per sample", len(W) == len(S))
    if e.sum() > 0:
        v.ensure("weights are density times prior-mass shell, normalised", np.allclose(W, e / e.sum(), rtol=1e-8, atol=1e-12))


def _step(z, before, after, members, s, allowed):
    """one step: the sample s output, one point of the given live points replaced"""
    v, np = z.v, z.v.np
    dens = np.array([z.t.at(p) for p in before])
    lo = min(dens[i] for i in members)
    cand = [i for i in members if np.array_equal(before[i], s)]
    v.ensure("the sample is a live point", len(cand) > 0)
    v.ensure("the sample has the lowest density of the live points", v.eq(dens[cand[0]], lo) is not False)
    ch = [i for i in members if not np.array_equal(before[i], after[i])]
    v.ensure("only the point that was output is replaced", ch == [] or (len(ch) == 1 and ch[0] in cand))
    if ch:
        v.ensure("the new point's density is not lower, unless time or volume ran out", allowed or v.le(lo, z.t.at(after[ch[0]])) is not False)


def b_nested_steps(v):
    z = Y.make(v, "nested")
    np, m = v.np, z.m
    n = 0
    for i in range(int(v.pick("steps", [1, 4, 10]))):
        if i and v.pick("reset%d" % i, [0, 0, 0, 0, 1]):
            Y.restart(z)
            n = 0
        before, t0 = np.array(m.live_points), z.clk.t
        S, W = m.importance_sample(z.t, n + 1, timeout=z.timeout)
        v.ensure("one sample more", len(S) == n + 1)
        _step(z, before, np.array(m.live_points), range(len(before)), S[-1], z.clk.t - t0 >= z.timeout)
        _weights(z, S, W)
        n += 1
    v.cover("sampled")


def b_nested(v):
    z = Y.make(v, "nested")
    np, m = v.np, z.m
    first = []

    def body(S, W, n, out, prev):
        _weights(z, S, W)
        dens = np.array([z.t.at(s) for s in S])
        if not out:
            new = dens[len(prev):]
            v.ensure("densities of one run never fall", bool(np.all(np.diff(new) >= -1e-12)))
            live = np.array([z.t.at(s) for s in m.live_points])
            v.ensure("live points are at least as dense as the samples output", not len(new) or bool(np.all(live >= new[-1] - 1e-12)))
    Y.history(z, body)


def b_nested_zero(v):
    """targets that are zero on part of the space"""
    z = Y.make(v, "nested", positive=False)
    Y.history(z, lambda S, W, n, out, prev: _weights(z, S, W))


def b_multinested(v):
    z = Y.make(v, "multinested")
    np, m = v.np, z.m
    n = 0
    for i in range(int(v.pick("steps", [1, 3]))):
        if i and v.pick("reset%d" % i, [0, 0, 0, 1]):
            Y.restart(z)
            n = 0
        before, t0 = np.array(m.live_points), z.clk.t
        S, W = m.importance_sample(z.t, n + 1, timeout=z.timeout)
        after = np.array(m.live_points)
        _weights(z, S, W)
        k = len(m.ellipsoids)
        v.ensure("one sample for every cluster", len(S) == n + k)
        for c, e in enumerate(m.ellipsoids):
            idx = [j for j in range(len(before)) if e.indices[j]]
            small = not e.volume > z.par["converged_radius"] ** z.d
            _step(z, before, after, idx, S[n + c], small or z.clk.t - t0 >= z.timeout)
        n = len(S)
    v.cover("sampled")


def b_multinested_requests(v):
    z = Y.make(v, "multinested", positive=v.pick("pos", [True, False]))
    Y.history(z, lambda S, W, n, out, prev: _weights(z, S, W), small=True)
