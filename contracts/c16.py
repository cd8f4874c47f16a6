"""C16 reset returns a sampler to its initial state."""
from contracts import zoo as Y


def _same(np, a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def _state(z, m):
    """what can be seen of the state of a sampler: proposals, tree, live points, chain state, model"""
    np, s = z.v.np, {}
    for k in ("samples", "weights", "live_points", "current_sample", "wproposals", "L", "Z"):
        if getattr(m, k, None) is not None:
            s[k] = np.array(getattr(m, k), dtype=float)
    if hasattr(m, "proposals"):
        s["means"] = np.array([q.loc for q in m.proposals])
        s["scales"] = np.array([q.scale for q in m.proposals])
    if hasattr(m, "T"):
        c = m.T.centers if z.kind == "tp" else np.array([m.T.nodes[i].center for i in m.T.leaves])
        s["cells"] = np.array(c, dtype=float)
        s["radii"] = np.array(m.T.radii if z.kind == "tp" else [m.T.nodes[i].radius for i in m.T.leaves], dtype=float)
    if hasattr(m, "ellipsoids"):
        s["ellipsoids"] = np.array([len(m.ellipsoids)])
    if hasattr(m, "trajectory_samples"):
        s["trajectory"] = np.array([len(m.trajectory_samples), len(m.trajectory_types)])
    x = z.lo + (z.hi - z.lo) * np.array([[0.1], [0.45], [0.83]])
    s["model"] = np.array([-1.0]) if m.model is None else np.array(m.model.prob(x), dtype=float)
    s["stats"] = np.array([m.num_target_evals, m.num_proposal_samples, m.num_proposal_evals])
    return s


def _kind(kind):
    def b(v):
        np = v.np
        z = Y.make(v, kind)
        z.clk.t, z.t.dt, z.timeout = 0.0, 0.25, 20.0
        seed = int(v.pick("seed", list(range(50))))
        with Y.stateless(v):
            fresh = z.new()
        z.new()
        Y.history(z, lambda *a: None, resets=False)
        if kind not in ("tp", "hidaisee") and v.pick("draw", [0, 1]) and len(z.m.samples):
            z.m.sample(2)
        if v.pick("twice", [0, 1]):
            z.m.reset()
        with Y.stateless(v):
            z.m.reset()
        v.ensure("no samples and no weights", len(z.m.samples) == 0 and len(z.m.weights) == 0)
        v.ensure("all counters are zero", z.m.num_target_evals == 0 and z.m.num_proposal_samples == 0 and z.m.num_proposal_evals == 0)
        a, b = _state(z, z.m), _state(z, fresh)
        for k in b:
            v.ensure("as newly constructed: " + k, k in a and _same(np, a[k], b[k]))
        res = []
        for m in (z.m, fresh):
            np.random.seed(seed)
            e0, out = z.t.evals, []
            for n in (2, 5):
                S, W = m.importance_sample(z.t, n, timeout=z.timeout)
                out.append((np.array(S), np.array(W)))
            res.append((out, z.t.evals - e0, m.num_target_evals, m.num_proposal_samples, m.num_proposal_evals))
        for k in range(2):
            v.ensure("same samples afterwards as of a new sampler", _same(np, res[0][0][k][0], res[1][0][k][0]))
            v.ensure("same weights afterwards as of a new sampler", _same(np, res[0][0][k][1], res[1][0][k][1]))
        v.ensure("same counters afterwards as of a new sampler", res[0][1:] == res[1][1:])
    b.__name__ = "b_" + kind
    return b


for _k in Y.NAMES:
    globals()["b_" + _k] = _kind(_k)
