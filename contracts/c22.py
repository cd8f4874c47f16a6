"""C22 HiDaisee splits partition the cell and lose no sample."""
from contracts import zoo as Y
HT = Y.SM + "hi_daisee.CHiDaiseeTree"


def _counts(v, n):
    np = v.np
    w = np.ravel(np.asarray(n.weights, dtype=float))
    v.ensure("a cell's count is the number of its samples and weights", n.N == len(n.samples) == len(w))
    if len(w) and w.sum() > 0:
        v.ensure("a cell's effective sample size is that of its weights", v.eq(n.ESS, w.sum() ** 2 / (w * w).sum()) is not False)


def _check_split(v, T, nid, before, q, t, d, leaves):
    np = v.np
    n = T.nodes[nid]
    kids = [n.left, n.right]
    c, r = np.array(n.center), np.array(n.radius)
    v.ensure("two new nodes", T.nodes[n.left.idx] is n.left and T.nodes[n.right.idx] is n.right and n.left is not n.right)
    a, b = [(k.center - k.radius, k.center + k.radius) for k in kids]
    same = [j for j in range(d) if np.isclose(a[0][j], b[0][j], rtol=1e-9, atol=1e-12) and np.isclose(a[1][j], b[1][j], rtol=1e-9, atol=1e-12)]
    v.ensure("split along one dimension", len(same) == d - 1)
    (j,) = [x for x in range(d) if x not in same]
    lo, hi = c - r, c + r
    cl = lambda x, y: bool(np.allclose(x, y, rtol=1e-9, atol=1e-9))
    v.ensure("the two cells are exactly the halves of the parent", cl(np.minimum(a[0], b[0]), lo) and cl(np.maximum(a[1], b[1]), hi)
             and cl(min(a[1][j], b[1][j]), c[j]) and cl(max(a[0][j], b[0][j]), c[j]))
    v.ensure("the parent's value is shared equally", v.eq(n.left.q, q / 2) is not False and v.eq(n.right.q, q / 2) is not False)
    v.ensure("the children replace the parent in the leaf list", sorted(T.leaves) == sorted([x for x in leaves if x != nid] + [n.left.idx, n.right.idx]))
    got = []
    for k in kids:
        _counts(v, k)
        for x, w in zip(k.samples, np.ravel(k.weights)):
            v.ensure("a sample is in the cell that contains it", bool(np.all(np.abs(x - k.center) <= k.radius * (1 + 1e-9) + 1e-12)))
            v.ensure("weight is target over the cell's density", v.eq(w, t.at(x) * np.prod(2 * k.radius)) is not False)
            got.append(tuple(x))
    v.ensure("every sample is in exactly one of the two cells", sorted(got) == sorted(map(tuple, before)))


def b_splits(v):
    """any sequence of splits, with samples on the split planes"""
    np = v.np
    d = int(v.pick("d", [1, 2, 3]))
    # limits for which halving is exact
    lo = np.round(4 * np.clip(v.reals("lo", (d,)), -50, 50)) / 4
    hi = lo + 2.0 ** np.array([v.pick("width%d" % k, [-3, 0, 1, 4]) for k in range(d)])
    t = v.dist("t", d)
    T = v.cls(HT)(lo, hi)
    root = T.nodes[0]
    k = int(v.pick("samples", [1, 2, 6, 15]))
    for i in range(k):
        u = np.maximum(v.rng.random(d), 1e-3)
        if v.rng.random() < 0.4:
            u = np.ceil(u * 4) / 4      # on planes of later splits
            u = np.where(u == 0, 0.25, u)
        x = (root.center - root.radius) + 2 * root.radius * u
        x = np.minimum(x, root.center + root.radius)
        p = root.prob(x.reshape(1, -1))
        if p[0] <= 0:
            continue
        root.add_sample(x.reshape(1, -1), np.array([t.at(x)]) / p)
        _counts(v, root)
    root.q = float(v.rng.random())
    for i in range(int(v.pick("splits", [1, 2, 5]))):
        nid = T.leaves[int(v.rng.integers(len(T.leaves)))]
        n = T.nodes[nid]
        if any(not n.prob(x.reshape(1, -1))[0] > 0 for x in n.samples):
            continue
        before, q, leaves = [np.array(x) for x in n.samples], n.q, list(T.leaves)
        T.split(nid, t)
        _check_split(v, T, nid, before, q, t, d, leaves)
    v.cover("split")


def b_sampling(v):
    """the cells after sampling"""
    np = v.np
    z = Y.make(v, "hidaisee", positive=v.pick("pos", [True, False]))
    T = [z.m.T]
    real = v.cls(HT).split

    def body(S, W, n, out, prev):
        T = z.m.T
        box = [(T.nodes[l].center - T.nodes[l].radius, T.nodes[l].center + T.nodes[l].radius) for l in T.leaves]
        v.ensure("the leaves fill the space", v.eq(sum(np.prod(b - a) for a, b in box), np.prod(z.hi - z.lo)) is not False)
        tot = 0
        for l in T.leaves:
            nd = T.nodes[l]
            _counts(v, nd)
            v.ensure("only leaves are listed", nd.left is None and nd.right is None)
            tot += nd.N
            for x, w in zip(nd.samples, np.ravel(nd.weights)):
                v.ensure("a sample is in the cell that contains it", bool(np.all(np.abs(x - nd.center) <= nd.radius * (1 + 1e-9) + 1e-12)))
                v.ensure("weight is target over the cell's density", v.eq(w, z.t.at(x) * np.prod(2 * nd.radius)) is not False)
        v.ensure("no sample is lost", tot == max(n, len(prev)) and len(S) == tot)
    Y.history(z, body)
