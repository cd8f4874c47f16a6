"""C21 tree-pyramid cells tile the space and the bookkeeping stays consistent."""
from contracts import zoo as Y


def consistent(v, T, d, label=""):
    """every view of the tree describes the same tree"""
    np = v.np
    v.ensure("as many flags, centres, radii, samples and weights as nodes",
             len(T.nodes) == len(T.leaves_idx) == len(T.centers) == len(T.radii) == len(T.samples) == len(T.weights))
    leaves = []

    def walk(n, level, up):
        v.ensure("a node knows its place in the node list", T.nodes[n.node_idx] is n)
        v.ensure("a node knows its level", n.level == level)
        v.ensure("centres and radii are the nodes' own", np.array_equal(T.centers[n.node_idx], n.center) and np.array_equal(np.ravel(T.radii[n.node_idx]), np.ravel(n.radius)))
        kids = [c for c in n.children if c is not None]
        leaf = not kids
        v.ensure("leaf flags say which nodes are leaves", bool(T.leaves_idx[n.node_idx]) == leaf and n.is_leaf() == leaf)
        if leaf:
            leaves.append(n)
            v.ensure("a leaf knows its place in the leaf list", T.leaves[n.leaf_idx] is n)
            return
        v.ensure("two to the power d children", len(kids) == 2 ** d)
        signs = set()
        for c in kids:
            v.ensure("children have half the radius", np.allclose(np.ravel(c.radius), np.ravel(n.radius) / 2, rtol=1e-12))
            e = (c.center - n.center) / (np.ravel(n.radius) / 2)
            v.ensure("children are at the quarters of the cell", np.allclose(np.abs(e), 1, rtol=1e-6))
            signs.add(tuple(np.sign(e)))
        v.ensure("children cover the cell without overlap", len(signs) == 2 ** d)
        for c in kids:
            walk(c, level + 1, n)
    walk(T.root, 0, None)
    v.ensure("the root is the first node", T.nodes[0] is T.root)
    v.ensure("every leaf is listed exactly once", len(leaves) == len(T.leaves) and len(set(id(x) for x in T.leaves)) == len(leaves) and all(any(x is y for y in T.leaves) for x in leaves))
    v.ensure("every node is in the tree", len(T.nodes) == _count(T.root))


def _count(n):
    return 1 + sum(_count(c) for c in n.children if c is not None)


def located(v, T, lo, hi):
    np = v.np
    for k in range(6):
        u = v.rng.random(len(lo))
        if k % 2:
            u = np.round(u * 4) / 4
        x = lo + (hi - lo) * u
        n = T.find(x)
        v.ensure("locating a point returns a leaf", n.is_leaf() and any(n is l for l in T.leaves))
        v.ensure("the leaf contains the point", bool(np.all(np.abs(x - n.center) <= n.radius + 1e-8 * (1 + np.abs(n.center)))))


def b_expansions(v):
    """any sequence of subdivisions"""
    np = v.np
    d = int(v.pick("d", [1, 2, 3]))
    lo = v.reals("lo", (d,))
    hi = lo + np.clip(v.reals("width", (d,), pos=True), 0.1, 9)
    T = v.cls(Y.SM + "tree_pyramid.CTreePyramid")(lo, hi, v.pick("kernel", ["haar", "normal"]))
    consistent(v, T, d)
    for i in range(int(v.pick("n", [1, 3, 9, 25]))):
        n = T.leaves[int(v.rng.integers(len(T.leaves)))]
        n.weight = np.array([v.rng.random()])
        n.weight_hist = v.rng.random(int(v.rng.integers(1, 5)))
        n.coords_hist = v.rng.random((len(n.weight_hist), d))
        T.weights[n.node_idx] = n.weight[0]
        nl, nn, w = len(T.leaves), len(T.nodes), float(n.weight[0])
        hist = np.array(n.weight_hist)
        ess, n_min = v.pick("ess%d" % i, [(None, 5), (None, 1), (0.7, 2)])
        r = T.expand(n, ess, n_min)
        if r is None:
            v.ensure("a cell is not subdivided only with few or good samples", ess is not None and (len(hist) < n_min or hist.sum() ** 2 / (hist ** 2).sum() > ess * len(hist)))
            v.ensure("a cell that is not subdivided stays as it is", len(T.leaves) == nl and len(T.nodes) == nn and n.is_leaf() and np.array_equal(n.weight_hist, hist))
        else:
            v.ensure("children share the weight equally", all(np.allclose(c.weight, w / 2 ** d, rtol=1e-9) for c in n.children))
            v.ensure("the new nodes are the children", len(r) == 2 ** d and all(any(a is b for b in n.children) for a in r) and len(T.nodes) == nn + 2 ** d)
        consistent(v, T, d)
    located(v, T, lo, hi)
    v.cover("expanded")


def b_sampling(v):
    """the tree after sampling"""
    np = v.np
    z = Y.make(v, "tp")

    def body(S, W, n, out, prev):
        T = z.m.T
        consistent(v, T, z.d)
        for l in T.leaves:
            if v.pick("q", [0, 1]) and l.coords_hist is not None:
                v.ensure("a leaf's own samples and weights are those cached for it", np.array_equal(T.samples[l.node_idx], l.coords_hist[-1]))
        located(v, T, z.lo, z.hi)
    Y.history(z, body)
