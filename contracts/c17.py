"""C17 samples stay inside the sampling space."""
from contracts import chain as C
from contracts import samplers as Z
from contracts import zoo as Y


def _inside(z, x):
    np = z.v.np
    x = np.asarray(x, dtype=float).reshape(-1, z.d)
    # a cell of a tree reaches its limits up to rounding
    tol = 1e-9 * (1 + np.abs(z.lo) + np.abs(z.hi)) if z.kind == "hidaisee" else 0
    return bool(np.all(x >= z.lo - tol) and np.all(x <= z.hi + tol))


def _kind(kind):
    def b(v):
        z = Y.make(v, kind)
        live = kind in ("nested", "multinested")

        def check():
            if live:
                v.ensure("live points are inside the space", _inside(z, z.m.live_points))
            if kind == "lais":
                v.ensure("adapted centres are inside the space", all(_inside(z, q.loc) for q in z.m.proposals))
            if kind == "mh":
                v.ensure("the chain is inside the space", _inside(z, z.m.current_sample))
        check()

        def body(S, W, n, out, prev):
            if kind != "lais":
                v.ensure("samples are inside the space", _inside(z, S))
            check()
        Y.history(z, body)
        z.m.reset()
        check()
    b.__name__ = "b_" + kind
    return b


for _k in ("mh", "nested", "multinested", "hidaisee", "lais"):
    globals()["b_" + _k] = _kind(_k)


def h_move(v):
    """a move of the Metropolis-Hastings chain"""
    if not v.symbolic:
        return b_mh(v)
    C.move(v, None, lambda c, r, env: v.ensure("the state stays inside the space", C.inside(v, r, c["lo"], c["hi"], c["d"])))


def h_moves(v):
    if not v.symbolic:
        return b_mh(v)
    C.steps(v, "inside")


def h_sample(v):
    if not v.symbolic:
        return b_mh(v)
    C.one_sample(v, "inside")


def h_request(v):
    if not v.symbolic:
        return b_mh(v)
    C.request(v, "inside")


def h_start(v):
    """the first state of the chain, also after a reset"""
    if not v.symbolic:
        return b_mh(v)
    m, q, t, d, lo, hi, p = C.mh(v)
    v.ensure("the first state is a point of the space", v.And(v.eq(v.shape(m.current_sample, 0), 1), v.eq(v.shape(m.current_sample, 1), d)))
    v.ensure("the first state is inside the space", C.inside(v, m.current_sample, lo, hi, d))
    m.reset()
    v.ensure("after a reset: a point of the space", v.And(v.eq(v.shape(m.current_sample, 0), 1), v.eq(v.shape(m.current_sample, 1), d)))
    v.ensure("after a reset: inside the space", C.inside(v, m.current_sample, lo, hi, d))
    v.cover("started")


def h_adaptation(v):
    """layered AIS: the steps of one proposal"""
    if not v.symbolic:
        return b_lais(v)
    C.adaptation(v)


def _centres(c):
    v, m, d = c["v"], c["m"], c["d"]
    return [("adapted centres are inside the space", v.forall(c["p"]["N"], lambda j: v.forall(d, lambda a: v.And(
        v.le(v.at(c["lo"], a), v.at(v.getitem(m.proposals, j).loc, a)), v.le(v.at(v.getitem(m.proposals, j).loc, a), v.at(c["hi"], a))))))]


def h_layered_ais(v):
    if not v.symbolic:
        return b_lais(v)
    Z.ais_batch(v, "lais", _centres)
