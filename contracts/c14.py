"""C14 samplers return aligned samples and weights and keep earlier ones."""
from contracts import samplers as Z
from contracts import chain as C
from contracts import zoo as Y
KEEPS = ("dm", "lais", "pmc", "rejection", "mh", "nested")


def _kind(kind):
    def b(v):
        z = Y.make(v, kind)
        np = v.np

        def body(S, W, n, out, prev):
            v.ensure("as many weights as samples", len(S) == len(W) and np.ndim(W) == 1)
            v.ensure("one row of the space's dimension per sample", np.shape(S) == (len(S), z.d))
            v.ensure("weights are never negative", bool(np.all(np.asarray(W) >= 0)))
            v.ensure("at least the number asked for, unless time ran out", out or len(S) >= n)
            if kind in KEEPS:
                v.ensure("earlier samples are still there, first and in order", len(S) >= len(prev) and np.array_equal(np.asarray(S)[:len(prev)], prev))
            v.ensure("the sampler holds what it returned", kind == "tp" or (np.array_equal(z.m.samples, S) and len(z.m.weights) == len(W)))
        Y.history(z, body)
    b.__name__ = "b_" + kind
    return b


for _k in Y.NAMES:
    globals()["b_" + _k] = _kind(_k)


def _batch(c):
    v, m, d, n0, n1 = c["v"], c["m"], c["d"], c["pre"]["n"], c["post"]["n"]
    return [("a batch adds samples", v.lt(n0, n1)),
            ("earlier samples are still there, first and in order", v.forall(n0, lambda i: v.forall(d, lambda j: v.eq(v.at(m.samples, i, j), v.at(c["pre"]["samples"], i, j))))),
            ("weights are never negative", v.forall(n1, lambda i: v.le(0, v.at(m.weights, i))))]


def _exit(c):
    v, (S, W) = c["v"], c["r"]
    v.ensure("as many weights as samples", v.eq(v.len(S), v.len(W)))
    v.ensure("one row of the space's dimension per sample", True if v.len0(S) else v.eq(v.shape(S, 1), c["d"]))
    v.ensure("weights are never negative", v.forall(v.len(W), lambda i: v.le(0, v.at(W, i))))
    v.ensure("the sampler holds what it returned", v.And(v.eq(v.len(c["m"].samples), v.len(S)),
             v.forall(v.len(S), lambda i: v.forall(c["d"], lambda j: v.eq(v.at(S, i, j), v.at(c["m"].samples, i, j))))))


def h_dm_ais(v):
    Z.ais_batch(v, "dm", _batch, _exit)


def h_mh_request(v):
    if not v.symbolic:
        return b_mh(v)
    C.request(v, "keep")


def h_layered_ais(v):
    if not v.symbolic:
        return b_lais(v)
    Z.ais_batch(v, "lais", _batch, _exit)


def h_mixture_pmc(v):
    if not v.symbolic:
        return b_pmc(v)
    Z.ais_batch(v, "pmc", _batch, _exit)
