"""C06 mixture weights always form a probability vector."""
from contracts.lib import P


def _check(v, q, k, w, w0):
    valid = lambda i: v.lt(0, v.at(w0, i))
    tot = v.sum(k, lambda i: v.If(valid(i), v.at(w0, i), 0))
    u = q.weights
    v.ensure_shape("one weight per component", u, (k,))
    v.ensure("weights are non-negative", v.forall(k, lambda i: v.le(0, v.at(u, i))))
    v.ensure("weights sum to one", v.eq(v.sum(k, lambda i: v.at(u, i)), 1))
    any_valid = v.exists(k, valid)
    v.ensure("weights are proportional to the valid weights given",
             v.Implies(any_valid, v.forall(k, lambda i: v.eq(v.at(u, i) * tot, v.If(valid(i), v.at(w0, i), 0)))))
    v.ensure("equal weights when none is valid",
             v.Implies(v.Not(any_valid), v.forall(k, lambda i: v.eq(v.at(u, i) * k, 1))))
    v.ensure_shape("the caller's array keeps its shape", w, (k,))
    v.ensure("the caller's array is unchanged", v.forall(k, lambda i: v.eq(v.at(w, i), v.at(w0, i))))
    v.cover("weighted")


def _mix(v, k, d, w):
    return v.cls(P + "CMixtureModel")({"models": v.dists("comp", k, d), "weights": w, "dims": d,
                                       "support": [v.reals("lo", (d,)), v.reals("hi", (d,))]})


def h_construction(v):
    k, d = v.dim("k"), v.dim("d")
    w = v.reals("w", (k,), special="nm")
    w0 = v.copy(w)
    q = _mix(v, k, d, w)
    _check(v, q, k, w, w0)


def h_set_weights(v):
    k, d = v.dim("k"), v.dim("d")
    q = _mix(v, k, d, v.reals("v", (k,), pos=True))
    w = v.reals("w", (k,), special="nm")
    w0 = v.copy(w)
    q.set_weights(w)
    _check(v, q, k, w, w0)


def h_set_weights_twice(v):
    """the second call does not depend on the first"""
    k, d = v.dim("k"), v.dim("d")
    q = _mix(v, k, d, v.reals("v", (k,), pos=True))
    q.set_weights(v.reals("u", (k,), nonneg=True))
    w = v.reals("w", (k,), special="n")
    w0 = v.copy(w)
    q.set_weights(w)
    _check(v, q, k, w, w0)


def h_set_weights_back(v):
    """feeding a mixture its own weights changes nothing"""
    k, d = v.dim("k"), v.dim("d")
    q = _mix(v, k, d, v.reals("v", (k,), pos=True))
    w = q.weights
    w0 = v.copy(w)
    q.set_weights(w)
    v.ensure("weights are unchanged", v.forall(k, lambda i: v.eq(v.at(q.weights, i), v.at(w0, i))))
    v.cover("weighted")


def h_wrong_length(v):
    k, d, j = v.dim("k"), v.dim("d"), v.dim("j")
    v.assume(v.Not(v.eq(j, k)))
    v.ensure_raises("construction rejects a weight vector of the wrong length", lambda: _mix(v, k, d, v.reals("w", (j,), pos=True)))
    q = _mix(v, k, d, v.reals("v", (k,), pos=True))
    v.ensure_raises("set_weights rejects a weight vector of the wrong length", lambda: q.set_weights(v.reals("w", (j,), pos=True)))
    v.ensure("weights are unchanged after a rejected call", v.eq(v.sum(k, lambda i: v.at(q.weights, i)), 1))
    v.cover("rejected")
