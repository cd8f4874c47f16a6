"""C01 prob(x) == exp(log_prob(x)) for every distribution class."""
from contracts.lib import each, KINDS


def _agree(v, k, q, d):
    n = v.dim("n")
    x = v.reals("x", (n, d))
    p = q.prob(x)
    lp = q.log_prob(x)
    v.ensure_eq("density is the exponential of the log-density", p, (n,), lambda i: v.exp(v.at(lp, i)))
    v.ensure_shape("one log-density per point", lp, (n,))
    v.ensure("zero density exactly where the log-density is minus infinity",
             v.forall(n, lambda i: v.Or(v.underflows(v.at(lp, i)),
                                           v.Iff(v.eq(v.at(lp, i), -v.inf), v.eq(v.at(p, i), 0)))))
    v.cover("evaluated")


each(globals(), KINDS, _agree)
