"""C02 batch evaluation is row-wise and shape-checked."""
from contracts.lib import each, KINDS


def _rows(v, k, q, d):
    n = v.dim("n")
    x = v.reals("x", (n, d))
    i = v.int("i", 0, n - 1)
    for f, name in ((q.prob, "prob"), (q.log_prob, "log_prob")):
        r = f(x)
        v.ensure_shape("%s gives one value per point" % name, r, (n,))
        one = f(v.copy(v.row(x, i)))
        v.ensure_shape("%s of a single point given as a vector is a batch of one" % name, one, (1,))
        v.ensure("%s of a row does not depend on the other rows" % name, v.eq(v.at(r, i), v.at(one, 0)))
    v.cover("evaluated")


def _shapes(v, k, q, d):
    n, e = v.dim("n"), v.dim("e")
    v.assume(v.Not(v.eq(e, d)))
    for f, name in ((q.prob, "prob"), (q.log_prob, "log_prob")):
        v.ensure_raises("%s rejects points of another dimension" % name, lambda: f(v.reals("y", (n, e))))
        v.ensure_raises("%s rejects a single point of another dimension" % name, lambda: f(v.reals("z", (e,))))
        v.ensure_raises("%s rejects arrays of three axes" % name, lambda: f(v.reals("t", (n, d, 1))))
    v.cover("rejected")


each(globals(), KINDS, _rows, "h_rows_")
each(globals(), KINDS, _shapes, "h_shapes_")
