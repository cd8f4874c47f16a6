"""C15 evaluation counters report what was actually evaluated."""
from contracts import samplers as Z
from contracts import chain as C
from contracts import zoo as Y


def _kind(kind):
    def b(v):
        z = Y.make(v, kind)

        def check():
            v.ensure("target evaluations reported are those made", z.m.num_target_evals == z.t.evals - z.emark)
            v.ensure("proposal samples reported are those drawn", z.m.num_proposal_samples == Y.drawn(z))
            if kind != "tp" or len(z.m.T.nodes) > 1:
                s = z.m.get_stats()
                v.ensure("the summary reports the same numbers", s["target_evals"] == z.t.evals - z.emark and s["proposal_samples"] == Y.drawn(z))
                v.ensure("the summary reports the number of samples", s["n_samples"] == len(z.m._get_samples()[0] if kind == "tp" else z.m.samples))
        check() if kind != "tp" else None
        if v.pick("short", [0, 0, 1]):
            z.timeout = 5 * z.t.dt

        def body(S, W, n, out, prev):
            check()
            if kind != "rejection" and v.pick("draw", [0, 0, 1]) and kind not in ("hidaisee", "tp") and len(z.m.samples):
                z.m.sample(3)
                check()
        Y.history(z, body)
        if kind not in ("tp",):
            Y.restart(z)
            check()
    b.__name__ = "b_" + kind
    return b


for _k in Y.NAMES:
    globals()["b_" + _k] = _kind(_k)


def _batch(c):
    v, m, pre, post = c["v"], c["m"], c["pre"], c["post"]
    return [("target evaluations counted are those made", v.eq(post["pi"] - pre["pi"], post["evals"] - pre["evals"])),
            ("proposal samples counted are those drawn", v.eq(post["q"] - pre["q"], v.points_drawn(pre["draws"]))),
            ("the properties report the counters", v.And(v.eq(m.num_target_evals, post["pi"]), v.eq(m.num_proposal_samples, post["q"])))]


def _exit(c):
    v, m = c["v"], c["m"]
    s = m.get_stats()
    v.ensure("the summary reports the same numbers", v.And(v.eq(s["target_evals"], m.num_target_evals), v.eq(s["proposal_samples"], m.num_proposal_samples),
                                                           v.eq(s["n_samples"], v.len(m.samples))))


def h_dm_ais(v):
    Z.ais_batch(v, "dm", _batch, _exit)


def _mh_counts(c, pre, env):
    v, post = c["v"], env["post"]
    return [("target evaluations counted are those made", v.eq(post["pi"] - pre["pi"], post["evals"] - pre["evals"])),
            ("proposal samples counted are those drawn", v.eq(post["q"] - pre["q"], v.points_drawn(pre["draws"])))]


def h_mh_move(v):
    if not v.symbolic:
        return b_mh(v)
    C.move(v, _mh_counts)


def h_mh_moves(v):
    if not v.symbolic:
        return b_mh(v)
    C.steps(v, "count")


def h_mh_sample(v):
    if not v.symbolic:
        return b_mh(v)
    C.one_sample(v, "count")


def h_mh_request(v):
    if not v.symbolic:
        return b_mh(v)
    C.request(v, "count")


def h_layered_ais(v):
    if not v.symbolic:
        return b_lais(v)
    Z.ais_batch(v, "lais", _batch, _exit)


def h_adaptation(v):
    """layered AIS: the steps of one proposal"""
    if not v.symbolic:
        return b_lais(v)
    C.adaptation(v, lambda c, pre, env: [("target evaluations counted are those made", v.eq(env["post"]["pi"] - pre["pi"], env["post"]["evals"] - pre["evals"])),
                                         ("proposal samples counted are those drawn", v.eq(env["post"]["q"] - pre["q"], v.points_drawn(pre["draws"])))])


def h_mixture_pmc(v):
    if not v.symbolic:
        return b_pmc(v)
    Z.ais_batch(v, "pmc", _batch, _exit)
