"""C18 Markov-chain moves follow the Metropolis-Hastings rule."""
from contracts import chain as C
from contracts import zoo as Y


def b_mh(v):
    """the chain replayed from its own random draws"""
    np = v.np
    z = Y.make(v, "mh")
    m = z.m
    own = hasattr(z, "q")
    if v.pick("short", [0, 0, 1]):
        z.timeout = float(v.pick("time", [0.7, 3.1]))
    x = np.array(m.current_sample, dtype=float).reshape(-1)
    n = 0
    for i in range(int(v.pick("calls", [1, 2, 3]))):
        if i and v.pick("reset%d" % i, [0, 0, 1]):
            Y.restart(z)
            n, x = 0, np.array(m.current_sample, dtype=float).reshape(-1)
        k0, mark = len(z.watch.rows), len(v.draws())
        old = n
        S, W = m.importance_sample(z.t, n + int(v.pick("more%d" % i, [1, 2, 5])), timeout=z.timeout)
        n = len(S)
        props = [r for dr in v.draws()[mark:] if dr.kind == "sample_q" for r in dr.out] if own else [r for q, rows in z.watch.rows[k0:] for r in rows]
        us = Y.uniforms(v, mark)
        v.ensure("a fresh uniform draw for every proposed move", len(us) >= len(props))
        v.assume(len(us) == len(props))
        states, lq = [x], lambda e: np.asarray(m.proposal_d.log_prob(e.reshape(1, -1))).reshape(-1)[0]
        for delta, u in zip(props, us):
            y = np.clip(x + delta, z.lo, z.hi)
            a = np.log(z.t.at(y)) - np.log(z.t.at(x)) + lq(x - y) - lq(y - x)
            v.assume(np.isfinite(a))
            if Y.below(v, np.log(u), a):
                x = y
            states.append(x)
        v.ensure("the chain is where its accepted moves lead", np.allclose(np.asarray(m.current_sample).reshape(-1), x, rtol=1e-9, atol=1e-9))
        k = 0
        for s in S[old:]:
            while k < len(states) and not np.allclose(s, states[k], rtol=1e-9, atol=1e-9):
                k += 1
            v.ensure("samples are states of the chain, in order", k < len(states))
        v.cover("sampled")


def b_layered_ais(v):
    np = v.np
    z = Y.make(v, "lais")
    m, p = z.m, z.par
    if v.pick("one", ["proposal", "step"]) == "proposal":
        p["N"] = 1
    else:
        p["L"] = 1
    z.m = m = z.new()
    for i in range(int(v.pick("calls", [1, 2, 3]))):
        if i and v.pick("reset%d" % i, [0, 0, 1]):
            Y.restart(z)
        loc = [np.array(q.loc, dtype=float) for q in m.proposals]
        k0, mark = len(z.watch.rows), len(v.draws())
        m.importance_sample(z.t, len(m.samples) + 1, timeout=z.timeout)
        mine = list(m.proposals)
        props = [r for q, rows in z.watch.rows[k0:] for r in rows if not any(q is o for o in mine)]
        us = Y.uniforms(v, mark)
        v.ensure("the configured number of steps for every proposal", len(props) == p["L"] * p["N"])
        v.ensure("a fresh uniform draw for every step", len(us) == len(props))
        for j in range(p["N"]):
            x = loc[j]
            for s in range(p["L"]):
                k = j * p["L"] + s
                y = np.clip(x + props[k], z.lo, z.hi)
                if Y.below(v, us[k], z.t.at(y) / z.t.at(x)):
                    x = y
            v.ensure("every centre is where its accepted moves lead", np.allclose(mine[j].loc, x, rtol=1e-9, atol=1e-9))
            v.ensure("the covariance stays as configured", np.allclose(mine[j].scale, np.eye(z.d) * p["sigma"], rtol=1e-12, atol=0))
        v.cover("sampled")


def _rule(c, pre, env):
    """log u < log p(x') - log p(x) + log q(x - x') - log q(x' - x)"""
    v, t, q, d, x = c["v"], c["t"], c["q"], c["d"], c["x"]
    y, u = v.local(env, "x_new"), env["u"]
    e = env["prop"]
    back, there = v.row(x, 0) - v.row(y, 0), v.row(y, 0) - v.row(x, 0)
    a = v.np.log(t.at(v.row(y, 0))) - v.np.log(t.at(v.row(x, 0))) + v.np.log(q.at(back)) - v.np.log(q.at(there))
    clip = lambda z, l, h: v.If(v.lt(z, l), l, v.If(v.lt(h, z), h, z))
    return [("the proposed point is the state plus the drawn step, clipped to the space",
             v.forall(d, lambda j: v.eq(v.at(y, 0, j), clip(v.at(x, 0, j) + v.at(e, 0, j), v.at(c["lo"], j), v.at(c["hi"], j))))),
            ("accepted exactly by the Metropolis-Hastings rule", v.Iff(v.local(env, "accepted"), v.lt(v.np.log(u), a)))]


def _state(c, r, env):
    v = c["v"]
    acc, y = v.local(env, "accepted"), v.local(env, "x_new")
    v.ensure("the new state is the proposed point if accepted, the old state if not",
             v.And(v.Implies(acc, C.same(v, r, y, c["d"])), v.Implies(v.Not(acc), C.same(v, r, c["x"], c["d"]))))


def h_move(v):
    if not v.symbolic:
        return b_mh(v)
    C.move(v, _rule, _state)


def h_moves(v):
    """a sample is the chain's state after the moves"""
    if not v.symbolic:
        return b_mh(v)
    C.steps(v, "inside")


def h_sample(v):
    if not v.symbolic:
        return b_mh(v)
    C.one_sample(v, "inside")


def h_request(v):
    if not v.symbolic:
        return b_mh(v)
    C.request(v, "state")


def _lais_rule(c, pre, env):
    v, t, q, d, x = c["v"], c["t"], c["q"], c["d"], pre["loc"]
    dr = env["prop"]
    clip = lambda z, l, h: v.If(v.lt(z, l), l, v.If(v.lt(h, z), h, z))
    y = v.vector(d, lambda j: clip(v.at(x, j) + v.at(dr.out, 0, j), v.at(c["lo"], j), v.at(c["hi"], j)))
    moved = v.lt(env["u"], v.quot(t.at(y), t.at(x)))
    return [("moved exactly if the uniform draw is below the ratio of target densities",
             v.forall(d, lambda j: v.eq(v.at(q.loc, j), v.If(moved, v.at(y, j), v.at(x, j))))),
            ("steps are drawn from the configured transition", v.And(v.forall(d, lambda j: v.eq(v.at(dr.args[0], j), 0)),
             v.forall(d, lambda a: v.forall(d, lambda b: v.eq(v.at(dr.args[1], a, b), v.If(v.eq(a, b), c["p"]["mh_sigma"], 0))))))]


def h_layered_ais(v):
    if not v.symbolic:
        return b_layered_ais(v)
    C.adaptation(v, _lais_rule)
