"""Every sampling method on concrete inputs: bounded stand-ins for what the generator cannot reach."""
import contextlib
from contracts.samplers import SM
NAMES = ["rejection", "dm", "lais", "pmc", "mh", "nested", "multinested", "tp", "hidaisee"]
CLS = {"rejection": "CRejectionSampling", "dm": "CDeterministicMixtureAIS", "lais": "CLayeredAIS", "pmc": "CMixturePMC", "mh": "CMetropolisHastings",
       "nested": "CNestedSampling", "multinested": "CMultiNestedSampling", "tp": "CTreePyramidSampling", "hidaisee": "CHiDaiseeSampling"}
MODS = [SM + x for x in ("rejection", "dm_ais", "layered_ais", "m_pmc", "metropolis_hastings", "nested", "multi_nested", "tree_pyramid", "hi_daisee")]
LEAF = ["ais_benchmarks.distributions.CMultivariateNormal", "ais_benchmarks.distributions.CMultivariateUniform"]


class Target:
    """the target: counts the points at which it is evaluated; every evaluation takes some time"""
    type = "abstract"

    def __init__(self, d, base, clk, dt):
        self.d, self.base, self.clk, self.dt, self.evals, self.log = d, base, clk, dt, 0, []
        self.dims = d.dims

    def at(self, x):
        return self.base + self.d.at(x)

    def prob(self, x):
        x = self.d.rows(x)
        self.evals += len(x)
        self.log.append(x.copy())
        if self.clk is not None:
            self.clk.advance(self.dt * len(x))
        return self.d.v.np.array([self.at(r) for r in x])

    def log_prob(self, x):
        return self.d.v.np.log(self.prob(x))

    def support(self):
        return self.d.support()


class Watch:
    """counts the points drawn from distributions"""

    def __init__(self, v):
        self.n, self.depth, self.rows = 0, 0, []
        for path in LEAF:
            c = v.cls(path)
            real = c.sample

            def sample(q, *a, real=real, **k):
                self.depth += 1
                try:
                    r = real(q, *a, **k)
                finally:
                    self.depth -= 1
                if not self.depth:
                    self.n += len(r)
                    self.rows.append((q, v.np.array(r)))
                return r
            v.setmod(c, "sample", sample)


class Setup:
    pass


@contextlib.contextmanager
def stateless(v):
    """random draws that depend on the arguments of the call only"""
    np = v.np
    saved = {}
    for n in list(dir(np.random)):
        f = getattr(np.random, n)
        if callable(f) and n.islower() and n not in ("seed", "get_state", "set_state", "default_rng", "test", "get_bit_generator", "set_bit_generator"):
            saved[n] = f

            def w(*a, f=f, **k):
                np.random.seed(7)
                return f(*a, **k)
            setattr(np.random, n, w)
    try:
        yield
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)


def make(v, kind=None, kinds=NAMES, positive=True, tick=True, tp=None, fresh=False):
    """a sampling method with arbitrary parameters, and a target"""
    np = v.np
    z = Setup()
    z.v, z.kind = v, kind or v.pick("kind", list(kinds))
    kind = z.kind
    d = z.d = int(v.pick("d", [1, 2, 3] if kind not in ("tp", "hidaisee") else [1, 2]))
    z.lo = v.reals("lo", (d,))
    z.hi = z.lo + np.clip(v.reals("width", (d,), pos=True), 0.2, 8)
    z.clk = v.clock(*MODS) if tick else None
    z.watch = Watch(v)
    base = 0.02 if positive else 0.0
    z.t = Target(v.dist("t", d, positive=positive, support=[z.lo, z.hi]), base, z.clk, float(v.pick("dt", [1e-3, 0.3])) if kind != "mh" else 0.3)
    z.cls = v.cls(SM + CLS[kind])
    z.par = {}
    par = z.par
    if kind == "rejection":
        z.q = v.dist("q", d, support=[z.lo, z.hi], bounded=True, positive=True)
        _draw(z.q, np)
        par.update(proposal="params['q']", q=z.q, scaling=float(v.pick("scale", [0.5, 1.0, 4.0])), kde_bw=0.2, n_samples_kde=3)
    elif kind in ("dm", "lais", "pmc"):
        par.update(K=int(v.pick("K", [1, 2, 5])), N=int(v.pick("N", [1, 2, 4])), J=1, sigma=float(v.pick("sigma", [0.01, 0.3, 2.0])))
        if kind == "pmc":
            par["K"] += 6      # with less samples than that components collapse to a point, beyond floating point
        if kind == "lais":
            par.update(L=int(v.pick("L", [1, 2, 5])), mh_sigma=float(v.pick("mh", [0.05, 1.0, 20.0])))
    elif kind == "mh":
        par.update(n_burnin=int(v.pick("burn", [0, 1, 4])), n_steps=int(v.pick("steps", [1, 2, 4])), proposal_sigma=float(v.pick("psig", [0.05, 1.0, 20.0])), kde_bw=0.2,
                   n_samples_kde=3)
        if v.pick("own proposal", [0, 1]):
            z.q = v.dist("q", d, positive=True)
            _draw(z.q, np)
            par["proposal_d"] = z.q
    elif kind in ("nested", "multinested"):
        par.update(proposal="CMultivariateNormal({'mean': np.zeros(self.ndims), 'sigma': np.eye(self.ndims) * params['psig']})", psig=float(v.pick("psig", [0.05, 1.0, 9.0])),
                   kde_bw=0.2, n_samples_kde=3, N=int(v.pick("N", [2, 3, 7])) if kind == "nested" else int(v.pick("N", [12, 20])))
        if kind == "multinested":
            par.update(converged_radius=float(v.pick("radius", [1e-6, 0.1])), inflate_factor=float(v.pick("inflate", [1.0, 2.0])))
    elif kind == "tp":
        par.update(tp or dict(method=v.pick("method", ["simple", "mixture", "dm"]), resampling=v.pick("resampling", ["none", "leaf"]), kernel=v.pick("kernel", ["haar", "normal"]),
                              ess_target=v.pick("ess", [None, 2.0, 0.9, 0.3]), n_min=int(v.pick("n_min", [1, 2, 5])), parallel_samples=int(v.pick("par", [1, 4, 100]))))
    elif kind == "hidaisee":
        par.update(target_ess=float(v.pick("ess", [0.3, 0.9, 0.99])), n_min=int(v.pick("n_min", [1, 3])), tau=float(v.pick("tau", [0.1, 3.0])))

    def new():
        p = dict(par)
        p.update(space_min=np.array(z.lo), space_max=np.array(z.hi), dims=d)
        return z.cls(p)
    z.new = new
    z.m = new()
    z.timeout = 1e9 if kind not in ("nested", "multinested", "mh") else float(60 * z.t.dt)
    z.mark = z.watch.n + getattr(z.q, "drawn", 0) if hasattr(z, "q") else z.watch.n
    z.emark = z.t.evals
    return z


def _draw(q, np):
    """points of q drawn from numpy's random state"""
    q.drawn = 0

    def sample(n_samples=1):
        n = int(n_samples)
        u = 1 / (1 + np.exp(-2 * np.random.normal(0, 1, size=(n, q.dims))))
        if q.bounded:
            s = q.support_vals[0] + (q.support_vals[1] - q.support_vals[0]) * u
        else:
            s = q.c + q.s * 3 * (u - 0.5)
        q.drawn += n
        q.v._draws.append(type("Dr", (), dict(kind="sample_q", args=(q, n), out=np.array(s)))())
        return s
    q.sample = sample


def drawn(z):
    return z.watch.n + (z.q.drawn if hasattr(z, "q") else 0) - z.mark


def restart(z):
    """reset, and count from here"""
    z.m.reset()
    z.mark = 0
    z.mark = drawn(z)
    z.emark = z.t.evals


def history(z, body, resets=True, small=False):
    """some requests one after another; body(S, W, n asked for, time out?, samples before) after each"""
    v, np = z.v, z.v.np
    prev = np.zeros((0, z.d))
    n = 0
    for i in range(int(v.pick("calls", [1, 2, 4]))):
        if resets and i and v.pick("reset%d" % i, [0, 0, 0, 1]):
            restart(z)
            prev, n = np.zeros((0, z.d)), 0
        n = max(1, n + int(v.pick("more%d" % i, [1, 2, 7, -1, 0] if not small else [1, 2, 0])))
        t0 = z.clk.t if z.clk else 0
        S, W = z.m.importance_sample(z.t, n, timeout=z.timeout)
        out = z.clk is not None and z.clk.t - t0 >= z.timeout
        body(S, W, n, out, prev)
        prev = np.array(S)
        n = max(n, len(S)) if z.kind not in ("rejection",) else n
    v.cover("sampled")


def uniforms(v, mark):
    """the uniform draws since, in order"""
    r = []
    for dr in v.draws()[mark:]:
        if dr.kind == "uniform":
            r += [float(u) for u in v.np.asarray(dr.out).reshape(-1)]
    return r


def below(v, u, ratio):
    """u < ratio; too close to tell: the trial is dropped"""
    c = v.lt(u, ratio)
    v.assume(c is not None)
    return c
