"""C26 evaluation resets per repetition and stops at the sample or time limit."""
from contracts.c25 import BM, CLASSES, Obj

try:
    from vf.load import VObj
except ImportError:      # concrete run
    VObj = object


class Log(VObj):
    """what the evaluation did so far: repetitions begun, samples held, sampling time, calls, rows"""


def new_log():
    g = Log()
    g.reps = g.have = g.calls = g.rows = 0
    g.total = 0.0
    g.began = False
    g.nreset = g.npre = g.npost = g.ncomp = g.sampled = 0
    return g


def setup(v, limit, batch, n_max, sel, file=True, timed=False):
    """a benchmark whose sampler and metrics record what is done with them"""
    mod = v.mod(BM)
    g, k = new_log(), len([m for m in sel if m != "NESS"])
    clk = v.clock(BM, "ais_benchmarks.metrics.performance")
    d = v.dim("d")
    t = Obj()
    t.name, t.dims = "target", d
    f = v.file("rows.txt") if file else None

    def on_row(path, text):
        v.ensure("rows go to the result file", path == f)
        v.ensure("a row is written when every metric of the iteration is computed", g.sampled == 1 and g.npost == k and g.ncomp == k)
        g.rows = g.rows + text.count("\n")
    if v.symbolic:
        v.written(on_row)

    def rows_now():
        return g.rows if v.symbolic else v.text(f).count("\n")

    class Sampler:
        name = "some_method"
        num_proposal_samples = num_proposal_evals = num_target_evals = 3

        def get_NESS(self):
            return 0.5

        def get_acceptance_rate(self):
            return 0.25

        def get_viz_frames(self):
            return None

        def reset(self):
            v.ensure("a repetition ends with every metric computed", not g.began or (g.npost == k and g.ncomp == k))
            v.ensure("a repetition goes on to the sample limit or the time limit", v.Or(not g.began, v.le(n_max, g.have), v.lt(limit, g.total)))
            g.have, g.total, g.began = 0, 0.0, False
            g.npre = g.npost = g.ncomp = g.sampled = 0
            clk.advance(1.5)

        def importance_sample(self, target_d=None, n_samples=None, timeout=None):
            if not g.began:
                v.ensure("a repetition starts from reset metrics", g.nreset >= k)
                g.reps = g.reps + 1
            else:
                v.ensure("nothing is sampled once there are enough samples", v.lt(g.have, n_max))
                if timed:
                    v.ensure("nothing is sampled once the time limit is passed", v.le(g.total, limit))
            if file:
                v.ensure("every iteration recorded one row", v.eq(rows_now(), g.calls))
            v.ensure("every metric is prepared before sampling", g.npre == k)
            v.ensure("the target is sampled", target_d is t)
            v.ensure("it asks for a batch beyond what it has", v.eq(n_samples, g.have + batch))
            if timed:
                v.ensure("only the remaining time is given", v.eq(timeout, limit - g.total))
            v.ensure("the remaining time is given", v.And(v.le(limit - g.total, timeout), v.le(timeout, limit)))
            g.nreset, g.began, g.npre, g.npost, g.ncomp, g.sampled = 0, True, 0, 0, 0, 1
            g.calls = g.calls + 1
            if v.symbolic:
                dt = v.fresh_reals("dt", (1,), nonneg=True)[0]
                r = v.fresh_int("returned", 0)
                s, w = v.fresh_reals("s", (r, d)), v.fresh_reals("w", (r,), nonneg=True)
            else:
                dt = float(v.rng.choice([0.0, 0.25, 1.0, 3.0])) if v.rng.random() < 0.95 else 1e3
                r = int(v.rng.choice([n_samples, n_samples + 1, n_samples + 7, max(n_samples - 1, 0)]))
                s, w = v.np.zeros((r, d)), v.np.ones(r)
            clk.advance(dt)
            g.have, g.total = r, g.total + dt
            return s, w
    making = []

    def init(c):
        real = c.__init__

        def h(self, *a, **kw):
            making.append(self)
            real(self, *a, **kw)
            making.remove(self)
        return h
    tag = {"reset": "nreset", "pre": "npre", "post": "npost", "compute": "ncomp"}

    def hook(name):
        def h(self, *a, **kw):
            if self in making:
                return 0.0                       # calibration by the constructor
            if name == "pre":
                v.ensure("metrics are prepared before the sampling call", g.sampled == 0 or (g.npost == k and g.ncomp == k))
                if g.sampled == 1:
                    g.npre = g.npost = g.ncomp = g.sampled = 0
            if name == "post":
                v.ensure("metrics stop measuring right after the sampling call", g.sampled == 1 and g.ncomp == 0)
            if name == "compute":
                v.ensure("metrics are computed after all stopped measuring", g.sampled == 1 and g.npost == k)
                v.ensure("the metric compares the target with the sampler", kw.get("p") is t and isinstance(kw.get("q"), Sampler))
            if name != "reset":
                clk.advance(0.75)
            setattr(g, tag[name], getattr(g, tag[name]) + 1)
            return 1.0 if name == "compute" else None
        return h
    v.fakes("ais_benchmarks.metrics.performance")
    for key in sel:
        if key != "NESS":
            c = getattr(mod, CLASSES[key])
            for n in tag:
                v.setmod(c, n, hook(n))
            v.setmod(c, "__init__", init(c))
    return mod.CBenchmark, Sampler(), t, g, f, d, k


def contracts(v, g, k, d, n_max, batch, limit):
    """the loop over repetitions and the loop of one repetition"""
    new = {"rep": None, "it": None}

    def first(which):
        if new[which] is None:
            new[which] = v.choose(2) == 0
        return new[which]
    real = lambda nm: v.fresh_reals(nm, (1,), nonneg=True)[0]

    def log(which):
        f = lambda: first(which)
        full = lambda o: 0 if f() else k
        return {"began": lambda o: not f(), "npre": lambda o: 0, "npost": full, "ncomp": full, "sampled": lambda o: 0 if f() else 1,
                "nreset": lambda o: k if f() and which == "it" else 0, "have": lambda o: 0 if f() else v.fresh_int("have"),
                "total": lambda o: 0.0 if f() else real("total"), "calls": lambda o: v.fresh_int("calls"),
                "rows": lambda o: v.fresh_int("rows"), "reps": lambda o: v.fresh_int("reps")}

    def pending():
        return ("the iteration's metrics are all computed", not g.began or (g.npre == 0 and g.npost == k and g.ncomp == k and g.sampled == 1))

    def rep_inv(env, j):
        return [("as many repetitions as counted", v.eq(g.reps, j)), ("one row for each iteration", v.eq(g.rows, g.calls)), pending(),
                ("some repetition before", v.Iff(g.began, v.lt(0, j))), ("sampling time", v.le(0, g.total)),
                ("it went on to the sample limit or the time limit", v.Or(not g.began, v.le(n_max, g.have), v.lt(limit, g.total)))]

    def it_inv(env):
        s = env["samples_acc"]
        return [("the samples are the last ones returned", v.eq(v.len(s), g.have)), ("a batch more is asked for", v.eq(env["n_samples"], g.have + batch)),
                ("sampling time", v.And(v.le(0, env.get("sampling_time", 0)), v.le(env.get("sampling_time", 0), g.total))), ("sampling time is not negative", v.le(0, g.total)),
                pending(),
                ("metrics are reset", g.began or (g.nreset >= k and g.npre == g.npost == g.ncomp == g.sampled == 0)),
                ("no samples yet", v.Or(g.began, v.And(v.eq(g.have, 0), v.eq(g.total, 0)))),
                ("this repetition is counted", v.eq(g.reps, new["j"] + (1 if g.began else 0))),
                ("one row for each iteration", v.eq(g.rows, g.calls))]

    def rep_snap(env):
        new["j"] = g.reps
    v.for_inv("repetitions", rep_inv, None, log("rep"), rep_snap, over=new_reps(v))
    h = log("it")
    h.update(samples_acc=lambda o: v.np.array([]) if first("it") else v.fresh_reals("sacc", (g.have, d)), sampling_time=lambda o: real("st"),
             n_samples=lambda o: v.fresh_int("ask"), hr=lambda o: v.fresh_int("hr"), mn=lambda o: v.fresh_int("mn"), sec=lambda o: real("sec"),
             niter=lambda o: v.fresh_int("niter"))
    v.while_inv("one repetition", it_inv, None, h)


def new_reps(v):
    return v.reps


def k_limit(v):
    """known finding: sampling time is not accumulated, so the time limit applies to each sampling call alone"""
    n_max, batch = v.dim("max", small=30), v.dim("batch", small=12)
    limit = v.real("limit", pos=True)
    B, m, t, g, f, d, k = setup(v, limit, batch, n_max, [], timed=True)
    B.evaluate_method(ndims=d, target_dist=t, sampling_method=m, max_samples=n_max, sampling_eval_samples=10, metrics=[], rseed=-1,
                      n_reps=1, batch_size=batch, debug=False, filename=f, max_sampling_time=limit)


def h_evaluate(v):
    sel = v.pick("metrics", [["JSD", "T"], ["NESS"], ["MEM", "NESS", "KLD"], []])
    n_max, batch = v.dim("max", small=30), v.dim("batch", small=12)
    limit, reps = v.real("limit", pos=True), v.dim("reps", small=3)
    seed = v.pick("seed", [-1, 0, 7])
    B, m, t, g, f, d, k = setup(v, limit, batch, n_max, sel)
    v.has_method(B, "evaluate_method", 5)
    seeds = []
    v.setmod(v.np.random, "seed", lambda *a, **kw: seeds.append((a or tuple(kw.values()), g.began, g.nreset)))
    if v.symbolic:
        v.reps = reps
        contracts(v, g, k, d, n_max, batch, limit)
    B.evaluate_method(ndims=d, target_dist=t, sampling_method=m, max_samples=n_max, sampling_eval_samples=10, metrics=sel, rseed=seed,
                      n_reps=reps, batch_size=batch, debug=False, filename=f, max_sampling_time=limit)
    v.ensure("the random source is seeded once, at the start, when the seed is not negative",
             seeds == ([((seed,), False, 0)] if seed >= 0 else []))
    v.ensure("the requested number of repetitions", v.eq(g.reps, reps))
    v.ensure("the last repetition ends with every metric computed", g.npost == k and g.ncomp == k)
    v.ensure("the last repetition goes on to the sample limit or the time limit", v.Or(v.le(n_max, g.have), v.lt(limit, g.total)))
    v.ensure("every iteration recorded one row", v.eq(g.rows if v.symbolic else v.text(f).count("\n"), g.calls))
    v.cover("evaluated")
