"""C27 benchmark configuration is loaded faithfully and replaces what was there."""
from contracts.c25 import BM, Obj

METHODS = ["CMixturePMC", "CLayeredAIS", "CDeterministicMixtureAIS", "CHiDaiseeSampling", "CTreePyramidSampling"]
TARGETS = ["CGaussianMixtureModel", "CMultivariateNormal", "CMultivariateUniform", "CMultivariateExponential"]


def same(v, a, b):
    """exactly the same content"""
    if isinstance(b, dict):
        return v.And(*([isinstance(a, dict) and set(a) == set(b)] + [same(v, a[k], b[k]) for k in b if isinstance(a, dict) and k in a]))
    if isinstance(b, (list, tuple)):
        return v.And(*([isinstance(a, (list, tuple)) and len(a) == len(b)] + [same(v, x, y) for x, y in zip(a, b)]))
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)) or a is None or b is None:
        return type(a) is type(b) and a == b
    return v.eq(a, b) if v.symbolic else a == b


def value(v, name):
    """a parameter: (what the file says, the parameter)"""
    kind = v.pick("kind_" + name, ["real", "tiny", "int", "text", "list", "flag"])
    if kind in ("real", "tiny"):
        x = v.real("x_" + name)
        if not v.symbolic:
            x = float(x) + float(v.rng.random()) * (1e-11 if kind == "tiny" else 1)
        return x, x
    if kind == "int":
        i = v.int("i_" + name)
        return i, i
    if kind == "text":
        return "'leaf'", "leaf"
    if kind == "flag":
        return True, True
    xs = [v.real("x0_" + name), v.real("x1_" + name)]
    return xs, xs


def recorder(v, mod, names, made):
    def cls(nm):
        class Rec:
            def __init__(self, params=None, **kw):
                made.append(self)
                self.kind, self.params, self.extra = nm, params, kw
                self.dims = ("dims of", nm, len(made))
                self.name, self.debug = "unset", "unset"
        return Rec
    for nm in names:
        v.setmod(mod, nm, cls(nm))


def h_methods(v):
    """methods files, one loaded after the other"""
    mod, made = v.mod(BM), []
    recorder(v, mod, METHODS, made)
    b = mod.CBenchmark()
    for load in range(v.pick("loads", [1, 2])):
        k = v.pick("methods%d" % load, [1, 3] if load == 0 else [2])
        want = []
        doc = {"methods": []}
        for i in range(k):
            typ = METHODS[(i * 2 + load + v.pick("type", [0, 1]) if load == i == 0 else i * 2 + load) % len(METHODS)]
            ps = {n: value(v, "%s_%d" % (n, load)) if (i, j, load) == (0, 0, 0) else (lambda x: (x, x))(v.real("%s_%d_%d" % (n, i, load)))
                  for j, n in enumerate(["sigma", "K", "tau"][:3 - i])}
            nm, dbg = "method %d" % (k - i), i % 2 == 0
            doc["methods"].append({"name": nm, "type": typ, "debug": dbg, "params": {n: x[0] for n, x in ps.items()}})
            want.append((nm, typ, dbg, {n: x[1] for n, x in ps.items()}))
        d = v.dim("d%d" % load)
        lo, hi = v.reals("lo%d" % load, (d,)), v.reals("hi%d" % load, (d,))
        if not v.symbolic:
            lo, hi = v.np.round(lo * 1000 + v.rng.random(d), 3), v.np.round(hi * 1000 + v.rng.random(d), 3)      # printed without loss
        del made[:]
        b.load_methods(v.yaml("methods%d.yaml" % load, doc), lo, hi, d)
        v.ensure("exactly the methods of this file", len(b.methods) == k and len(made) == k and all(x is y for x, y in zip(b.methods, made)))
        for m, (nm, typ, dbg, ps) in zip(b.methods, want):
            v.ensure("type, name and debug flag", m.kind == typ and m.name == nm and m.debug is dbg)
            p = m.params
            v.ensure("parameters are those of the file and the space", set(p) == set(ps) | {"space_min", "space_max", "dims"})
            v.ensure("parameter values", v.And(*[same(v, p[n], ps[n]) for n in ps if n in p]))
            v.ensure("dimension of the space", v.eq(p["dims"], d))
            for n, x in (("space_min", lo), ("space_max", hi)):
                v.ensure_shape("limits of the space: shape", p[n], (d,))
                v.ensure("limits of the space", v.forall(d, lambda i: same(v, v.at(p[n], i), v.at(x, i))))
    v.cover("methods")


def k_limits(v):
    """known finding: the limits go through their printed form, which has eight decimals and at most a thousand entries"""
    mod, made = v.mod(BM), []
    recorder(v, mod, METHODS, made)
    b = mod.CBenchmark()
    d = v.dim("d")
    lo, hi = -v.rng.random(d) * 1e-6, 1000 + v.rng.random(d)
    b.load_methods(v.yaml("m.yaml", {"methods": [{"name": "m", "type": METHODS[0], "debug": False, "params": {}}]}), lo, hi, d)
    for n, x in (("space_min", lo), ("space_max", hi)):
        v.ensure("limits of the space", v.np.array_equal(made[0].params[n], x))


def k_benchden(v):
    """known finding: the shipped BenchDen file names its target types as the benchmark cannot find them"""
    import os
    mod = v.mod(BM)
    try:
        mod.CBenchmark().load_benchmark(os.path.join(os.path.dirname(mod.__file__), "benchden", "def_benchmark_benchden.yaml"))
    except (NameError, ValueError):
        v.ensure("the shipped BenchDen file can be loaded", False)


def h_targets(v):
    """benchmark files, one loaded after the other"""
    mod, made = v.mod(BM), []
    recorder(v, mod, TARGETS, made)
    b = mod.CBenchmark()
    for load in range(v.pick("loads", [1, 2])):
        k = v.pick("targets%d" % load, [1, 2, 3])
        doc, want = {"targets": []}, []
        for i in range(k):
            typ, nm = TARGETS[(i + load) % len(TARGETS)], ["t b", "gmm", "gmm"][i]
            r = lambda n: v.real("%s_%d_%d" % (n, i, load)) * (1 if v.symbolic else float(v.rng.choice([1e-9, 1, 12345.678])))
            ps = {"means": [[r("a"), r("b")], [r("c"), r("e")]], "weights": [r("w")], "flat": r("f"), "n": v.int("n_%d_%d" % (i, load)),
                  "text": "it's"} if i == 0 else ({} if i == 1 else {"mean": [r("m")]})
            nums = [v.int("%s_%d_%d" % (q, i, load), lo=1) for q in ("nsamples", "nsamples_eval", "batch_size")]
            doc["targets"].append({"name": nm, "type": typ, "params": ps, "batch_size": nums[2], "nsamples": nums[0], "nsamples_eval": nums[1],
                                   "tags": ["x"]})
            want.append((nm, typ, ps, nums))
        del made[:]
        b.load_benchmark(v.yaml("bench%d.yaml" % load, doc))
        v.ensure("exactly the targets of this file", len(b.targets) == k and len(made) == k and all(x is y for x, y in zip(b.targets, made)))
        for t, (nm, typ, ps, nums) in zip(b.targets, want):
            v.ensure("type and name", t.kind == typ and t.name == nm and not t.extra)
            v.ensure("parameters", same(v, t.params, ps))
        v.ensure("one dimension for each target", list(b.ndims) == [t.dims for t in made])
        for lst, j, what in ((b.nsamples, 0, "samples"), (b.eval_sampl, 1, "evaluation samples"), (b.batch_sizes, 2, "batch sizes")):
            v.ensure(what + " of each target", same(v, list(lst), [w[3][j] for w in want]))
    v.cover("targets")


def h_config(v):
    """run configurations, one loaded after the other"""
    mod = v.mod(BM)
    b = mod.CBenchmark()
    loads = v.pick("loads", [1, 2])
    mss, seeds = v.pick("metrics", [[["KLD"], []], [[], ["T", "NESS", "JSD"]], [["T", "NESS", "JSD"], ["MEM"]]]), v.pick("seed", [[-1, 5], [3, -1], [0, 0]])
    bits = v.pick("flags", [(0, 1, 2, 3), (3, 2, 1, 0), (1, 1, 2, 2)])
    for load in range(loads):
        ms, seed = mss[load], seeds[load]
        reps, dpi = v.int("reps%d" % load, lo=1), v.int("dpi%d" % load, lo=1)
        flags = {n: bool((k >> load) & 1) for n, k in zip(("text", "show", "save", "plots"), bits)}
        doc = {"nreps": reps, "rseed": seed, "metrics": ms,
               "debug": {"text": flags["text"], "plot": {"show": flags["show"], "save": flags["save"], "path": "dbg%d/" % load}},
               "animation": {"enable": True, "fps": 1, "animation_path": "anim/"},
               "output": {"file": "res.txt", "make_plots": flags["plots"], "plots_path": "plots%d/" % load, "plots_dpi": dpi}}
        b.load_config(v.yaml("config%d.yaml" % load, doc))
        v.ensure("metrics", list(b.metrics) == ms)
        v.ensure("repetitions", v.eq(b.n_experiments, reps))
        v.ensure("random seed", b.rseed == seed)
        v.ensure("debug settings", (b.debug_text, b.debug_plot, b.debug_plot_save, b.debug_plot_save_path) ==
                 (flags["text"], flags["show"], flags["save"], "dbg%d/" % load))
        v.ensure("output settings", v.And((b.generate_plots, b.generate_plots_path) == (flags["plots"], "plots%d/" % load), v.eq(b.plot_dpi, dpi)))
    v.cover("config")


def b_shipped(v):
    """the shipped files create the real methods and targets with the values they list"""
    import os
    import yaml
    mod, np = v.mod(BM), v.np
    here = os.path.dirname(mod.__file__)
    b = mod.CBenchmark()
    for f in ("def_benchmark.yaml",):
        b.load_benchmark(os.path.join(here, f))
        doc = yaml.safe_load(open(os.path.join(here, f)))["targets"]
        v.ensure("targets", [(t.name, type(t).__name__) for t in b.targets] == [(q["name"], q["type"]) for q in doc])
        for t, q in zip(b.targets, doc):
            for n in q["params"]:
                if n != "dims":
                    v.ensure("target parameter %s" % n, np.array_equal(np.array(t.params[n]), np.array(q["params"][n])))
            v.ensure("dimension", b.ndims[b.targets.index(t)] == t.dims)
    d = v.dim("d")
    lo = np.round(v.reals("lo", (d,)) + v.rng.random(d), 3)
    hi = np.round(lo + 1 + v.rng.random(d), 3)
    f = os.path.join(here, "def_methods.yaml")
    b.load_methods(f, lo, hi, d)
    doc = yaml.safe_load(open(f))["methods"]
    v.ensure("methods", [(m.name, type(m).__name__, m.debug) for m in b.methods] == [(q["name"], q["type"], q["debug"]) for q in doc])
    for m, q in zip(b.methods, doc):
        v.ensure("space", np.array_equal(m.space_min, lo) and np.array_equal(m.space_max, hi) and m.ndims == d)
        for n, x in q["params"].items():
            if hasattr(m, n) and not isinstance(x, str):
                v.ensure("method parameter %s" % n, np.all(np.asarray(getattr(m, n)) == x))
    v.cover("shipped")
