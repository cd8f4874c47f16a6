"""C25 every result row lines up with the result file's header."""
BM = "ais_benchmarks.benchmark.CBenchmark"
TAIL = ["NESS", "method", "target_d", "accept_rate", "proposal_samples", "proposal_evals", "target_evals"]
METRICS = ["KLD", "JSD", "NESS", "EVMSE", "T", "MEM"]
CLASSES = {"KLD": "CKLDivergence", "JSD": "CJSDivergence", "EVMSE": "CExpectedValueMSE", "T": "CElapsedTime", "MEM": "CMemoryUsage"}
SPECIAL = [float("nan"), float("inf"), -float("inf"), 1e300, -1e300, -123456789.123456, 1e-300, -0.0, 123456.7]


class Obj:
    pass


def number(v, name):
    """any number, of any size"""
    if v.symbolic:
        return v.real(name)
    x = v.real(name)
    k = int(v.rng.integers(3))
    return float(v.rng.choice(SPECIAL)) if k == 0 else (x * 10.0 ** float(v.rng.integers(-9, 15)) if k == 1 else x)


def fake_method(v, tag=""):
    ns, ac = v.real("ness" + tag, lo=0, hi=1), number(v, "acc" + tag)
    m = Obj()
    m.name = "m_pmc_90%" if tag else v.pick("method", ["lais", "m_pmc_90%"])
    m.get_NESS, m.get_acceptance_rate = (lambda: ns), (lambda: ac)
    m.num_proposal_samples, m.num_proposal_evals, m.num_target_evals = [v.int(n + tag, lo=0) * (1 if v.symbolic else int(v.rng.choice([1, 10 ** 9])))
                                                                        for n in ("ps", "pe", "te")]
    return m


def check_row(v, row, dims, n, vals, m, target):
    want = [(dims, 0, 0), (n, 0, 0)] + [(x, 0, 1e-5) for x in vals] + [(m.get_NESS(), 0, 1e-3), (m.name, 0, 0), (target, 0, 0),
            (m.get_acceptance_rate(), 0, 1e-3), (m.num_proposal_samples, 0, 0), (m.num_proposal_evals, 0, 0), (m.num_target_evals, 0, 0)]
    v.ensure("one field per column", v.len(row) == len(want))
    names = ["dims", "output_samples"] + ["metric %d" % i for i in range(len(vals))] + TAIL
    for f, (x, r, a), c in zip(row, want, names):
        v.ensure("the field is the value of its column (%s)" % c, v.shows(f, x, r + 1e-6, a))


def h_row(v):
    """the row written for any values of any number of metrics"""
    B = v.cls(BM + ".CBenchmark")
    v.has_method(B, "write_results", 5)
    k = v.pick("metrics", [0, 1, 2, 3, 4, 5])
    names = [m for m in METRICS if m != "NESS"][:k]
    vals = [number(v, "val%d" % i) for i in range(k)]
    m, t = fake_method(v), Obj()
    t.dims, t.name = v.dim("d", small=200), "gmm_[2D]"
    n = v.int("n", lo=0)
    f = v.file("out.txt")
    B.write_results(results=dict(zip(names, vals)), method=m, target=t, nsamples=n, file=f)
    rows = v.rows(v.text(f))
    v.ensure("one row", len(rows) == 1)
    check_row(v, rows[0], t.dims, n, vals, m, t.name)
    v.cover("row")


def h_run(v):
    """header and rows of a whole run"""
    perm = v.pick("metrics", [[], ["JSD"], ["T", "KLD"], ["MEM"], ["EVMSE", "JSD"], ["MEM", "T", "KLD", "JSD"], ["KLD", "JSD", "EVMSE", "T", "MEM"]])
    run(v, perm)


def k_ness(v):
    """known finding: NESS among the metrics is in the header twice, in the rows once"""
    run(v, v.pick("metrics", [["NESS"], ["NESS", "MEM"], ["EVMSE", "NESS", "JSD"], ["KLD", "JSD", "NESS", "EVMSE", "T", "MEM"]]))


def k_wide(v):
    """known finding: an effective sample size of more than eight characters runs into the field before it"""
    B = v.cls(BM + ".CBenchmark")
    m, t = fake_method(v), Obj()
    big = v.pick("big", [12345.678, 1e12, -1234.5])
    m.get_NESS = lambda: big
    t.dims, t.name = v.dim("d", small=200), "gmm"
    vals = [number(v, "val0")]
    f = v.file("out.txt")
    B.write_results(results={"KLD": vals[0]}, method=m, target=t, nsamples=3, file=f)
    check_row(v, v.rows(v.text(f))[0], t.dims, 3, vals, m, t.name)


def run(v, perm):
    mod = v.mod(BM)
    v.fakes("ais_benchmarks.metrics.performance")
    want = []
    count = [0]

    def compute(self, key, p):
        if p is None:
            return 0.0                       # calibration by the metric's constructor
        count[0] += 1
        r = number(v, "val%d" % count[0])
        self.value = r
        want[-1][1][key] = r
        return r
    for key in perm:
        if key != "NESS":
            c = getattr(mod, CLASSES[key])
            for n in ("reset", "pre", "post"):
                v.setmod(c, n, lambda self: None)
            v.setmod(c, "compute", lambda self, p=None, q=None, nsamples=None, key=key, **k: compute(self, key, p))
    d = v.dim("d")
    tgt = Obj()
    tgt.name, tgt.dims = "target", d
    lo, hi = v.reals("lo", (d,)), v.reals("hi", (d,))
    tgt.support = lambda: [lo, hi]
    have = v.dim("have", small=5)

    class Sampler:
        name = "some_method"

        def reset(self):
            pass

        def importance_sample(self, target_d=None, n_samples=None, timeout=None):
            o = fake_method(v, "_%d" % len(want))
            for a in vars(o):
                if a != "name":
                    setattr(self, a, getattr(o, a))
            s = v.np.zeros((have, d))
            want.append((have, {}, o))
            return s, v.np.ones(have)

        def get_viz_frames(self):
            return None
    nm = v.pick("nmethods", [1, 2])
    reps = v.pick("reps", [1, 2])

    class Bench(mod.CBenchmark):
        def load_config(self, f):
            self.metrics, self.n_experiments, self.rseed = list(perm), reps, -1
            self.debug_plot, self.generate_plots = False, False

        def load_benchmark(self, f):
            self.targets, self.ndims, self.nsamples, self.eval_sampl, self.batch_sizes = [tgt], [d], [1], [10], [have]

        def load_methods(self, f, lo, hi, dims):
            self.methods = [Sampler() for _ in range(nm)]
    f = v.file("out.txt")
    b = Bench()
    b.debug_plot_save_path, b.generate_plots_path = v.file("dbg"), v.file("plots")
    if v.symbolic:
        v.stub(mod.CBenchmark, "_check_make_paths", staticmethod(lambda p: None))
    b.run("b.yaml", "m.yaml", "c.yaml", f)
    rows = v.rows(v.text(f))
    cols = ["dims", "output_samples"] + [m for m in perm if m != "NESS"] + TAIL
    v.ensure("the header names every column", len(rows) > 0 and list(rows[0]) == cols)
    v.ensure("one row for each iteration", len(rows) == 1 + len(want) and len(want) == nm * reps)
    for row, (n, res, o) in zip(rows[1:], want):
        o.name = Sampler.name
        v.ensure("every configured metric is computed", all(m in res for m in perm if m != "NESS"))
        check_row(v, row, d, n, [res[m] for m in perm if m != "NESS"], o, tgt.name)
    v.cover("run")
