"""C12 the time and memory metrics accumulate measured intervals and reset to zero."""
MOD = "ais_benchmarks.metrics.performance"
KINDS = ["time", "memory"]


class Case:
    def __init__(self, v, kind):
        v.fakes(MOD)
        self.v, self.kind = v, kind
        self.ev = {"time": "time", "memory": "heap"}[kind]
        self.m = v.cls(MOD + "." + {"time": "CElapsedTime", "memory": "CMemoryUsage"}[kind])()
        self.cal = self.m.overhead if kind == "time" else 0

    def drive(self, n, fn="measure"):
        """n measurements; the sum of what they measured"""
        v = self.v
        mark = v.mark(self.ev)
        getattr(v.drive("metric"), fn)(self.m, n)
        r = v.loop_readings(self.ev, mark, n)
        v.ensure("two readings per measurement", len(r) == 2)
        if self.kind == "time":
            return v.sum(n, lambda j: r[1](j) - r[0](j) - self.cal)
        return v.sum(n, lambda j: r[1](j) - r[0](j)) / 10 ** 6

    def check(self, label, total):
        v = self.v
        v.ensure(label, v.eq(self.m.value, total, tol=1e-6))
        v.ensure(label + " (reading)", v.eq(self.m.compute(), total, tol=1e-6))
        v.ensure(label + " (unchanged by reading)", v.eq(self.m.value, total, tol=1e-6))
        if self.kind == "time":
            v.ensure("the calibration does not change", v.eq(self.m.overhead, self.cal))


def h_new(v):
    c = Case(v, v.pick("kind", KINDS))
    c.check("a new metric is zero", 0)
    v.cover("new")


def h_accumulates(v):
    c = Case(v, v.pick("kind", KINDS))
    total = c.drive(v.dim("n"), v.pick("driver", ["measure", "measure_and_read"]))
    c.check("sum of the measured intervals", total)
    v.cover("measured")


def h_reset(v):
    c = Case(v, v.pick("kind", KINDS))
    c.drive(v.dim("n"))
    c.m.reset()
    c.check("zero after a reset", 0)
    total = c.drive(v.dim("k"))
    c.check("sum of the intervals measured since the reset", total)
    v.cover("measured")


def h_reset_while_measuring(v):
    c = Case(v, v.pick("kind", KINDS))
    c.m.pre()
    c.m.reset()
    c.check("zero after a reset", 0)
    total = c.drive(v.dim("k"))
    c.check("sum of the intervals measured since the reset", total)
    v.cover("measured")


def h_two_metrics(v):
    """metrics do not share their measurements"""
    k = v.pick("kind", KINDS)
    c, e = Case(v, k), Case(v, k)
    t1 = c.drive(v.dim("n"))
    t2 = e.drive(v.dim("k"))
    c.check("sum of its own intervals", t1)
    e.check("sum of its own intervals (second)", t2)
    v.cover("measured")
