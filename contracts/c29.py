"""C29 kernels have their textbook profiles; a kernel density estimate is the weighted mixture of kernel components."""
from contracts.lib import P, D
KERNELS = ["normal", "uniform", "triangular", "epanechnikov"]


def kernel(v, kind):
    return getattr(v.cls(D + "CKernel"), "kernel_" + kind)


def profile(v, kind, u):
    """the textbook profile (for the normal one up to the rounding of the constant in front)"""
    if kind == "normal":
        return v.quot(1, v.sqrt(2 * v.pi)) * v.exp(-u * u / 2)
    inside = v.And(v.le(-1, u), v.le(u, 1))
    return v.If(inside, {"uniform": 0.5, "triangular": 1 - v.abs(u), "epanechnikov": 0.75 * (1 - u * u)}[kind], 0)


def close(v, kind, val, u, f=1):
    """val is f times the profile at u"""
    if kind == "normal":
        e = f * v.exp(-u * u / 2)
        return v.And(v.le(0.39894228 * e, val), v.le(val, 0.39894229 * e))
    return v.eq(val, f * profile(v, kind, u), tol=1e-9)


def h_profile(v):
    kind = v.pick("kernel", KERNELS)
    n = v.dim("n")
    u = v.reals("u", (n,)) if v.bool("flat") else v.reals("u", (n, 1))
    at = (lambda a, i: v.at(a, i)) if v.ndim(u) == 1 else (lambda a, i: v.at(a, i, 0))
    before = v.copy(u)
    k, s = kernel(v, kind)(u), kernel(v, kind)(-u)
    v.ensure_shape("one value per point", k, (n,) if v.ndim(u) == 1 else (n, 1))
    v.ensure("textbook profile", v.forall(n, lambda i: close(v, kind, at(k, i), at(before, i))))
    v.ensure("not negative", v.forall(n, lambda i: v.le(0, at(k, i))))
    v.ensure("symmetric", v.forall(n, lambda i: v.eq(at(k, i), at(s, i))))
    if kind != "normal":
        v.ensure("zero beyond distance one", v.forall(n, lambda i: v.Implies(v.lt(1, v.abs(at(before, i))), v.eq(at(k, i), 0))))
    v.ensure("the points are left alone", v.forall(n, lambda i: v.eq(at(u, i), at(before, i))))
    v.cover("profile")


def h_component(v):
    kind = v.pick("kernel", KERNELS)
    n = v.dim("n")
    x, l, b = v.reals("x", (n, 1)), v.reals("l", (1,)), v.reals("b", (1,), pos=True)
    c = v.cls(D + "CKernel")(l, b, kernel(v, kind))
    p, q = c.prob(x), c.log_prob(x)
    v.ensure_shape("one density per point", p, (n,))
    u = lambda i: (v.at(x, i, 0) - v.at(l, 0)) * v.at(b, 0)
    v.ensure("density", v.forall(n, lambda i: close(v, kind, v.at(p, i), u(i), v.at(b, 0))))
    v.ensure_shape("one log-density per point", q, (n,))
    v.ensure("log-density", v.forall(n, lambda i: v.eq(v.at(q, i), v.log(v.at(p, i)))))
    v.cover("component")


def h_kde(v):
    """for every kernel function, in particular the four above"""
    n, m = v.dim("n"), v.dim("m")
    f = v.fn("kernel")
    s, w, b, x = v.reals("s", (m, 1)), v.reals("w", (m,), pos=True), v.reals("b", (1,), pos=True), v.reals("x", (n, 1))
    lo = v.reals("lo", (1,))
    k = v.cls(P + "CKernelDensity")({"samples": s, "weights": w, "kernel_f": f, "kernel_bw": b, "support": [lo, lo + 1]})
    p = k.prob(x)
    v.ensure_shape("one density per point", p, (n,))
    W = v.sum(m, lambda j: v.at(w, j))
    u = lambda i, j: (v.at(x, i, 0) - v.at(s, j, 0)) * v.at(b, 0)
    v.ensure("weighted mixture of one component per sample", v.forall(n, lambda i: v.eq(
        v.at(p, i) * W, v.sum(m, lambda j: v.at(w, j) * v.at(b, 0) * f(u(i, j))), tol=1e-9)))
    q = k.log_prob(x)
    v.ensure_shape("one log-density per point", q, (n,))
    v.cover("estimate")


def h_kde_kernels(v):
    """the estimate with one sample is the kernel component"""
    kind = v.pick("kernel", KERNELS)
    n = v.dim("n")
    s, b, x, lo = v.reals("s", (1, 1)), v.reals("b", (1,), pos=True), v.reals("x", (n, 1)), v.reals("lo", (1,))
    k = v.cls(P + "CKernelDensity")({"samples": s, "weights": v.reals("w", (1,), pos=True), "kernel_f": kernel(v, kind), "kernel_bw": b,
                                     "support": [lo, lo + 1]})
    p = k.prob(x)
    v.ensure("density", v.forall(n, lambda i: close(v, kind, v.at(p, i), (v.at(x, i, 0) - v.at(s, 0, 0)) * v.at(b, 0), v.at(b, 0))))
    v.cover("estimate")
