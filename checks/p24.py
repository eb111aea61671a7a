"""P24: clustering keeps the ends, the order and the requested side."""

import itertools

import numpy as np
from hypervehicle import utilities
from hypervehicle.geometry.path import (
    LinearFunction,
    RobertsFunction,
    clustered_roberts,
    distribute_points,
    roberts,
)

import ref
from mc import Violation

PROPERTY = "P24"
BETAS = [0.5, 0.0, -1.0, 0.999, 1.0001, 1.001, 1.01, 1.05, 1.2, 1.5, 2.0, 5.0, 50.0]
ENDS = [(False, False), (True, False), (False, True), (True, True)]
LIMITS = [(0.0, 1.0), (1.0, 0.0), (-2.0, 3.5), (4.0, 4.5), (0, 10), (5.0, -5.0), (1e-3, 2e-3)]
BOUNDS = {
    "quick": "4 end flags (as truth values and as numbers) x 13 stretching parameters x 1-30 "
    "intervals x 7 limits; functions called for scalars, arrays of 1 and 2 dimensions; "
    "2-30 vertices x 5 spacing exponents x 7 limits",
    "thorough": "as quick with up to 200 intervals and 30 stretching parameters",
}
ASSUMPTIONS = ["a stretching parameter of exactly one is not used"]


def betas(th):
    extra = list(np.round(1 + np.geomspace(2e-4, 20, 17), 6)) if th else []
    return BETAS + extra


def configs(tier):
    th = tier == "thorough"
    out = []
    for e in range(4):
        for b in betas(th):
            for n in list(range(1, 31)) + ([37, 50, 64, 99, 128, 200] if th else []):
                for num in (0, 1):
                    out.append(["points", e, float(b), n, num])
            out.append(["function", e, float(b)])
        for n in (1, 2, 3, 5, 10, 20, 30):
            out.append(["stronger", e, n, th])
    out.append(["linear"])
    for n in range(2, 31):
        for spacing in (None, 1.0, 0.5, 1.7, 3):
            out.append(["vertices", n, spacing])
    for a, b in itertools.product((0.0, 0.5), betas(th)):
        if b > 1:
            out.append(["roberts", a, float(b)])
    return out


def exact(t, e0, e1, b):
    """Roberts' transformation, written from its definition."""
    if b < 1 or not (e0 or e1):
        return t
    k = (b + 1) / (b - 1)
    if e0 and e1:
        m = k ** (2 * t - 1)
        return ((b + 1) * m - b + 1) / (2 * (1 + m))
    x = 1 - t if e0 else t
    m = k**x
    y = b * (m - 1) / (m + 1)
    return 1 - y if e0 else y


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(cfg[0])
    ctx.trace()


def check(x, lo, hi, e0, e1, b, n, what):
    x = np.asarray(x, float)
    w = hi - lo
    if x.shape != (n + 1,):
        raise Violation(f"{what}: {x.shape} values for {n} intervals")
    if abs(x[0] - lo) > 1e-9 * abs(w) or abs(x[-1] - hi) > 1e-9 * abs(w):
        raise Violation(f"{what}: ends {x[0]}, {x[-1]} instead of {lo}, {hi}")
    d = np.diff(x) / w
    if np.any(d <= 0):
        raise Violation(f"{what}: not monotonic")
    stretch = b > 1 and (e0 or e1)
    if not stretch:
        if np.abs(d - 1 / n).max() > 1e-9:
            raise Violation(f"{what}: not uniform")
    elif n > 1:
        if e0 and not e1 and np.any(np.diff(d) <= 0):
            raise Violation(f"{what}: spacing does not grow from the first end")
        if e1 and not e0 and np.any(np.diff(d) >= 0):
            raise Violation(f"{what}: spacing does not shrink towards the last end")
        if e0 and e1:
            if np.abs(d - d[::-1]).max() > 1e-9:
                raise Violation(f"{what}: not symmetric")
            h = d[: (n + 1) // 2]
            if len(h) > 1 and np.any(np.diff(h) <= 0):
                raise Violation(f"{what}: spacing does not grow from both ends")
    want = lo + w * np.array([exact(t, e0, e1, b) for t in np.linspace(0, 1, n + 1)])
    if np.abs(x - want).max() > 1e-8 * abs(w):
        raise Violation(f"{what}: {ref.worst(x, want)}")


def run_points(cfg, ctx):
    _, e, b, n, num = cfg
    e0, e1 = ENDS[e]
    a0, a1 = (int(e0), int(e1)) if num else (e0, e1)
    for lo, hi in LIMITS:
        x = distribute_points(lo, hi, n, a0, a1, b)
        check(x, lo, hi, e0, e1, b, n, f"{n} intervals from {lo} to {hi}")
        # the other end gives the mirrored points
        y = distribute_points(lo, hi, n, a1, a0, b)
        if np.abs((lo + hi - np.asarray(y)[::-1]) - x).max() > 1e-9 * abs(hi - lo):
            raise Violation("swapping the ends does not mirror the points")
        # and the other direction the same points
        z = distribute_points(hi, lo, n, a1, a0, b)
        if np.abs(np.asarray(z)[::-1] - x).max() > 1e-9 * abs(hi - lo):
            raise Violation("swapping ends and limits does not reverse the points")
        ctx.op(3)
    f = RobertsFunction(a0, a1, b)
    check(f.distribute_parameter_values(n + 1), 0.0, 1.0, e0, e1, b, n, f"{n + 1} parameter values")
    ctx.op()


def run_function(cfg, ctx):
    _, e, b = cfg
    e0, e1 = ENDS[e]
    t = np.linspace(0, 1, 24)
    want = np.array([exact(x, e0, e1, b) for x in t])
    for f in (RobertsFunction(e0, e1, b), lambda x: clustered_roberts(x, e0, e1, b), RobertsFunction(end0=e0, end1=e1, beta=b)):
        given = t.copy()
        got = np.asarray(f(given), float)
        if not np.array_equal(given, t):
            raise Violation("the argument was changed")
        one = np.array([float(f(float(x))) for x in t])
        two = np.asarray(f(t.reshape(4, 6)), float).reshape(-1)
        for g in (got, one, two):
            if g.shape != want.shape or np.abs(g - want).max() > 1e-8:
                raise Violation(f"values {ref.worst(g, want)}")
        if np.abs(one - got).max() > 1e-12:
            raise Violation("a scalar and an array give different values")
        for x, y in ((0.0, 0.0), (1.0, 1.0)):
            if abs(float(f(x)) - y) > 1e-9:
                raise Violation(f"end {x} becomes {f(x)}")
        ctx.op(4)
    if abs(float(RobertsFunction(e0, e1, b)(0)) - 0) > 1e-9 or abs(float(RobertsFunction(e0, e1, b)(1)) - 1) > 1e-9:
        raise Violation("integer ends are moved")


def run_stronger(cfg, ctx):
    """More stretching as the parameter approaches one."""
    _, e, n, th = cfg
    e0, e1 = ENDS[e]
    bs = sorted({b for b in betas(th) if b > 1}, reverse=True)
    if n < 2 or not (e0 or e1) or (n == 2 and e0 and e1):
        return
    last = None
    for b in bs:
        x = np.asarray(distribute_points(0.0, 1.0, n, e0, e1, b), float)
        d = np.diff(x)
        s = [d[0]] if e0 else []
        s += [d[-1]] if e1 else []
        if last is not None and any(p >= q for p, q in zip(s, last)):
            raise Violation(f"spacing {s} at the end for {b}, {last} for a weaker stretching")
        if any(p >= 1 / n for p in s):
            raise Violation("spacing at the end is not smaller than the uniform one")
        last = s
        ctx.op()


def run_linear(cfg, ctx):
    f = LinearFunction()
    t = np.linspace(0, 1, 12)
    if not np.array_equal(f(t), t) or not np.array_equal(f(t.reshape(3, 4)), t.reshape(3, 4)):
        raise Violation("values of arrays are changed")
    for x in t:
        if f(float(x)) != x:
            raise Violation(f"{x} becomes {f(x)}")
    for n in range(2, 40):
        d = np.asarray(f.distribute_parameter_values(n))
        if d.shape != (n,) or np.abs(d - np.arange(n) / (n - 1)).max() > 1e-12:
            raise Violation(f"{n} parameter values {d}")
        ctx.op()


def run_vertices(cfg, ctx):
    """The distribution used for meshes without clustering functions."""
    _, n, spacing = cfg
    f = getattr(utilities, "default_vertex_func", None)
    if f is None:
        return
    for lo, hi in LIMITS:
        x = np.asarray(f(lo, hi, n) if spacing is None else f(lo, hi, n, spacing), float)
        want = lo + (hi - lo) * np.linspace(0, 1, n) ** (spacing or 1.0)
        if x.shape != want.shape or np.abs(x - want).max() > 1e-9 * abs(hi - lo):
            raise Violation(f"{n} values from {lo} to {hi}, exponent {spacing}: {x.tolist()}")
        ctx.op()


def run_roberts(cfg, ctx):
    _, a, b = cfg
    t = np.linspace(0, 1, 21)
    e0 = a == 0.5
    want = np.array([exact(x, e0, True, b) for x in t])
    got = np.asarray(roberts(t, a, b), float)
    if np.abs(got - want).max() > 1e-8:
        raise Violation(ref.worst(got, want))
    one = np.array([float(roberts(float(x), a, b)) for x in t])
    if np.abs(one - got).max() > 1e-12:
        raise Violation("a scalar and an array give different values")
    ctx.op(2)
