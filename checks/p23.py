"""P23: reparameterised paths and lengths describe the same curve."""

import itertools

import numpy as np
from hypervehicle.geometry import Arc, Bezier, Line, Polyline, Vector3
from hypervehicle.geometry.geometry import (
    ElipsePath,
    OffsetPathFunction,
    ReversedPath,
    SubRangedPath,
    SurfacePerimeter,
)
from hypervehicle.geometry.path import ArcLengthParameterizedPath, Path, Spline

import ref
import surfaces
from mc import Violation

PROPERTY = "P23"
V = Vector3
SUBS = {
    "a": (0.0, 1.0),
    "b": (0.2, 0.7),
    "c": (0.9, 0.1),
    "d": (0.0, 0.45),
    "e": (1.0, 0.6),
    "f": (1.0, 0.0),
    "g": (0, 1),
    "h": (0.5, 1),
}
OPS = ["S" + k for k in SUBS] + ["R", "A", "A50"]
BOUNDS = {
    "quick": f"all chains of up to 2 of {len(OPS)} reparameterisations on 10 kinds of path "
    "(arc length at most once below depth 2), divisions of each into 2 and 3 parts; arc length tables of 1-100 entries; all "
    "polylines of up to 3 of 6 segment kinds",
    "thorough": "as quick with chains of 3 and polylines of up to 4 segments",
}
ASSUMPTIONS = [
    "lengths of curved paths are sums of 20 chords: compared within 1%, within 5% where a "
    "chord may cut a corner",
    "arc length is tabulated: uniform speed within 1% and points within 2e-3 of the length",
]
T = (0.0, 0.13, 0.4, 0.5, 0.77, 1.0)


def _base():
    a, b, c = V(0.0, 0.2, 0.1), V(1.5, 0.9, -0.4), V(2.0, -0.5, 1.0)
    return {
        "line": lambda: Line(a, b),
        "short": lambda: Line(V(3.0, 3.0, 3.0), V(3.0, 3.01, 3.0)),
        "bezier": lambda: Bezier([a, V(0.5, 2.0, 0.3), b]),
        "cubic": lambda: Bezier([a, V(0.1, 0.3, 0.1), V(2.5, 1.0, 2.0), c]),
        "arc": lambda: Arc(V(1.0, 0.5, 0.0), V(0.0, 1.5, 0.0), V(0.0, 0.5, 0.0)),
        "tilted": lambda: Arc(V(1.0, 1.0, 0.0), V(-0.5, 0.5, np.sqrt(1.5)), V(0.0, 0.0, 0.0)),
        "poly": lambda: Polyline([Line(a, b), Line(b, c)]),
        "mixed": lambda: Polyline([Line(a, b), Bezier([b, V(2.5, 0.9, 0.0), c]), Line(c, V(3.0, 0.0, 0.0))]),
        "spline": lambda: Spline([a, b, c, V(3.0, 0.5, 0.2)]),
        "ellipse": lambda: ElipsePath(V(0.3, 0.1, 0.2), 0.4, 1.1, "bot"),
        "offset": lambda: OffsetPathFunction(Bezier([a, b, c]), lambda x, y: V(0.0, 0.1 * x, 0.3 * y)),
        "perimeter": lambda: SurfacePerimeter(surfaces.curved()),
    }


BASE = _base()
EXACT = {
    "line": np.sqrt(1.5**2 + 0.7**2 + 0.5**2),
    "short": 0.01,
    "arc": np.pi / 2,
    "tilted": np.sqrt(2) * np.pi / 2,
    "poly": np.sqrt(1.5**2 + 0.7**2 + 0.5**2) + np.sqrt(0.5**2 + 1.4**2 + 1.4**2),
}
STRAIGHT = ("line", "short")
KINKED = ("poly", "mixed", "perimeter")


def configs(tier):
    th = tier == "thorough"
    out = []
    for b in BASE:
        for n in range(0, 4 if th else 3):
            for chain in itertools.product(OPS, repeat=n):
                if sum(o[0] == "A" for o in chain) > (1 if n > 2 else 2):
                    continue
                out.append(["chain", b, list(chain)])
        for cuts in itertools.combinations((0.1, 0.25, 0.5, 0.6, 0.9), 1):
            out.append(["parts", b, list(cuts)])
        for cuts in itertools.combinations((0.1, 0.25, 0.5, 0.6, 0.9), 2):
            out.append(["parts", b, list(cuts)])
    kinds = ["line", "bezier", "arc", "sub", "rev", "nested"]
    for n in range(1, 5 if th else 4):
        for seq in itertools.product(kinds, repeat=n):
            for closed in (False, True):
                out.append(["poly", list(seq), closed])
    for b in BASE:
        out.append(["nested", b])
        for n in (1, 2, 3, 5, 10, 100) + ((4, 7, 20, 50, 1000) if th else ()):
            out.append(["table", b, n])
    out.append(["refuse"])
    return out


def dense(path, n=2000):
    """Points of a path and the arc length up to each of them."""
    t = np.linspace(0, 1, n + 1)
    p = np.array([ref.P(path(x)) for x in t])
    L = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(p, axis=0), axis=1))])
    return t, p, L


_dense = {}


def curve(b):
    """Points and arc length of a base path, densely sampled once per process."""
    if b not in _dense:
        _dense[b] = dense(BASE[b](), 4000)
    return _dense[b]


def make(path, op):
    if op == "R":
        return ReversedPath(path)
    if op == "A":
        return ArcLengthParameterizedPath(path)
    if op == "A50":
        return ArcLengthParameterizedPath(path, n=50)
    return SubRangedPath(path, *SUBS[op[1]])


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(cfg[0])
    ctx.trace()


def run_chain(cfg, ctx):
    _, b, chain = cfg
    tb, pb, Lb = curve(b)
    # parameter of the base path as a function of the parameter of the chain: piecewise
    # linear between base parameters u0 and u1, or by arc length between them
    path = BASE[b]()
    maps = [lambda t: t]
    tol = 1e-9
    for op in chain:
        below = maps[-1]
        if op == "R":
            maps.append(lambda t, f=below: f(1 - t))
        elif op[0] == "S":
            t0, t1 = SUBS[op[1]]
            maps.append(lambda t, f=below, t0=t0, t1=t1: f(t0 + t * (t1 - t0)))
        else:
            u0, u1 = below(0.0), below(1.0)
            l0, l1 = np.interp([u0, u1], tb, Lb)
            maps.append(lambda t, l0=l0, l1=l1: float(np.interp(l0 + t * (l1 - l0), Lb, tb)))
            n = 50 if op == "A50" else 1000
            tol = max(tol, 1 / n if b in KINKED else 0.2 / n)
        path = make(path, op)
        ctx.op()
    f = maps[-1]
    base = BASE[b]()
    size = Lb[-1]
    want = [ref.P(base(min(1.0, max(0.0, f(t))))) for t in T]
    got = [ref.P(path(t)) for t in T]
    if not ref.close(got, want, tol * (1 + size)):
        raise Violation(f"{b} {chain}: {ref.worst(got, want)}")
    ctx.op(len(T))
    # arc length keeps the ends
    if sum(op[0] == "A" for op in chain) == 1 and chain[-1][0] == "A":
        if not ref.close([got[0], got[-1]], [want[0], want[-1]], 1e-9 * (1 + size)):
            raise Violation(f"{b} {chain}: wrong ends")
    # length of the part covered
    l0, l1 = np.interp([f(0.0), f(1.0)], tb, Lb)
    L = abs(l1 - l0)
    n = path.length()
    ctx.op()
    t = 1e-2 * L
    if b in STRAIGHT:
        t = 1e-6 * L + 1e-9
    if b in KINKED:
        t = 0.05 * L
    if abs(n - L) > t:
        raise Violation(f"{b} {chain}: length {n} instead of {L}")
    # uniform speed
    if chain and chain[-1][0] == "A":
        q = np.array([ref.P(path(x)) for x in np.linspace(0, 1, 9)])
        u = np.array([f(x) for x in np.linspace(0, 1, 9)])
        step = np.abs(np.diff(np.interp(u, tb, Lb)))
        if step.max() > 1.01 * step.min() + 1e-9:
            raise Violation(f"reference of {chain} is not uniform")
        # measured on the curve itself; a chord cutting a corner is one step too short
        tables = sum(1 / (50 if op == "A50" else 1000) for op in chain if op[0] == "A")
        slack = 8 * tables + 0.025 if b in KINKED else 2 * tables + 0.002
        m = np.linspace(0, 1, 401)
        p = np.array([ref.P(path(x)) for x in m])
        s = np.linalg.norm(np.diff(p, axis=0), axis=1).reshape(8, 50).sum(axis=1)
        if s.max() > s.min() * (1 + slack) + 1e-9:
            raise Violation(f"{b} {chain}: speed varies from {s.min()} to {s.max()}")


def run_parts(cfg, ctx):
    _, b, cuts = cfg
    tb, pb, Lb = curve(b)
    ends = [0.0] + cuts + [1.0]
    total = 0.0
    for t0, t1 in zip(ends, ends[1:]):
        for f in (lambda: SubRangedPath(BASE[b](), t0, t1), lambda: SubRangedPath(BASE[b](), t1, t0), lambda: ReversedPath(SubRangedPath(BASE[b](), t0, t1))):
            n = f().length()
            l = np.diff(np.interp([t0, t1], tb, Lb))[0]
            if abs(n - l) > (1e-6 if b in STRAIGHT else 5e-2 if b in KINKED else 1e-2) * l + 1e-9:
                raise Violation(f"{b} from {t0} to {t1}: length {n} instead of {l}")
            ctx.op()
        total += n
    whole = BASE[b]().length()
    if abs(total - whole) > (1e-9 if b in STRAIGHT else 5e-2 if b in KINKED else 1e-2) * whole:
        raise Violation(f"{b}: lengths of parts {total}, whole {whole}")
    if b in EXACT and abs(whole - EXACT[b]) > 1e-9 * whole:
        raise Violation(f"{b}: length {whole} instead of {EXACT[b]}")


def seg(kind, k):
    a, b = np.array([1.0 * k, 0.3 * k * k, 0.1]), np.array([1.0 * k + 1, 0.3 * (k + 1) ** 2, 0.1])
    va, vb = V(*a), V(*b)
    m = 0.5 * (a + b) + np.array([0.1, 0.6, 0.4])
    if kind == "line":
        return Line(va, vb)
    if kind == "bezier":
        return Bezier([va, V(*m), vb])
    if kind == "arc":
        d = (b - a) / np.linalg.norm(b - a)
        n = np.array([-d[1], d[0], 0.0])
        return Arc(va, vb, V(*(0.5 * (a + b) + 0.3 * n)))
    if kind == "sub":
        return SubRangedPath(Line(V(*(a - (b - a))), V(*(b + 2 * (b - a)))), 0.25, 0.5)
    if kind == "rev":
        return ReversedPath(Bezier([vb, V(*m), va]))
    return Polyline([Line(va, V(*m)), Line(V(*m), vb)])


def run_poly(cfg, ctx):
    _, seq, closed = cfg
    segs = [seg(k, i) for i, k in enumerate(seq)]
    p = Polyline(segs, closed=closed)
    own = list(segs)
    if closed:
        own.append(Line(segs[-1](1.0), segs[0](0.0)))
    exact = [dense(s, 400)[2][-1] for s in own]
    rough = all(k in ("line", "sub") for k in seq)
    tol = 1e-6 if rough else 1e-2
    if abs(p.length() - sum(exact)) > tol * sum(exact):
        raise Violation(f"length {p.length()} instead of {sum(exact)}")
    want = np.concatenate([[0], np.cumsum(exact)]) / sum(exact)
    if not ref.close(p.t_values, want, tol):
        raise Violation(f"breakpoints {p.t_values} instead of {want}")
    ctx.op(2)
    # speed within each segment of lines is the same
    for t0, t1, s, k in zip(want, want[1:], own, list(seq) + ["line"]):
        for u in (0.0, 0.3, 1.0):
            x = t0 + u * (t1 - t0)
            if k in ("line", "sub") and np.abs(ref.P(p(min(1.0, x))) - ref.P(s(u))).max() > 3 * tol * sum(exact):
                raise Violation(f"point at {x} is not at {u} of its segment")


def run_nested(cfg, ctx):
    """A path as a segment of a polyline of a polyline."""
    b = cfg[1]
    path = BASE[b]()
    end = path(1.0)
    far = V(10.0, 0.0, 0.0)
    inner = Polyline([path, Line(end, far)])
    p = Polyline([inner, Line(far, V(20.0, 0.0, 0.0))])
    L1, L2, L3 = path.length(), abs(far - end), 10.0
    for lengths, poly in (((L1, L2), inner), ((L1 + L2, L3), p)):
        want = [0, lengths[0] / sum(lengths), 1]
        if not ref.close(poly.t_values, want, 1e-9):
            raise Violation(f"{b}: breakpoints {poly.t_values} instead of {want}")
        if abs(poly.length() - sum(lengths)) > 1e-9 * sum(lengths):
            raise Violation(f"{b}: length {poly.length()} instead of {sum(lengths)}")
    ctx.op(2)


def run_table(cfg, ctx):
    """Arc length is tabulated at equal steps and interpolated between them."""
    _, b, n = cfg
    path = BASE[b]()
    t, p, L = dense(path, n)
    q = ArcLengthParameterizedPath(path, n)
    at = np.concatenate([np.linspace(0, 1, 9), [0.03, 0.61, 0.97]])
    under = np.interp(at * L[-1], L, t)
    want = np.array([ref.P(path(float(x))) for x in under])
    got = np.array([ref.P(q(float(x))) for x in at])
    if not ref.close(got, want, 1e-7 * (1 + L[-1])):
        raise Violation(f"{b} with a table of {n}: {ref.worst(got, want)}")
    if type(path).length is Path.length:
        for k in (1, 2, n):
            want = dense(path, k)[2][-1]
            if abs(path.length(k) - want) > 1e-9 * (1 + want):
                raise Violation(f"{b}: length of {k} chords is {path.length(k)} instead of {want}")
    ctx.op(2)
    ctx.outcome("table")


def run_refuse(cfg, ctx):
    line = Line(V(0.0, 0.0), V(1.0, 0.0))
    for f in (
        lambda: SubRangedPath(3.0, 0.0, 1.0),
        lambda: SubRangedPath(lambda t: line(t), 0.0, 1.0),
        lambda: ArcLengthParameterizedPath(None),
        lambda: ArcLengthParameterizedPath(lambda t: line(t)),
        lambda: ArcLengthParameterizedPath(line, n=0),
        lambda: ArcLengthParameterizedPath(line, n=-3),
    ):
        ctx.op()
        try:
            f()
        except Exception:
            continue
        raise Violation("a path was made of something else")
