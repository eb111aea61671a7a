"""P27: edge curves, edge patches and standard shapes follow their definition."""

import itertools

import numpy as np
from hypervehicle.components.common import (
    OgiveNose,
    leading_edge_width_function,
    uniform_thickness_function,
)
from hypervehicle.geometry import Bezier, Line, Polyline, Vector3
from hypervehicle.geometry.geometry import (
    ElipsePath,
    FlatLeadingEdgePatchFunction,
    GeometricMeanPathFunction,
    LeadingEdgePatchFunction,
    MeanLeadingEdgePatchFunction,
    MeanTrailingEdgePatch,
    OffsetPathFunction,
    TrailingEdgePatch,
    TrailingEdgePath,
)

import ref
import shapes
from mc import Violation

PROPERTY = "P27"
V = Vector3
BOUNDS = {
    "quick": "quarter ellipses of all 5 x 5 widths and heights, both sides, 3 centres, at 9 "
    "parameters; offset, mean and trailing edge paths of all pairs of 5 curves and 4 "
    "displacements; leading edge patches (elliptic, mean, flat) of 4 curves x 3 thicknesses x 3 "
    "widths x 5 ranges x 2 sides at 5 x 4 points; trailing edge patches of 4 lines x 3 "
    "thicknesses x 5 flaps x 2 sides; ogive noses of all 81 combinations of 3 values of each "
    "dimension at 25 x 5 points of each quadrant; thickness functions of 5 values, 4 sides",
    "thorough": "as quick with 9 x 9 ellipses, 8 ranges and ogive noses of all 256 "
    "combinations of 4 values",
}
ASSUMPTIONS = [
    "thickness functions displace in z only",
    "points on tabulated ellipses are compared within 5e-5",
    "the chordwise place of the tip of a deflected TrailingEdgePatch is not compared",
]
CURVES = {
    "line": [(0.0, 1.0, 0.0), (2.0, 0.2, 0.0)],
    "quad": [(0.0, 1.0, 0.1), (1.0, 1.2, 0.2), (3.0, 0.0, 0.1)],
    "cubic": [(-1.0, 2.0, 0.0), (0.0, 1.5, 0.0), (1.0, 1.5, 0.5), (2.0, -0.5, 0.0)],
    "steep": [(0.0, 0.5, -0.2), (0.1, 0.8, -0.2), (0.2, 2.0, -0.2)],
    "poly": [(0.0, 1.0, 0.0), (1.0, 0.9, 0.0), (1.5, 0.0, 0.0)],
}
THICK = {
    "uni": (lambda x, y: -0.1, lambda x, y: 0.1),
    "asym": (lambda x, y: -0.05, lambda x, y: 0.2),
    "vary": (lambda x, y: -0.3 + 0.04 * x - 0.02 * y, lambda x, y: 0.2 + 0.03 * x + 0.05 * y),
}
WIDTH = {
    "const": lambda t: 0.1,
    "lin": lambda t: 0.05 + 0.2 * t,
    "quad": lambda t: 0.3 - 0.2 * t * t,
}
RANGES = [(0.0, 1.0), (0.0, 0.4), (0.4, 0.7), (0.7, 1.0), (0.25, 0.3), (0.9, 1.0), (0.0, 0.05), (0.5, 0.55)]
SHIFT = {
    "up": lambda x, y: (0.0, 0.0, 0.3),
    "all": lambda x, y: (0.1, -0.2, 0.3),
    "x": lambda x, y: (0.0, 0.0, 0.2 * x),
    "xy": lambda x, y: (0.1 * y, 0.3 * x, x * y),
}
FLAPS = [(0.3, 0.0), (0.5, 0.2), (0.4, -0.5), (0.0, 0.0), (1.5, 1.0)]
OGIVE = dict(h=(1.0, 0.5, 1.3, 2.0), r_n=(0.1, 0.3, 0.45, 0.02), r_o=(3.0, 2.5, 8.0, 20.0), L_o=(1.0, 2.5, 0.0, 0.2, 7.0))


def configs(tier):
    th = tier == "thorough"
    sizes = [0.05, 0.3, 1.0, 2.0, 10.0] + ([0.001, 0.2, 0.7, 50.0] if th else [])
    out = []
    for a, b, side in itertools.product(sizes, sizes, ("top", "bot")):
        out.append(["ellipse", a, b, side])
    for p, q in itertools.product(CURVES, repeat=2):
        out.append(["mean", p, q])
    for p, s in itertools.product(CURVES, SHIFT):
        out.append(["offset", p, s])
    for p, t, w, side in itertools.product(list(CURVES)[:4], THICK, WIDTH, ("top", "bot")):
        for r in RANGES if th else RANGES[:5]:
            out.append(["le", p, t, w, list(r), side])
    for p, t in itertools.product(CURVES, THICK):
        for r in RANGES:
            out.append(["flat", p, t, list(r)])
    for p, t, f, side in itertools.product(list(CURVES)[:4], THICK, FLAPS, ("top", "bot")):
        out.append(["te", p, t, list(f), side])
    for dims in itertools.product(*[v if th else v[:3] for v in OGIVE.values()]):
        out.append(["ogive", list(dims)])
    for t, side in itertools.product((0.0, 0.1, 0.25, 2.0, 1), ("top", "bot", "bottom", "left")):
        out.append(["thickness", t, side])
    out.append(["width"])
    out.append(["sides"])
    return out


def vv(q):
    return V(*[float(x) for x in q])


def curve(name):
    pts = CURVES[name]
    if name == "line":
        return Line(vv(pts[0]), vv(pts[1])), shapes.line(*pts)
    if name == "poly":
        vs = [vv(q) for q in pts]
        return Polyline([Line(a, b) for a, b in zip(vs, vs[1:])]), shapes.polyline(pts)
    return Bezier([vv(q) for q in pts]), shapes.bezier(pts)


def same(got, want, what, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if not ref.close(got, want, tol * (1 + np.abs(want).max())):
        raise Violation(f"{what}: {ref.worst(got, want)}")


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(cfg[0])
    ctx.trace()


def run_ellipse(cfg, ctx):
    _, a, b, side = cfg
    for c in ((0.0, 0.0, 0.0), (1.0, -2.0, 3.0), (0.0, 5.0, -0.25)):
        for sign in (1, -1):
            e = ElipsePath(centre=vv(c), thickness=sign * b, LE_width=a, side=side)
            for r in np.linspace(0, 1, 9):
                ctx.op()
                p = ref.P(e(r)) - c
                th = r * np.pi / 2 - (np.pi / 2 if side == "top" else 0)
                # the point of the ellipse in the direction th
                d = np.array([0.0, np.cos(th), np.sin(th)])
                k = 1 / np.sqrt((d[1] / a) ** 2 + (d[2] / b) ** 2)
                same(p, k * d, f"ellipse {a} x {b} {side} at {r}")


def run_mean(cfg, ctx):
    (p, f), (q, g) = curve(cfg[1]), curve(cfg[2])
    m = GeometricMeanPathFunction(p, q)
    n = GeometricMeanPathFunction(m, p)
    o = OffsetPathFunction(m, lambda x, y: V(0.0, x, y))
    for t in np.linspace(0, 1, 7):
        ctx.op(3)
        w = 0.5 * (f(t) + g(t))
        same(ref.P(m(t)), w, f"mean at {t}")
        same(ref.P(n(t)), 0.5 * (w + f(t)), f"mean of a mean at {t}")
        same(ref.P(o(t)), w + [0, w[0], w[1]], f"displaced mean at {t}")
        same(ref.P(p(t)), f(t), "the first path")
        same(ref.P(q(t)), g(t), "the second path")


def run_offset(cfg, ctx):
    p, f = curve(cfg[1])
    s = SHIFT[cfg[2]]
    real = lambda x, y: vv(s(x, y))
    o = OffsetPathFunction(p, real)
    oo = OffsetPathFunction(o, real)
    ends = [CURVES[cfg[1]][0], CURVES[cfg[1]][-1]]
    e = TrailingEdgePath(vv(ends[0]), vv(ends[1]), real)
    straight = shapes.line(*ends)
    for t in np.linspace(0, 1, 7):
        ctx.op(3)
        w = f(t) + s(f(t)[0], f(t)[1])
        same(ref.P(o(t)), w, f"displaced path at {t}")
        same(ref.P(oo(t)), w + s(w[0], w[1]), f"path displaced twice at {t}")
        w = straight(t)
        same(ref.P(e(t)), w + s(w[0], w[1]), f"trailing edge path at {t}")
        same(ref.P(p(t)), f(t), "the underlying path")


def run_le(cfg, ctx):
    _, name, thick, width, (t0, t1), side = cfg
    p, f = curve(name)
    top, bot = THICK[thick]
    tf = top if side == "top" else bot
    w = WIDTH[width]
    # about the curve itself, with its own thickness
    k = (lambda c: lambda x, y, z=0: V(0.0, 0.0, c(x, y)))(tf)
    patch = LeadingEdgePatchFunction(p, k, w, t0, t1, side=side)
    # half of the ellipse above, half below the curve: the mean line is the curve
    off = lambda t: f(t) + np.array([0, 0, tf(f(t)[0], f(t)[1])])
    other = lambda t: f(t) - np.array([0, 0, tf(f(t)[0], f(t)[1])])
    up, lo = (off, other) if side == "top" else (other, off)
    want = shapes.elliptic_edge(up, lo, w, t0, t1, side)
    compare(patch, want, "leading edge", ctx, 5e-5)
    # about the mean of two edges
    up = lambda t: f(t) + np.array([0, 0, top(f(t)[0], f(t)[1])])
    lo = lambda t: f(t) + np.array([0, 0, bot(f(t)[0], f(t)[1])])
    ru = OffsetPathFunction(p, lambda x, y: V(0.0, 0.0, top(x, y)))
    rl = OffsetPathFunction(p, lambda x, y: V(0.0, 0.0, bot(x, y)))
    mean = GeometricMeanPathFunction(ru, rl)
    patch = MeanLeadingEdgePatchFunction(mean, ru if side == "top" else rl, w, t0, t1, side=side)
    compare(patch, shapes.elliptic_edge(up, lo, w, t0, t1, side), "leading edge of a mean", ctx, 5e-5)


def compare(patch, want, what, ctx, tol=1e-9, us=np.linspace(0, 1, 5), rs=(0.0, 0.3, 0.8, 1.0)):
    for u, r in itertools.product(us, rs):
        ctx.op()
        same(ref.P(patch(u, r)), want(u, r), f"{what} at {u}, {r}", tol)


def run_flat(cfg, ctx):
    _, name, thick, (t0, t1) = cfg
    p, f = curve(name)
    top, bot = THICK[thick]
    up = lambda t: f(t) + np.array([0, 0, top(f(t)[0], f(t)[1])])
    lo = lambda t: f(t) + np.array([0, 0, bot(f(t)[0], f(t)[1])])
    ru = OffsetPathFunction(p, lambda x, y: V(0.0, 0.0, top(x, y)))
    rl = OffsetPathFunction(p, lambda x, y: V(0.0, 0.0, bot(x, y)))
    compare(FlatLeadingEdgePatchFunction(ru, rl, t0, t1), shapes.flat_edge(up, lo, t0, t1), "flat edge", ctx)
    compare(FlatLeadingEdgePatchFunction(rl, ru, t0, t1), shapes.flat_edge(lo, up, t0, t1), "flat edge", ctx)


def run_te(cfg, ctx):
    _, name, thick, (L, ang), side = cfg
    a, b = [np.array(q) for q in (CURVES[name][0], CURVES[name][-1])]
    top, bot = THICK[thick]
    tf = top if side == "top" else bot
    edge = shapes.line(a, b)
    te = lambda t: edge(t) + np.array([0, 0, tf(edge(t)[0], edge(t)[1])])
    real = TrailingEdgePath(vv(a), vv(b), lambda x, y: V(0.0, 0.0, tf(x, y)))

    def patch(tip):
        if side == "top":
            return shapes.coons(te, shapes.line(tip(1), te(1)), tip, shapes.line(tip(0), te(0)))
        return shapes.coons(tip, shapes.line(te(1), tip(1)), te, shapes.line(te(0), tip(0)))

    # behind a mean line
    mean = Bezier([vv(a), vv(0.5 * (a + b) + [0.1, 0, 0]), vv(b)])
    back = np.array([-L * np.cos(ang), 0, L * np.sin(ang)])
    got = MeanTrailingEdgePatch(mean, real, L, ang, side=side)
    compare(got, patch(shapes.line(a + back, b + back)), "trailing edge", ctx)
    # behind two points of the plane z = 0
    a, b = a * [1, 1, 0], b * [1, 1, 0]
    back = np.array([-L, 0, L * np.sin(ang)])
    got = TrailingEdgePatch(vv(a), vv(b), real, L, ang, side=side)
    want = patch(shapes.line(a + back, b + back))
    for u, r in itertools.product(np.linspace(0, 1, 5), (0.0, 0.3, 0.8, 1.0)):
        ctx.op()
        x, y = ref.P(got(u, r)), want(u, r)
        if ang and not (r == 1.0 if side == "top" else r == 0.0):
            x, y = x[1:], y[1:]
        same(x, y, f"trailing edge of points at {u}, {r}")


def run_ogive(cfg, ctx):
    h, rn, ro, L = cfg[1]
    c = OgiveNose(h, rn, ro, L, verbosity=0)
    c.generate_patches()
    # centre of the nose on the axis, tangent to the ogive from inside
    xc = np.sqrt((ro - rn) ** 2 - (ro - h) ** 2)
    u = np.array([xc, ro - h]) / (ro - rn)  # from the ogive's centre through the nose's
    a1 = np.arctan2(u[1], u[0])
    parts = [
        (rn * a1, lambda f: (xc + rn * np.cos(f * a1), rn * np.sin(f * a1))),
        (
            ro * (np.pi / 2 - a1),
            lambda f: (
                ro * np.cos(a1 + f * (np.pi / 2 - a1)),
                h - ro + ro * np.sin(a1 + f * (np.pi / 2 - a1)),
            ),
        ),
        (L, lambda f: (-f * L, h)),
        (h, lambda f: (-L, (1 - f) * h)),
    ]
    total = sum(p[0] for p in parts)

    def profile(t):
        s = t * total
        for n, (length, f) in enumerate(parts):
            if length > 0 and s <= length or n == 3:
                return f(s / length)
            s -= length

    joints = np.cumsum([p[0] for p in parts]) / total
    ts = sorted(list(np.linspace(0, 1, 21)) + [joints[0] * 0.5, joints[0] * 0.99, joints[1] * 1.001, joints[1] * 0.99])
    if len(c.patches) != 4:
        raise Violation(f"{len(c.patches)} patches")
    for n, patch in enumerate(c.patches.values()):
        for t, s in itertools.product(ts, (0.0, 0.25, 0.5, 0.75, 1.0)):
            ctx.op()
            x, y = profile(t)
            a = (n + s) * np.pi / 2
            same(ref.P(patch(t, s)), (x, y * np.cos(a), -y * np.sin(a)), f"ogive, quadrant {n} at {t}, {s}", 1e-8)


def run_thickness(cfg, ctx):
    _, t, side = cfg
    f = uniform_thickness_function(t, side)
    g = uniform_thickness_function(9.0, "top")
    for x, y in itertools.product((0, -1.5, 3.0), repeat=2):
        for k in ({}, dict(z=0.7)):
            ctx.op()
            same(ref.P(f(x=x, y=y, **k)), (0, 0, (-t if side == "top" else t) / 2), f"thickness at {x}, {y}")
            same(ref.P(f(x, y, *k.values())), (0, 0, (-t if side == "top" else t) / 2), f"thickness at {x}, {y}")
    same(ref.P(g(0.0, 0.0)), (0, 0, -4.5), "another thickness function")


def run_width(cfg, ctx):
    for t in np.linspace(0, 1, 33):
        ctx.op()
        same(leading_edge_width_function(t), shapes.default_width(t), f"default width at {t}")


def run_sides(cfg, ctx):
    p, _ = curve("line")
    real = TrailingEdgePath(V(0.0, 0.0), V(0.0, 1.0), lambda x, y: V(0.0, 0.0, 0.1))
    for side in ("left", "", "Top", None):
        for what, f in (
            ("ellipse", lambda: ElipsePath(V(0.0, 0.0), 0.1, 0.2, side)(0.5)),
            ("trailing edge", lambda: TrailingEdgePatch(V(0.0, 0.0), V(0.0, 1.0), real, 0.1, 0.0, side)(0.5, 0.5)),
            ("mean trailing edge", lambda: MeanTrailingEdgePatch(p, real, 0.1, 0.0, side)(0.5, 0.5)),
        ):
            ctx.op()
            try:
                f()
            except Exception:
                continue
            raise Violation(f"{what} accepts side {side!r}")
