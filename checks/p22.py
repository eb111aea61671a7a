"""P22: paths start, pass and end where their definition says."""

import itertools

import numpy as np
from hypervehicle.geometry import Arc, Bezier, Line, Polyline, Vector3
from hypervehicle.geometry.path import Spline

import ref
import shapes
from mc import Violation

PROPERTY = "P22"
V = Vector3
PTS = [(0.0, 0.0, 0.0), (1.0, 0.2, -0.5), (0.4, 1.5, 0.8), (-1.2, 0.6, 2.0), (3.0, -2.0, 0.1)]
BOUNDS = {
    "quick": "all Bezier curves of 1-4 and all splines of 2-4 points over 5 points, open and closed; "
    "all polylines of 1-3 segments of 4 kinds over 4 points (nested one deep, lines also without "
    "length), open and closed; all "
    "lines over 5 points; arcs of 7 sweeps x 4 radii x 12 orientations x 2 centres; "
    "parameters on a grid, scalar and array; long Bezier curves, splines (5-12 points) and polylines "
    "(4-8 segments) through the points taken in 15 cyclic orders; closed polylines and splines with 6 gaps x 3 tolerances",
    "thorough": "as quick with Bezier curves of 5 and splines of 5 points, polylines of 4 segments, "
    "arcs of 11 sweeps x 48 orientations",
}
ASSUMPTIONS = ["no two consecutive points of a spline are equal; segments of a polyline without length are lines"]
T = np.array(sorted([k / 10 for k in range(11)] + [1 / 3, 0.123456789, 1 / np.pi, 0.98765, 1e-4]))
SEG = ["line", "bezier", "arc", "nested"]
SWEEPS = [10, 45, 90, 120, 150, 175, 1, 60, 135, 30, 179]


def configs(tier):
    th = tier == "thorough"
    out = []
    idx = range(len(PTS))
    for a, b in itertools.permutations(idx, 2):
        out.append(["line", a, b])
    for n in range(1, 6 if th else 5):
        for seq in itertools.product(idx, repeat=n):
            out.append(["bezier", list(seq)])
    for n in range(2, 6 if th else 5):
        for seq in itertools.product(idx, repeat=n):
            if all(a != b for a, b in zip(seq, seq[1:])):
                out.append(["spline", list(seq), False])
                if n > 2:
                    out.append(["spline", list(seq), True])
    for n in range(1, 5 if th else 4):
        for seq in itertools.product(range(4), repeat=n + 1):
            if len(set(seq)) == 1:
                continue
            for kinds in itertools.product(SEG, repeat=n):
                if any(a == b and k != "line" for k, a, b in zip(kinds, seq, seq[1:])):
                    continue  # only lines may have no length
                for closed in (False, True):
                    out.append(["poly", list(seq), list(kinds), closed])
    for n, start, step in itertools.product(range(5, 13), range(5), (1, 2, 3)):
        seq = [(start + step * i) % 5 for i in range(n)]
        out.append(["bezier", seq])
        out.append(["spline", seq, False])
        out.append(["spline", seq, True])
        if n < 10:
            kinds = [SEG[(start + i) % 4] for i in range(n - 1)]
            out += [["poly", seq, kinds, closed] for closed in (False, True)]
    for sw in range(11 if th else 7):
        for rad in range(4):
            for o in range(48 if th else 12):
                for c in range(2):
                    out.append(["arc", sw, rad, o, c])
    for kind in ("poly", "spline"):
        for gap in (1e-12, 1e-8, 1e-5, 1e-4, 1e-2, 0.3):
            for tol in (None, 1e-6, 1e-3):
                for ax in range(3):
                    out.append(["close", kind, gap, tol, ax])
    out.append(["refuse"])
    return out


def vv(q):
    return V(*[float(x) for x in q])


def P(i):
    return np.array(PTS[i])


def same(got, want, what, t=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if not ref.close(got, want, t * (1 + np.abs(want).max())):
        raise Violation(f"{what}: {ref.worst(got, want)}")


def compare(path, f, what, ts=T, t=1e-9):
    for x in ts:
        same(ref.P(path(x)), f(x), f"{what} at {x}", t)
    x = np.array(ts)
    p = path(x)
    got = np.stack([np.broadcast_to(c, x.shape) for c in (p.x, p.y, p.z)], axis=-1)
    same(got, [f(y) for y in ts], f"{what} for an array", t)


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(cfg[0])
    ctx.trace()


def run_line(cfg, ctx):
    a, b = P(cfg[1]), P(cfg[2])
    va, vb = vv(a), vv(b)
    p = Line(va, vb)
    compare(p, shapes.line(a, b), "line")
    d = np.array([0.5, -3.0, 2.0])
    dv = vv(d)
    q = p + dv
    compare(q, shapes.line(a + d, b + d), "displaced line")
    compare(p, shapes.line(a, b), "line after displacing a copy")
    # the defining points may be changed afterwards
    va += dv
    vb -= dv
    compare(p, shapes.line(a, b), "line after its points were changed")
    if abs(p.length() - np.linalg.norm(b - a)) > 1e-9:
        raise Violation(f"length {p.length()}")
    ctx.op(3 * len(T))


def run_bezier(cfg, ctx):
    pts = [P(i) for i in cfg[1]]
    vs = [vv(q) for q in pts]
    p = Bezier(vs)
    f = shapes.bezier(pts)
    for k in range(2):  # evaluation leaves the curve as it is
        for x in T:
            same(ref.P(p(x)), f(x), f"curve at {x}")
    if len(pts) > 1:
        compare(p, f, "curve")
    for v, q in zip(vs, pts):
        same(ref.P(v), q, "a control point was changed")
    ctx.op(3 * len(T))


def natural(pts):
    """Weight points of the natural B-spline through points."""
    p = np.array(pts)
    m = len(p) - 1
    A = np.zeros((m + 1, m + 1))
    A[0, 0] = A[m, m] = 1
    rhs = p.copy()
    for i in range(1, m):
        A[i, i - 1 : i + 2] = [1, 4, 1]
        rhs[i] = 6 * p[i]
    return np.linalg.solve(A, rhs)


def run_spline(cfg, ctx):
    pts = [P(i) for i in cfg[1]]
    closed = cfg[2]
    p = Spline([vv(q) for q in pts], closed=closed) if closed else Spline([vv(q) for q in pts])
    if closed and cfg[1][0] != cfg[1][-1]:
        pts.append(pts[0])
    m = len(pts) - 1
    if len(p.segments) != m or len(p.t_values) != m + 1:
        raise Violation(f"{len(p.segments)} segments instead of {m}")
    t = list(p.t_values)
    if t[0] != 0 or abs(t[-1] - 1) > 1e-12 or any(b <= a for a, b in zip(t, t[1:])):
        raise Violation(f"breakpoints {t}")
    for x, q in zip(t, pts):
        same(ref.P(p(x)), q, f"point at breakpoint {x}", 1e-8)
    same(ref.P(p(0.0)), pts[0], "start", 1e-8)
    same(ref.P(p(1.0)), pts[-1], "end", 1e-8)
    d = natural(pts)

    def f(x):
        i = min(max(j for j in range(m) if t[j] <= x), m - 1)
        u = (x - t[i]) / (t[i + 1] - t[i])
        return shapes.bezier([pts[i], (2 * d[i] + d[i + 1]) / 3, (d[i] + 2 * d[i + 1]) / 3, pts[i + 1]])(u)

    compare(p, f, "spline", T, 1e-7)
    # smooth at the points: tangent and curvature per segment parameter agree
    for i in range(1, m):
        a, b = p.segments[i - 1], p.segments[i]
        h = 1e-3
        l = [ref.P(a(1 - k * h)) for k in range(3)]
        r = [ref.P(b(k * h)) for k in range(3)]
        dl = (3 * l[0] - 4 * l[1] + l[2]) / (2 * h)
        dr = (-3 * r[0] + 4 * r[1] - r[2]) / (2 * h)
        same(dl, dr, f"tangent at point {i}", 1e-4)
    ctx.op(3 * len(T))


def arc(a, b, c):
    u, w = a - c, b - c
    R = np.linalg.norm(u)
    th = np.arctan2(np.linalg.norm(np.cross(u, w)), np.dot(u, w))
    return lambda t: c + (np.sin((1 - t) * th) * u + np.sin(t * th) * w) / np.sin(th), R * th


def segment(kind, a, b):
    m = 0.5 * (a + b) + np.array([0.2, -0.3, 0.4])
    if kind == "line":
        return Line(vv(a), vv(b)), shapes.line(a, b)
    if kind == "bezier":
        return Bezier([vv(a), vv(m), vv(b)]), shapes.bezier([a, m, b])
    if kind == "nested":
        return Polyline([Line(vv(a), vv(m)), Line(vv(m), vv(b))]), shapes.polyline([a, m, b])
    d = (b - a) / np.linalg.norm(b - a)
    n = np.cross(d, [0.2, 0.3, 1.0])
    c = 0.5 * (a + b) + 0.7 * n
    return Arc(vv(a), vv(b), vv(c)), arc(a, b, c)[0]


def run_poly(cfg, ctx):
    _, seq, kinds, closed = cfg
    segs = [segment(k, P(a), P(b)) for k, a, b in zip(kinds, seq, seq[1:])]
    real = [s[0] for s in segs]
    p = Polyline(real, closed=True) if closed else Polyline(real)
    if len(real) != len(segs):
        raise Violation("the list of segments was changed")
    fs, joints = [s[1] for s in segs], [P(i) for i in seq]
    if closed and seq[0] != seq[-1]:
        fs.append(shapes.line(P(seq[-1]), P(seq[0])))
        joints.append(P(seq[0]))
    n = len(fs)
    if len(p.segments) != n:
        raise Violation(f"{len(p.segments)} segments instead of {n}")
    t = list(p.t_values)
    steps = [b - a for a, b in zip(t, t[1:])]
    flat = [np.array_equal(a, b) for a, b in zip(joints, joints[1:])]
    if len(t) != n + 1 or t[0] != 0 or abs(t[-1] - 1) > 1e-12 or any(s < 0 or s == 0 and not z for s, z in zip(steps, flat)):
        raise Violation(f"breakpoints {t}")
    for x, q in zip(t, joints):
        same(ref.P(p(x)), q, f"joint at {x}")
        for y in (x - 1e-7, np.nextafter(x, 0), np.nextafter(x, 1), x + 1e-7):
            if 0 <= y <= 1:
                same(ref.P(p(y)), q, f"beside the joint at {x}", 1e-5)
    same(ref.P(p(0.0)), joints[0], "start")
    same(ref.P(p(1.0)), joints[-1], "end")

    def f(x):
        i = max(j for j in range(n) if t[j] <= x and steps[j] > 0 or j == long[0])
        return fs[i]((x - t[i]) / (t[i + 1] - t[i]))

    long = [j for j in range(n) if steps[j] > 0]
    compare(p, f, "polyline", sorted(set(T) | set(t)))
    for s, g in segs:  # segments stay as they were
        same(ref.P(s(0.4)), g(0.4), "segment")
    ctx.op(3 * len(T))


def run_close(cfg, ctx):
    """A closed path gets a closing segment when its ends are apart by more than the tolerance."""
    _, kind, gap, tol, ax = cfg
    pts = [P(0), P(1), P(2), P(0)]
    pts[3][ax] += gap
    k = {} if tol is None else dict(tolerance=tol)
    n = 3 + (gap > (tol or 1e-10))
    for closed in (False, True):
        if kind == "poly":
            p = Polyline([Line(vv(a), vv(b)) for a, b in zip(pts, pts[1:])], closed=closed, **k)
        else:
            p = Spline([vv(q) for q in pts], closed=closed, **k)
        want = n if closed else 3
        if len(p.segments) != want or len(p.t_values) != want + 1:
            raise Violation(f"{kind} with a gap of {gap}: {len(p.segments)} segments instead of {want}")
        for x, q in zip(p.t_values, pts + pts[:1]):
            same(ref.P(p(x)), q, f"point at breakpoint {x}")
        if closed:
            same(ref.P(p(1.0)), pts[0], "end of a closed path", (tol or 1e-10) + 1e-12)
        ctx.op(2)


def frame(o):
    """Orientations: axis permutations with signs, then tilted ones."""
    perms = list(itertools.permutations(range(3)))
    q = o % 24
    m = np.zeros((3, 3))
    for i, j in enumerate(perms[q % 6]):
        m[i, j] = 1 if (q // 6) >> (i % 2) & 1 else -1
    if o % 4 == 3 or o >= 24:
        m = m @ ref.rotm("x", 0.3 + 0.1 * o) @ ref.rotm("z", 0.7 - 0.05 * o)
    return m


def run_arc(cfg, ctx):
    _, sw, rad, o, c = cfg
    th, R = np.deg2rad(SWEEPS[sw]), [1.0, 0.05, 7.5, 2][rad]
    m = frame(o)
    centre = np.array([(0.0, 0.0, 0.0), (1.0, -2.5, 0.7)][c])
    u, w, n = m[0], m[1], np.cross(m[0], m[1])
    a = centre + R * u
    b = centre + R * (np.cos(th) * u + np.sin(th) * w)
    p = Arc(vv(a), vv(b), vv(centre))
    f = lambda t: centre + R * (np.cos(t * th) * u + np.sin(t * th) * w)
    compare(p, f, "arc", T, 1e-8)
    for x in T:
        q = ref.P(p(x)) - centre
        if abs(np.linalg.norm(q) - R) > 1e-8 * (1 + R):
            raise Violation(f"radius {np.linalg.norm(q)} at {x}")
        if abs(np.dot(q, n)) > 1e-8 * (1 + R):
            raise Violation(f"the arc leaves its plane at {x}")
    if abs(p.length() - R * th) > 1e-8 * (1 + R):
        raise Violation(f"length {p.length()} instead of {R * th}")
    for _ in range(2):
        same(ref.P(p(0.5)), f(0.5), "arc evaluated again", 1e-8)
    ctx.op(2 * len(T))


def run_refuse(cfg, ctx):
    o = V(0.0, 0.0, 0.0)
    for a, b in [((1, 0, 0), (0, 2, 0)), ((1, 0, 0), (0.5, 0, 0)), ((1, 0, 0), (-1, 0, 0)), ((1, 0, 0), (1, 0, 0))]:
        for t in (0.0, 0.5, 1.0):
            ctx.op()
            try:
                Arc(vv(a), vv(b), o)(t)
            except Exception:
                continue
            raise Violation(f"an arc from {a} to {b} about the origin was accepted")
    for bad in (None, 3.0, [1, "x"], V):
        ctx.op()
        try:
            Bezier(bad)
        except Exception:
            continue
        raise Violation(f"a Bezier curve was made of {bad}")
    for bad in (1.0, (1.0, 2.0), None):
        ctx.op()
        try:
            Line(o, V(1.0, 0.0)) + bad
        except Exception:
            continue
        raise Violation(f"a line was displaced by {bad}")
