"""Reference surfaces of wings and fins: plain functions of (r, s) in NumPy."""

import numpy as np
from scipy.optimize import brentq

import ref
from mc import Violation


def vec(*p):
    return np.array([float(x) for x in p] + [0.0] * (3 - len(p)))


def line(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return lambda t: a * (1 - t) + b * t


def bezier(points):
    from math import comb

    pts = np.asarray(points, float)
    n = len(pts) - 1
    return lambda t: sum(comb(n, i) * t**i * (1 - t) ** (n - i) * p for i, p in enumerate(pts))


def polyline(points):
    """Straight segments, parameter proportional to length."""
    pts = np.asarray(points, float)
    lens = np.linalg.norm(np.diff(pts, axis=0), axis=1)
    at = np.concatenate([[0], np.cumsum(lens)]) / lens.sum()
    return lambda t: np.array([np.interp(t, at, pts[:, k]) for k in range(3)])


def sub(f, t0, t1):
    return lambda t: f(t0 + t * (t1 - t0))


def coons(north, east, south, west):
    p00, p10, p01, p11 = south(0), south(1), north(0), north(1)

    def f(r, s):
        return (
            (1 - s) * south(r)
            + s * north(r)
            + (1 - r) * west(s)
            + r * east(s)
            - (1 - r) * (1 - s) * p00
            - (1 - r) * s * p01
            - r * (1 - s) * p10
            - r * s * p11
        )

    return f


_cache = {}


def ellipse(width, height, side, f):
    """(w, z) of a quarter ellipse at the fraction f of its arc length; the top one
    runs from -z to w, the bottom one from w to +z."""
    key = (round(width, 9), round(height, 9))
    if key not in _cache:
        if len(_cache) > 4000:
            _cache.clear()
        th = np.linspace(0, np.pi / 2, 3001)
        x, z = width * np.cos(th), height * np.sin(th)
        L = np.concatenate([[0], np.cumsum(np.hypot(np.diff(x), np.diff(z)))])
        _cache[key] = th, L / L[-1]
    th, L = _cache[key]
    if side == "bot":
        a = np.interp(f, L, th)
        return width * np.cos(a), height * np.sin(a)
    a = np.interp(1 - f, L, th)
    return width * np.cos(a), -height * np.sin(a)


def elliptic_edge(top, bot, width, t0, t1, side):
    """Leading edge patch between the mean of two edge curves and one of them."""
    mean = lambda t: 0.5 * (top(t) + bot(t))
    guide = top if side == "top" else bot

    def f(u, r):
        t = t1 - u * (t1 - t0)
        m = mean(t)
        w, z = ellipse(width(t), abs(m[2] - guide(t)[2]), side, r)
        if t <= 1e-12:
            a = np.pi / 2
        elif t >= 1 - 1e-12:
            a = 0.0
        else:
            dt = min(0.001, t, 1 - t)
            d = mean(t + dt) - mean(t - dt)
            a = np.arctan2(d[1], d[0]) + np.pi / 2
        return m + np.array([w * np.cos(a), w * np.sin(a), z])

    return f


def flat_edge(top, bot, t0, t1):
    def f(u, r):
        t = t1 - u * (t1 - t0)
        p, q = top(t), bot(t)
        return np.array([p[0], p[1], (1 - r) * p[2] + r * q[2]])

    return f


def section_edge(centre, width, height, side, direction=(0.0, 1.0, 0.0)):
    """Quarter ellipse standing at a point, out of the wing in a direction."""
    d = np.array(direction)

    def f(t):
        w, z = ellipse(width, abs(height), side, t)
        return centre + w * d + np.array([0, 0, z])

    return f


def offset_surface(f, off):
    return lambda r, s: f(r, s) + off(f(r, s))


def rev(f):
    return lambda t: f(1 - t)


def default_width(t):
    return 0.01 * (1 - t) ** 2 + 2 * 0.1 * t * (1 - t) + 0.01 * t**2


def wing(A0, A1, TT, B0, curve, top, bot, width, t1, t2, flat, flap, close, last=None):
    """Patches of a wing.  curve(t) is the leading edge, top and bot displace a point."""
    L, ang = flap
    if t1 is None:
        t1 = brentq(lambda t: curve(t)[0] - A1[0], 0, 1)
    if t2 is None:
        t2 = 0.5 * (1 + t1)
    B1 = curve(t1)
    plan = [
        coons(sub(curve, 0, t1), line(A1, B1), line(A0, A1), line(A0, B0)),
        coons(sub(curve, t1, t2), sub(curve, 1, t2), line(A1, TT), line(A1, B1)),
    ]
    out = []
    for k, p in enumerate(plan):
        out.append((f"top {k}", offset_surface(lambda r, s, p=p: p(1 - r, s), top)))
        out.append((f"bottom {k}", offset_surface(p, bot)))
    up = lambda t: curve(t) + top(curve(t))
    lo = lambda t: curve(t) + bot(curve(t))
    ranges = [(0, t1), (t1, t2), (t2 if last is None else t1, 1)]
    for k, (a, b) in enumerate(ranges):
        if flat:
            out.append((f"leading edge {k}", flat_edge(up, lo, a, b)))
        else:
            for side in ("top", "bot"):
                out.append((f"leading edge {side} {k}", elliptic_edge(up, lo, width, a, b, side)))
    te = line(A0, B0)
    te_top = lambda t: te(t) + top(te(t))
    te_bot = lambda t: te(t) + bot(te(t))
    te_mean = lambda t: 0.5 * (te_top(t) + te_bot(t))
    back = np.array([-L * np.cos(ang), 0, L * np.sin(ang)])
    tip = line(te_mean(0) + back, te_mean(1) + back)
    out.append(("trailing edge top", coons(te_top, line(tip(1), te_top(1)), tip, line(tip(0), te_top(0)))))
    out.append(("trailing edge bottom", coons(tip, line(te_bot(1), tip(1)), te_bot, line(te_bot(0), tip(0)))))
    m1 = te_mean(1)
    if flat:
        west, north = line(te_top(1), m1), line(m1, te_bot(1))
    else:
        west = section_edge(m1, width(0.0), (m1 - te_top(1))[2], "top")
        north = section_edge(m1, width(0.0), (m1 - te_bot(1))[2], "bot")
    out.append(("side of the flap", coons(north, line(tip(1), te_bot(1)), line(te_top(1), tip(1)), west)))
    if close:
        tt, tb = TT + top(TT), TT + bot(TT)
        tm = 0.5 * (tt + tb)
        at, ab = A1 + top(A1), A1 + bot(A1)
        am = np.array([ab[0], ab[1], 0.5 * (at[2] + ab[2])])
        b_t, b_m, b_b = te_top(0), te_mean(0), te_bot(0)
        out.append(("root top 0", coons(line(b_m, am), line(at, am), line(b_t, at), line(b_t, b_m))))
        out.append(("root top 1", coons(line(am, tm), line(tt, tm), line(at, tt), line(at, am))))
        out.append(("root bottom 0", coons(line(b_b, ab), line(am, ab), line(b_m, am), line(b_m, b_b))))
        out.append(("root bottom 1", coons(line(ab, tb), line(tm, tb), line(am, tm), line(am, ab))))
        if not flat:
            x = (1.0, 0.0, 0.0)
            e_t = section_edge(tm, width(1.0), (tm - tt)[2], "top", x)
            e_b = section_edge(tm, width(1.0), (tm - tb)[2], "bot", x)
            out.append(("root nose", coons(rev(e_b), e_t, line(tm, tt), line(tm, tb))))
        out.append(("root flap", coons(line(b_t, tip(0)), line(b_b, tip(0)), line(b_m, b_b), line(b_m, b_t))))
    return out


def fin(p, th, top, bot, width, rudder, pivot, pivot_point, angle, offset, joint=None, cosine=False):
    """Patches of a fin.  joint overrides the division of the leading edge."""
    p0, p1, p2, p3 = p
    out = []
    quad = lambda a, b, c, d: coons(line(d, c), line(b, c), line(a, b), line(a, d))
    out.append(("top", offset_surface(quad(p0, p1, p2, p3), top)))
    out.append(("bottom", offset_surface(quad(p0, p3, p2, p1), bot)))
    le = polyline([p1, p2, p3])
    a, b = np.linalg.norm(p2 - p1), np.linalg.norm(p3 - p2)
    t = a / (a + b) if joint is None else joint
    up = lambda q: le(q) + top(le(q))
    lo = lambda q: le(q) + bot(le(q))
    for k, (t0, t1) in enumerate([(0, t), (t, 1)]):
        for side in ("top", "bot"):
            out.append((f"leading edge {side} {k}", elliptic_edge(up, lo, width, t0, t1, side)))
    h = np.array([0, 0, th / 2])
    x, y = (1.0, 0.0, 0.0), (0.0, 1.0, 0.0)
    # root
    e_t = section_edge(p3, width(1.0), top(p3)[2], "top", x)
    e_b = section_edge(p3, width(1.0), bot(p3)[2], "bot", x)
    out.append(("root nose", coons(line(p3, p3 + h), e_b, e_t, line(p3 - h, p3))))
    out.append(("root 1", coons(line(p3 - h, p0 - h), line(p0, p0 - h), line(p3, p0), line(p3, p3 - h))))
    out.append(("root 2", coons(line(p3, p0), line(p0 + h, p0), line(p3 + h, p0 + h), line(p3 + h, p3))))
    # trailing edge
    kind, L, ang = rudder
    e_t = section_edge(p1, width(0.0), top(p1)[2], "top", y)
    e_b = section_edge(p1, width(0.0), bot(p1)[2], "bot", y)
    if kind == "sharp":
        back = np.array([-L * (np.cos(ang) if cosine else 1), 0, L * np.sin(ang)])
        te = line(p0, p1)
        te_top = lambda q: te(q) + top(te(q))
        te_bot = lambda q: te(q) + bot(te(q))
        tip = line(p0 + back, p1 + back)
        out.append(("rudder top", coons(te_top, line(tip(1), te_top(1)), tip, line(tip(0), te_top(0)))))
        out.append(("rudder bottom", coons(tip, line(te_bot(1), tip(1)), te_bot, line(te_bot(0), tip(0)))))
        out.append(("rudder end", coons(e_b, line(tip(1), te_bot(1)), line(te_top(1), tip(1)), e_t)))
        out.append(("rudder root", coons(line(tip(0), p0 + h), line(p0, p0 + h), line(p0 - h, p0), line(p0 - h, tip(0)))))
    else:
        out.append(("blunt end", coons(line(p1, p1 - h), rev(e_t), rev(e_b), line(p1 + h, p1))))
        out.append(("blunt 1", coons(line(p0 - h, p1 - h), line(p1, p1 - h), line(p0, p1), line(p0, p0 - h))))
        out.append(("blunt 2", coons(line(p0, p1), line(p1 + h, p1), line(p0 + h, p1 + h), line(p0 + h, p0))))
    maps = [ref.rot("y", np.rad2deg(pivot), pivot_point), ref.rot("x", np.rad2deg(angle))]
    if offset:
        maps.append(ref.offset(offset))
    place = ref.compose(maps)
    return [(n, lambda r, s, f=f: place(f(r, s))) for n, f in out]


def match(patches, want, at, tol):
    """The patches of a component are the reference surfaces, in any order."""
    got = {k: np.array([ref.P(f(r, s)) for r, s in at]) for k, f in patches.items()}
    left = {n: np.array([f(r, s) for r, s in at]) for n, f in want}
    if len(got) != len(left):
        raise Violation(f"{len(got)} patches instead of {len(left)}")
    for k, g in got.items():
        if not np.all(np.isfinite(g)):
            raise Violation(f"patch {k} is not finite")
        d = {n: np.abs(g - w).max() for n, w in left.items()}
        n = min(d, key=d.get)
        if d[n] > tol:
            raise Violation(f"patch {k} is nearest to '{n}': {ref.worst(g, left[n])}")
        del left[n]
