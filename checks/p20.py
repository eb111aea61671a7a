"""P20: swept, revolved and primitive surfaces pass through their generating shapes."""

import itertools

import numpy as np
from hypervehicle.components import RevolvedComponent, SweptComponent
from hypervehicle.components.common import circle_patch
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Arc, Bezier, CoonsPatch, Line, Polyline, SweptPatch, Vector3
from hypervehicle.geometry.geometry import (
    BluntConePatch,
    ConePatch,
    CubePatch,
    RevolvedPatch,
    SpherePatch,
    SurfacePerimeter,
    SweptPatchfromEdges,
)

import ref
import shapes
import surfaces
from mc import Violation

PROPERTY = "P20"
V = Vector3
PLACES = [-1.0, 0.0, 0.4, 1.5, 4.0]
SIZES = [1.0, 0.6, 1.7, 0.25, 1.2]
FACES = ["east", "west", "south", "north", "bottom", "top"]
NORMAL = dict(east=(0, 1), west=(0, -1), south=(1, -1), north=(1, 1), bottom=(2, -1), top=(2, 1))
CENTRES = [(0.0, 0.0, 0.0), (1.0, -2.0, 0.5), (-0.3, 4.0, 2.0), (0.0, 0.0, -1.5)]
RADII = [1.0, 0.25, 3, 0.001]
EDGE = ["line", "bezier", "arc", "poly"]
PROFILE = ["line", "bezier", "arc", "poly", "tilted", "axis"]
ANGLES = [0.0, 0.7, np.pi / 2, np.pi, 2 * np.pi, -1.2, 4.0]
BOUNDS = {
    "quick": "sweeps of 2-4 of 5 section places in every order along 3 axes; sweeps through "
    "2-4 edges of 4 kinds; 6 generating lines x 49 angle ranges; 2^4 x 12 cones; cubes and "
    "spheres of 4 sizes x 4 centres x 6 faces; circles; the perimeters of 8 surfaces; swept "
    "components of 2-4 sections of 3-5 edges; grids of parameters including all section places "
    "and corners and points at 4e-3, 1e-3 and 1e-6 beside them",
    "thorough": "as quick with sweeps of 5 places and 5 edges, 256 cones x 49 angle ranges and finer grids",
}
ASSUMPTIONS = [
    "cross sections of a swept patch are planar and perpendicular to the sweep axis",
]


def configs(tier):
    th = tier == "thorough"
    out = []
    for n in range(2, 6 if th else 5):
        for order in itertools.permutations(range(len(PLACES)), n):
            for ax in "xyz":
                out.append(["sections", list(order), ax])
    for n in range(2, 6 if th else 5):
        for kinds in itertools.product(EDGE, repeat=n):
            out.append(["edges", list(kinds)])
    for prof in PROFILE:
        for a0, a1 in itertools.product(range(len(ANGLES)), repeat=2):
            out.append(["revolved", prof, a0, a1])
        out.append(["component", prof])
    rings = list(itertools.product([0.0, -1.0, 2.5, 1.0] if th else [0.0, 2.5], [0.0, 1.0, 0.4, 3.0] if th else [0.4, 1.0], repeat=2))
    for x0, r0, x1, r1 in [(a, b, c, d) for a, b, c, d in rings]:
        for a0, a1 in itertools.product(range(len(ANGLES)), repeat=2) if th else [(0, 4), (1, 3), (3, 1), (5, 6), (2, 3), (0, 0), (4, 0), (6, 5), (1, 2), (5, 0), (0, 5), (2, 4)]:
            out.append(["cone", x0, x1, r0, r1, a0, a1])
    for k, c in itertools.product(range(len(RADII)), range(len(CENTRES))):
        out.append(["cube", k, c])
        out.append(["sphere", k, c])
        out.append(["circle", k, c])
    for b in surfaces.BASES:
        out.append(["perimeter", b])
    for n, m, mix, close in itertools.product((2, 3, 4), (3, 4, 5), range(3), (False, True)):
        if not close or m == 4:
            out.append(["body", n, m, mix, close])
    out.append(["blunt"])
    return [c + [th] for c in out]


NEAR = (-4e-3, -1e-3, -1e-6, 1e-6, 1e-3, 4e-3)


def beside(at, lo=0.0, hi=1.0):
    """Values close to given ones."""
    return {float(a + e * (hi - lo)) for a in at for e in NEAR if lo <= a + e * (hi - lo) <= hi}


def grid(th):
    return np.linspace(0, 1, 13 if th else 7)


def same(got, want, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if not ref.close(got, want, 1e-7 * (1 + np.abs(want).max())):
        raise Violation(f"{what}: {ref.worst(got, want)}")


# Parameters around the perimeter ------------------------------------------
def around(t):
    k, f = int(t * 4) % 4, t * 4 - int(t * 4)
    if t == 1:
        return 0.0, 0.0
    return [(f, 0.0), (1.0, f), (1 - f, 1.0), (0.0, 1 - f)][k]


def corners(k, n=4):
    """Corners of a section in its own plane."""
    s = SIZES[k]
    base = [(0.1, 0.2), (1.0, 0.0), (1.3, 0.9), (0.2, 1.1)]
    return [(s * a + 0.1 * k, s * b - 0.2 * k) for a, b in base]


def place(ax, u, v, w):
    return {"x": (w, u, v), "y": (u, w, v), "z": (u, v, w)}[ax]


def run(cfg, ctx):
    kind = cfg[0]
    globals()["run_" + kind](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(kind)
    ctx.trace()


def run_sections(cfg, ctx):
    _, order, ax, th = cfg
    secs = []
    for k in order:
        a, b, c, d = [V(*place(ax, u, v, PLACES[k])) for u, v in corners(k)]
        secs.append(CoonsPatch(p00=a, p10=b, p11=c, p01=d))
    given = list(secs)
    p = SweptPatch(secs, sweep_axis=ax) if ax != "z" else SweptPatch(secs)
    if secs != given:
        raise Violation("the list of sections was changed")
    ks = sorted(order, key=lambda k: PLACES[k])
    at = [PLACES[k] for k in ks]
    lo, hi = at[0], at[-1]
    ws = sorted(set(at + [a + f * (b - a) for a, b in zip(at, at[1:]) for f in (0.25, 0.5, 0.9)]) | beside(at, lo, hi))
    ts = sorted(set(np.round(grid(th), 6)) | {0.25, 0.5, 0.75, 0.1, 0.33, 0.62, 0.9})
    for w in ws:
        i = max(j for j in range(len(at) - 1) if at[j] <= w)
        f = (w - at[i]) / (at[i + 1] - at[i])
        for t in ts:
            q = []
            for k in (ks[i], ks[i + 1]):
                r, s = around(t)
                (a, b), (c, d), (e, g), (h, j) = corners(k)
                q.append(
                    np.array([a, b]) * (1 - r) * (1 - s)
                    + np.array([c, d]) * r * (1 - s)
                    + np.array([e, g]) * r * s
                    + np.array([h, j]) * (1 - r) * s
                )
            u, v = q[0] * (1 - f) + q[1] * f
            got = ref.P(p((w - lo) / (hi - lo), t))
            same(got, place(ax, u, v, w), f"at {ax}={w}, t={t}")
    ctx.op(len(ws) * len(ts))


def edge(kind, k):
    """(path, reference) of the k-th edge."""
    x, s = [0.0, 0.7, 1.1, 2.0, 3.5][k], SIZES[k]
    a, b = np.array([x, 0.1 * k, 0.2]), np.array([x + 0.1, s, 0.5 * s])
    v = lambda q: V(*[float(c) for c in q])
    m = 0.5 * (a + b) + np.array([0.1, -0.4, 0.6])
    if kind == "line":
        return Line(v(a), v(b)), shapes.line(a, b)
    if kind == "bezier":
        return Bezier([v(a), v(m), v(b)]), shapes.bezier([a, m, b])
    if kind == "poly":
        return Polyline([Line(v(a), v(m)), Line(v(m), v(b))]), shapes.polyline([a, m, b])
    d = (b - a) / np.linalg.norm(b - a)
    n = np.cross(d, [0.0, 0.3, 1.0])
    c = 0.5 * (a + b) + 0.4 * n
    return Arc(v(a), v(b), v(c)), arc(a, b, c)


def arc(a, b, c):
    """Arc by spherical interpolation of the radii."""
    u, w = a - c, b - c
    R = np.linalg.norm(u)
    th = np.arccos(np.clip(np.dot(u, w) / R / np.linalg.norm(w), -1, 1))
    return lambda t: c + (np.sin((1 - t) * th) * u + np.sin(t * th) * w) / np.sin(th)


def run_edges(cfg, ctx):
    _, kinds, th = cfg
    pairs = [edge(x, k) for k, x in enumerate(kinds)]
    p = SweptPatchfromEdges([a for a, _ in pairs])
    n = len(kinds)
    rs = sorted(set(np.linspace(0, 1, n)) | {0.1, 0.45, 0.5, 0.77} | set(grid(th)) | beside(np.linspace(0, 1, n)))
    for r in rs:
        i = min(int(r * (n - 1) + 1e-12), n - 2)
        f = r * (n - 1) - i
        for s in (0.0, 0.3, 0.5, 0.8, 1.0):
            want = pairs[i][1](s) * (1 - f) + pairs[i + 1][1](s) * f
            same(ref.P(p(r, s)), want, f"at r={r}, s={s}")
    for k, (a, b) in enumerate(pairs):
        same(ref.P(a(0.3)), b(0.3), f"edge {k}")
    ctx.op(len(rs) * 5)


def profile(kind):
    pts = {
        "line": [(0.0, 0.2), (1.5, 0.9)],
        "bezier": [(0.0, 0.0), (0.5, 1.0), (2.0, 0.4)],
        "arc": [(1.0, 0.2), (0.2, 1.0), (0.2, 0.2)],
        "poly": [(2.0, 0.0), (0.8, 0.5), (-0.4, 0.3)],
        "tilted": [(0.0, 0.0, 0.2), (0.7, 0.2, 0.3), (2.0, -0.5, 0.6)],
        "axis": [(0.0, 0.0), (2.0, 0.0)],
    }[kind]
    q = [shapes.vec(*p) for p in pts]
    v = [V(*[float(c) for c in p]) for p in q]
    if kind == "bezier" or kind == "tilted":
        return Bezier(v), shapes.bezier(q)
    if kind == "arc":
        return Arc(*v), arc(*q)
    if kind == "poly":
        return Polyline([Line(a, b) for a, b in zip(v, v[1:])]), shapes.polyline(q)
    return Line(*v), shapes.line(*q)


def turned(q, a):
    """Rotated about the x axis, from y to -z."""
    return ref.rot("x", -np.rad2deg(a))(q)


def run_revolved(cfg, ctx):
    _, prof, a0, a1, th = cfg
    path, line = profile(prof)
    a0, a1 = ANGLES[a0], ANGLES[a1]
    k = dict(angle0=a0, angle1=a1)
    if (a0, a1) == (0.0, 2 * np.pi):
        k = {}
    p = RevolvedPatch(path, **k)
    for r in grid(th):
        for s in grid(th):
            a = a0 + s * (a1 - a0)
            same(ref.P(p(r, s)), turned(line(r), a), f"at r={r}, angle={a}")
    ctx.op(len(grid(th)) ** 2)


def run_component(cfg, ctx):
    _, prof, th = cfg
    path, line = profile(prof)
    c = RevolvedComponent(path, verbosity=0)
    c.generate_patches()
    ctx.op(2)
    if len(c.patches) != 4:
        raise Violation(f"{len(c.patches)} patches")
    left = [0, 1, 2, 3]
    for name, p in c.patches.items():
        for k in left:
            want = [[turned(line(r), (k + s) * np.pi / 2) for s in grid(th)] for r in grid(th)]
            if ref.close(ref.sample(p, grid(th), grid(th)), want, 1e-7):
                left.remove(k)
                break
        else:
            raise Violation(f"patch {name} is none of the remaining quarters {left}")


def run_cone(cfg, ctx):
    _, x0, x1, r0, r1, a0, a1, th = cfg
    a0, a1 = ANGLES[a0], ANGLES[a1]
    p = ConePatch(x0, x1, r0, r1, a0, a1)
    for r in grid(th):
        for s in grid(th):
            a, R = a0 + s * (a1 - a0), r0 + r * (r1 - r0)
            same(ref.P(p(r, s)), [x0 + r * (x1 - x0), R * np.cos(a), R * np.sin(a)], f"at r={r}, angle={a}")
    ctx.op(len(grid(th)) ** 2)


def vectors(k, c):
    size, centre = RADII[k], CENTRES[c]
    return size, np.array(centre), V(*centre)


def six(comp, centre_vector, ctx):
    comp.generate_patches()
    ctx.op(1)
    if sorted(comp.patches) != sorted(FACES):
        raise Violation(f"faces {sorted(comp.patches)}")


def run_cube(cfg, ctx):
    _, k, c, th = cfg
    a, centre, vc = vectors(k, c)
    comp = Cube(a, vc) if c else Cube(a)
    comp.verbosity = 0
    six(comp, vc, ctx)
    n = 5
    for face in FACES:
        axis, sign = NORMAL[face]
        for p in (CubePatch(a, vc, face), comp.patches[face]):
            g = (ref.sample(p, np.linspace(0, 1, n), np.linspace(0, 1, n)) - centre) / a
            if not ref.close(g[..., axis], np.full((n, n), sign), 1e-9):
                raise Violation(f"{face} face is not at {sign * a} from the centre")
            # affine in r and s, so that the four corners decide
            r, s = np.meshgrid(np.linspace(0, 1, n), np.linspace(0, 1, n), indexing="ij")
            flat = (
                g[0, 0] * ((1 - r) * (1 - s))[..., None]
                + g[-1, 0] * (r * (1 - s))[..., None]
                + g[-1, -1] * (r * s)[..., None]
                + g[0, -1] * ((1 - r) * s)[..., None]
            )
            same(g, flat, f"{face} face is not uniform")
            other = [x for x in range(3) if x != axis]
            got = sorted(tuple(np.round(g[i, j][other], 6)) for i in (0, -1) for j in (0, -1))
            if got != [(-1, -1), (-1, 1), (1, -1), (1, 1)]:
                raise Violation(f"{face} face has corners {got}")
            d = np.dot(g[-1, 0] - g[0, 0], g[0, -1] - g[0, 0])
            if abs(d) > 1e-9:
                raise Violation(f"{face} face is crossed over")
    ctx.op(12)
    bad(lambda: CubePatch(a, vc, "up")(0.5, 0.5))


def run_sphere(cfg, ctx):
    _, k, c, th = cfg
    R, centre, vc = vectors(k, c)
    comp = Sphere(R, vc) if c else Sphere(R)
    comp.verbosity = 0
    six(comp, vc, ctx)
    n = 9 if th else 7
    u = np.linspace(0, 1, n)
    for face in FACES:
        axis, sign = NORMAL[face]
        for p in (SpherePatch(R, vc, face), comp.patches[face]):
            g = (ref.sample(p, u, u) - centre) / R
            if np.abs(np.linalg.norm(g, axis=-1) - 1).max() > 1e-7:
                raise Violation(f"{face} face leaves the sphere")
            # the part of the sphere nearest to the face of the cube, covered once
            big = g[..., axis] * sign
            if np.any(big + 1e-9 < np.abs(g).max(axis=-1)):
                raise Violation(f"{face} face leaves its part of the sphere")
            for e in (g[0], g[-1], g[:, 0], g[:, -1]):
                m = np.sort(np.abs(e), axis=-1)
                if np.abs(m[:, 2] - m[:, 1]).max() > 1e-7:
                    raise Violation(f"an edge of the {face} face is not on the border to another face")
            angle = []
            for i in range(n - 1):
                for j in range(n - 1):
                    A, B, C, D = g[i, j], g[i + 1, j], g[i + 1, j + 1], g[i, j + 1]
                    angle += [solid_angle(A, B, C), solid_angle(A, C, D)]
            angle = np.array(angle)
            if not (np.all(angle > 0) or np.all(angle < 0)):
                raise Violation(f"{face} face is folded")
            if abs(abs(angle.sum()) - 4 * np.pi / 6) > 0.02:
                raise Violation(f"{face} face covers a solid angle of {angle.sum()}")
    ctx.op(12)
    bad(lambda: SpherePatch(R, vc, "up")(0.5, 0.5))


def solid_angle(a, b, c):
    num = np.dot(a, np.cross(b, c))
    den = 1 + np.dot(a, b) + np.dot(b, c) + np.dot(c, a)
    return 2 * np.arctan2(num, den)


def bad(f):
    try:
        f()
    except ValueError:
        return
    raise Violation("an unknown face was accepted")


def run_circle(cfg, ctx):
    _, k, c, th = cfg
    R, centre, vc = vectors(k, c)
    p = circle_patch(vc, R)
    ctx.op(1)
    u = np.linspace(0, 1, 9)
    g = (ref.sample(p, u, u) - centre) / R
    if np.abs(g[..., 2]).max() > 1e-9 / R:
        raise Violation("the circle leaves its plane")
    rad = np.linalg.norm(g, axis=-1)
    rim = np.concatenate([rad[0], rad[-1], rad[:, 0], rad[:, -1]])
    if np.abs(rim - 1).max() > 1e-6:
        raise Violation(f"the edge is not at the radius: {rim.min()} to {rim.max()}")
    if rad.max() > 1 + 1e-6:
        raise Violation("a point lies outside the circle")
    if np.linalg.norm(g[4, 4]) > 1e-6:
        raise Violation("the middle is not the centre")
    loop = np.concatenate([g[:-1, 0], g[-1, :-1], g[:0:-1, -1], g[0, :0:-1]])
    a = np.unwrap(np.arctan2(loop[:, 1], loop[:, 0]))
    step = np.diff(np.append(a, a[0] + np.sign(a[1] - a[0]) * 2 * np.pi))
    if np.abs(np.abs(step) - 2 * np.pi / 32).max() > 1e-6 or abs(np.sum(np.sign(step))) != 32:
        raise Violation("the edge does not run once around the circle")


def run_perimeter(cfg, ctx):
    _, b, th = cfg
    surf = surfaces.BASES[b]()
    p = SurfacePerimeter(surf)
    n = 64 if th else 32
    for i in range(n + 1):
        for t in ([i / n] if i == n else [i / n, i / n + 0.3 / n]):
            r, s = around(t)
            same(ref.P(p(t)), ref.P(surf(r, s)), f"at t={t}")
    for t in beside((0.0, 0.25, 0.5, 0.75, 1.0)):
        r, s = around(t)
        same(ref.P(p(t)), ref.P(surf(r, s)), f"at t={t}")
    ctx.op(2 * n)


def run_body(cfg, ctx):
    _, n, m, mix, close, th = cfg
    secs = []
    for j in range(n):
        # the ends of all edges, then edges of different kinds between them
        pts = []
        for i in range(m):
            a = 2 * np.pi * i / m + 0.2
            pts.append(np.array([PLACES[j] + 0.05 * i, SIZES[j] * np.cos(a), 0.3 * j + SIZES[j] * np.sin(a)]))
        es = []
        for i in range(m):
            a, b = pts[i], pts[(i + 1) % m]
            v = lambda q: V(*[float(x) for x in q])
            mid = 0.5 * (a + b) + np.array([0.0, 0.2, -0.1 * i])
            if (i + j + mix) % 3 == 0:
                es.append((Line(v(a), v(b)), shapes.line(a, b)))
            elif (i + j + mix) % 3 == 1:
                es.append((Bezier([v(a), v(mid), v(b)]), shapes.bezier([a, mid, b])))
            else:
                es.append((Polyline([Line(v(a), v(mid)), Line(v(mid), v(b))]), shapes.polyline([a, mid, b])))
        secs.append(es)
    c = SweptComponent([[e[0] for e in s] for s in secs], close_ends=close, verbosity=0)
    c.generate_patches()
    ctx.op(2)
    rs = sorted(set(np.linspace(0, 1, n)) | {0.2, 0.55, 0.9} | beside(np.linspace(0, 1, n)))
    ss = (0.0, 0.3, 0.5, 1.0)

    def at(i, r, s):
        j = min(int(r * (n - 1) + 1e-12), n - 2)
        f = r * (n - 1) - j
        return secs[j][i][1](s) * (1 - f) + secs[j + 1][i][1](s) * f

    want = {f"side {i}": [[at(i, r, s) for s in ss] for r in rs] for i in range(m)}
    if close:
        e = [x[1] for x in secs[0]]
        f = shapes.coons(shapes.rev(e[2]), e[1], e[0], shapes.rev(e[3]))
        want["first end"] = [[f(r, s) for s in ss] for r in rs]
        e = [x[1] for x in secs[-1]]
        f = shapes.coons(e[2], shapes.rev(e[3]), shapes.rev(e[0]), e[1])
        want["last end"] = [[f(r, s) for s in ss] for r in rs]
    if len(c.patches) != len(want):
        raise Violation(f"{len(c.patches)} patches instead of {len(want)}")
    for name, p in c.patches.items():
        g = ref.sample(p, rs, ss)
        d = {k: np.abs(g - w).max() for k, w in want.items()}
        k = min(d, key=d.get)
        if d[k] > 1e-7:
            raise Violation(f"patch {name} is nearest to {k}: {ref.worst(g, want[k])}")
        del want[k]


def run_blunt(cfg, ctx):
    p = BluntConePatch(x0=0.0, y0=0.0, rn=0.2, rb=1.0, L=3.0, angle0=0.0, angle1=np.pi)
    ctx.op(1)
    try:
        g = ref.sample(p, (0.0, 0.5, 1.0), (0.0, 0.5, 1.0))
    except AttributeError as e:
        raise Violation(f"a blunt cone cannot be evaluated: {e}", "blunt-cone")
    rad = np.hypot(g[..., 1], g[..., 2])
    if not np.all(np.isfinite(g)) or abs(rad.max() - 1.0) > 1e-6:
        raise Violation("a blunt cone does not reach its base radius")
