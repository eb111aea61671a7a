"""P21: transfinite patches and grids reproduce their edges, corners and displacement."""

import itertools

import numpy as np
from hypervehicle.geometry import Arc, Bezier, CoonsPatch, Line, Polyline, Vector3
from hypervehicle.geometry.geometry import (
    ArcLengthParameterizedPath,
    MirroredPatch,
    OffsetPatchFunction,
    ReversedPath,
    RotatedPatch,
    SubRangedPath,
)
from hypervehicle.geometry.path import LinearFunction, RobertsFunction, Spline
from hypervehicle.geometry.surface import StructuredGrid

import ref
import shapes
import surfaces
from mc import Violation

PROPERTY = "P21"
V = Vector3
CORNERS = {
    "square": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)],
    "warped": [(0.1, 0.2, 0.3), (1.4, -0.2, 0.6), (1.7, 1.3, -0.5), (-0.2, 0.8, 1.1)],
    "far": [(10, -20, 5), (12, -20.5, 5.5), (11.5, -18, 4), (9.7, -18.2, 6)],
    "point": [(0, 0, 0), (1, 0.5, 0.2), (0.5, 1.5, 0.4), (0, 0, 0)],
}
KINDS = ["line", "bezier", "arc", "poly", "sub", "rev"]
SHIFTS = {"a": (0.5, 0.0, 0.0), "b": (-0.25, 1.0, 3.0), "c": (0.0, -2.0, 0.125)}
OPS = ["+" + k for k in SHIFTS] + ["-" + k for k in SHIFTS]
CF = ["none", "lin", "end0", "end1", "both"]
BOUNDS = {
    "quick": "all 6^4 assignments of edge kinds on 4 corner sets at a 5 x 5 grid of "
    "parameters; each of the 8 edge ends moved by 5 gaps; every missing edge or corner; all "
    "sequences of up to 4 of 6 displacements on 3 patches; grids of all 5^4 cluster function "
    "assignments on 5 surfaces and all sizes 2-6 x 2-6; all blocks, and blocks of blocks, of grids "
    "up to 3 x 4",
    "thorough": "as quick with all sequences of up to 6 displacements, grids of 9 surfaces and all pairs "
    "of sizes for 5^4 assignments of one surface, 9 x 9 grids of parameters and blocks of a 5 x 5 grid",
}
ASSUMPTIONS = ["edges whose ends differ by less than the documented tolerance count as meeting"]


def configs(tier):
    th = tier == "thorough"
    out = []
    for c in CORNERS:
        for kinds in itertools.product(KINDS, repeat=4):
            if c == "point" and any(k in ("arc", "sub") for k in (kinds[3],)):
                continue
            out.append(["edges", c, list(kinds)])
        out.append(["corners", c])
    for c in ("square", "warped", "far"):
        for e, end, ax in itertools.product(range(4), (0, 1), range(3)):
            out.append(["gap", c, e, end, ax])
    out.append(["missing"])
    for n in range(0, 7 if th else 5):
        for seq in itertools.product(OPS, repeat=n):
            for kind in ("corners", "edges", "offset"):
                out.append(["shift", kind, list(seq)])
    for s in GRIDS if th else list(GRIDS)[:5]:
        for cf in itertools.product(CF, repeat=4):
            out.append(["grid", s, 4, 5, list(cf)])
        for n, m in itertools.product(range(2, 7), repeat=2):
            for cf in (["none"] * 4, ["end0", "lin", "both", "end1"], None):
                out.append(["grid", s, n, m, cf])
    if th:
        for n, m in itertools.product(range(2, 7), repeat=2):
            for cf in itertools.product(CF, repeat=4):
                out.append(["grid", "curved", n, m, list(cf)])
    for s in ("curved", "rotated"):
        for n, m in ((2, 2), (3, 4), (4, 3)) + (((5, 5),) if th else ()):
            for a, b in itertools.product(range(n), range(m)):
                for p, q in itertools.product(range(1, n - a + 1), range(1, m - b + 1)):
                    out.append(["sub", s, n, m, [a, b, p, q]])
    out.append(["refuse"])
    return [c + [th] for c in out]


def vv(q):
    return V(*[float(x) for x in q])


def arc(a, b, c):
    u, w = a - c, b - c
    R = np.linalg.norm(u)
    th = np.arccos(np.clip(np.dot(u, w) / R / np.linalg.norm(w), -1, 1))
    return lambda t: c + (np.sin((1 - t) * th) * u + np.sin(t * th) * w) / np.sin(th)


def edge(kind, a, b, k):
    a, b = np.array(a, float), np.array(b, float)
    bulge = np.array([0.1, -0.2, 0.3]) * (1 + k) * 0.4
    m = 0.5 * (a + b) + bulge
    if np.all(a == b) and kind in ("line", "poly", "rev"):
        kind = "bezier"  # an edge shrunk to a point needs a loop or a Bezier curve
    if kind == "line":
        return Line(vv(a), vv(b)), shapes.line(a, b)
    if kind == "bezier":
        return Bezier([vv(a), vv(m), vv(b)]), shapes.bezier([a, m, b])
    if kind == "poly":
        return Polyline([Line(vv(a), vv(m)), Line(vv(m), vv(b))]), shapes.polyline([a, m, b])
    if kind == "rev":
        return ReversedPath(Bezier([vv(b), vv(m), vv(a)])), shapes.bezier([a, m, b])
    if kind == "sub":
        d = b - a
        return SubRangedPath(Line(vv(a - d), vv(b + d)), 1 / 3, 2 / 3), shapes.line(a, b)
    d = (b - a) / np.linalg.norm(b - a)
    n = np.cross(d, [0.2, 0.3, 1.0 + k])
    c = 0.5 * (a + b) + 0.7 * n
    return Arc(vv(a), vv(b), vv(c)), arc(a, b, c)


ENDS = {0: (3, 2), 1: (1, 2), 2: (0, 1), 3: (0, 3)}  # north, east, south, west
NAMES = ["north", "east", "south", "west"]


def patch(c, kinds):
    q = CORNERS[c]
    es = [edge(k, q[ENDS[i][0]], q[ENDS[i][1]], i) for i, k in enumerate(kinds)]
    real = CoonsPatch(**{n: e[0] for n, e in zip(NAMES, es)})
    return real, [e[1] for e in es]


def same(got, want, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if not ref.close(got, want, 1e-8 * (1 + np.abs(want).max())):
        raise Violation(f"{what}: {ref.worst(got, want)}")


def lin(th):
    return np.linspace(0, 1, 9 if th else 5)


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(cfg[0])
    ctx.trace()


def run_edges(cfg, ctx):
    _, c, kinds, th = cfg
    p, (n, e, s, w) = patch(c, kinds)
    u = lin(th)
    for name, at, f in [
        ("north", lambda t: (t, 1.0), n),
        ("east", lambda t: (1.0, t), e),
        ("south", lambda t: (t, 0.0), s),
        ("west", lambda t: (0.0, t), w),
    ]:
        for t in u:
            same(ref.P(p(*at(t))), f(t), f"{name} edge at {t}")
    f = shapes.coons(n, e, s, w)
    same(ref.sample(p, u, u), [[f(r, q) for q in u] for r in u], "inside")
    for name, q in zip(("p00", "p10", "p11", "p01"), CORNERS[c]):
        same(ref.P(getattr(p, name)), q, f"corner {name}")
    ctx.op(len(u) ** 2 + 4 * len(u))


def run_corners(cfg, ctx):
    _, c, th = cfg
    q = [np.array(x, float) for x in CORNERS[c]]
    p = CoonsPatch(p00=vv(q[0]), p10=vv(q[1]), p11=vv(q[2]), p01=vv(q[3]))
    u = lin(th)
    want = [[q[0] * (1 - r) * (1 - s) + q[1] * r * (1 - s) + q[2] * r * s + q[3] * (1 - r) * s for s in u] for r in u]
    same(ref.sample(p, u, u), want, "patch of corners")
    ctx.op(len(u) ** 2)


def run_gap(cfg, ctx):
    _, c, e, end, ax, th = cfg
    q = CORNERS[c]
    for gap in (0.3, -0.8, 5.0, 0.04, -0.003):
        es = []
        for i in range(4):
            a, b = [np.array(q[k], float) for k in ENDS[i]]
            if i == e:
                (b if end else a)[ax] += gap
            es.append(Line(vv(a), vv(b)))
        try:
            CoonsPatch(**dict(zip(NAMES, es)))
        except Exception:
            ctx.op()
            continue
        if abs(gap) > 1e-3 + 0.02 * abs(q[ENDS[e][end]][ax]):
            raise Violation(f"edges with a gap of {gap} were accepted")
        ctx.op()
    es = []
    for i in range(4):
        a, b = [np.array(q[k], float) for k in ENDS[i]]
        if i == e:
            (b if end else a)[ax] += 1e-8
        es.append(Line(vv(a), vv(b)))
    p = CoonsPatch(**dict(zip(NAMES, es)))
    if np.abs(ref.P(p(0.5, 0.5)) - np.mean(q, axis=0)).max() > 1e-7:
        raise Violation("wrong middle of a patch with a gap within rounding")


def run_missing(cfg, ctx):
    q = CORNERS["warped"]
    es = {n: edge("line", q[ENDS[i][0]], q[ENDS[i][1]], i)[0] for i, n in enumerate(NAMES)}
    cs = dict(p00=vv(q[0]), p10=vv(q[1]), p11=vv(q[2]), p01=vv(q[3]))
    for group in (es, cs):
        for n in range(4):
            for sub in itertools.combinations(group, n):
                ctx.op()
                try:
                    CoonsPatch(**{k: group[k] for k in sub})
                except Exception:
                    continue
                raise Violation(f"a patch was made from {sub}")


def base(kind):
    if kind == "edges":
        p, (n, e, s, w) = patch("warped", ["bezier", "arc", "line", "poly"])
        return p, shapes.coons(n, e, s, w)
    q = [np.array(x, float) for x in CORNERS["warped"]]
    o = np.array([0.0, 0.0, 0.0])
    k = {}
    if kind == "offset":
        o = np.array([0.75, -1.0, 0.5])
        k = dict(offset=vv(o))
    p = CoonsPatch(p00=vv(q[0]), p10=vv(q[1]), p11=vv(q[2]), p01=vv(q[3]), **k)
    return p, lambda r, s: o + q[0] * (1 - r) * (1 - s) + q[1] * r * (1 - s) + q[2] * r * s + q[3] * (1 - r) * s


AT = [(0.0, 0.0), (0.3, 0.8), (1.0, 1.0), (1.0, 0.4)]


def run_shift(cfg, ctx):
    _, kind, seq, th = cfg
    p, f = base(kind)
    made = [(p, np.zeros(3))]
    for op in seq:
        d = SHIFTS[op[1]]
        dv = vv(d)
        p0, s0 = made[-1]
        if op[0] == "+":
            made.append((p0 + dv, s0 + d))
        else:
            made.append((p0 - dv, s0 - d))
        ctx.op()
        same(ref.P(dv), d, "the displacement was changed")
        # a later change of the vector does not move the patch
        dv += V(7.0, 7.0, 7.0)
    for i, (q, s) in enumerate(made):
        for r, t in AT:
            same(ref.P(q(r, t)), f(r, t) + s, f"patch {i} of {seq}")
    # new patches are not displaced
    q, f = base(kind)
    for r, t in AT:
        same(ref.P(q(r, t)), f(r, t), "a new patch")


def bump(x, y, z):
    return V(0.1 * y, 0.2 * z, 0.3 * x)


GRIDS = {
    "coons": surfaces.coons,
    "curved": surfaces.curved,
    "revolved": surfaces.revolved,
    "cone": surfaces.cone,
    "rotated": lambda: RotatedPatch(surfaces.curved(), 0.4, "y", V(1.0, 0.0, 2.0)),
    "sphere": surfaces.sphere,
    "mirrored": lambda: MirroredPatch(surfaces.coons(), "z"),
    "offset": lambda: OffsetPatchFunction(surfaces.coons(), bump),
    "moved": lambda: surfaces.curved() + V(1.0, 2.0, 3.0),
}
BETA = {"end0": (True, False, 1.1), "end1": (False, True, 1.05), "both": (True, True, 1.2)}


def clustered(name, t):
    """Roberts' transformation, written from its definition."""
    if name in ("none", "lin"):
        return t
    e0, e1, b = BETA[name]
    k = (b + 1) / (b - 1)
    if e0 and e1:
        m = k ** (2 * (t - 0.5))
        return ((b + 1) * m - b + 1) / (2 * (1 + m))
    x = 1 - t if e0 else t
    m = k**x
    y = (b * m - b) / (1 + m)
    return 1 - y if e0 else y


def run_grid(cfg, ctx):
    _, name, n, m, cf, th = cfg
    surf = GRIDS[name]()
    k = {}
    if cf is not None:
        real = []
        for c in cf:
            real.append(None if c == "none" else LinearFunction() if c == "lin" else RobertsFunction(*BETA[c]))
        k = dict(cf_list=real)
    g = StructuredGrid(surface=surf, niv=n, njv=m, **k)
    ctx.op()
    cf = cf or ["none"] * 4
    if (g.niv, g.njv) != (n, m):
        raise Violation(f"{g.niv} x {g.njv} vertices")
    named(g, ["", "", "", ""], "no label")
    x = np.stack([np.broadcast_to(c, (n, m)) for c in (g.vertices.x, g.vertices.y, g.vertices.z)], axis=-1)
    for i in range(n):
        for j in range(m):
            r, s = i / (n - 1), j / (m - 1)
            R = (1 - s) * clustered(cf[2], r) + s * clustered(cf[0], r)
            S = (1 - r) * clustered(cf[3], s) + r * clustered(cf[1], s)
            same(x[i, j], ref.P(surf(R, S)), f"vertex {i}, {j}")


def named(g, tags, label):
    if list(g.tags) != tags or g.label != label:
        raise Violation(f"tags {g.tags!r} and label {g.label!r} instead of {tags} and {label!r}")


def block(g):
    return np.stack([np.array(c) for c in (g.vertices.x, g.vertices.y, g.vertices.z)], axis=-1)


def run_sub(cfg, ctx):
    """Every block of a grid, and every block of that."""
    _, name, n, m, (a, b, p, q), th = cfg
    cf = [RobertsFunction(*BETA[c]) for c in ("end0", "end1", "both", "end0")]
    g = StructuredGrid(surface=GRIDS[name](), niv=n, njv=m, cf_list=cf, tags=["a", "", "c", "b"], label="wing")
    whole = block(g)
    h = g.subgrid(i0=a, j0=b, niv=p, njv=q)
    ctx.op()
    named(g, ["a", "", "c", "b"], "wing")
    named(h, ["a", "", "c", "b"], "wing")
    same(block(h).reshape(p, q, 3), whole[a : a + p, b : b + q], "block")
    h.tags[1] = "mine"
    named(g, ["a", "", "c", "b"], "wing")
    h.tags[1] = ""
    if (h.niv, h.njv) != (p, q):
        raise Violation(f"{h.niv} x {h.njv} vertices instead of {p} x {q}")
    if q > 1:
        for a1, b1 in itertools.product(range(p), range(q)):
            for p1, q1 in itertools.product(range(1, p - a1 + 1), range(1, q - b1 + 1)):
                i = h.subgrid(i0=a1, j0=b1, niv=p1, njv=q1)
                ctx.op()
                same(
                    block(i).reshape(p1, q1, 3),
                    whole[a + a1 : a + a1 + p1, b + b1 : b + b1 + q1],
                    "block of a block",
                )
    # the block is a copy
    for c in (h.vertices.x, h.vertices.y, h.vertices.z):
        c += 3.0
    same(block(g), whole, "the grid after its block was changed")
    if (g.niv, g.njv) != (n, m):
        raise Violation("taking a block changed the size of the grid")


def run_refuse(cfg, ctx):
    s = surfaces.coons()
    for kw in (dict(niv=1, njv=3), dict(niv=3, njv=1), dict(niv=0, njv=3), dict(niv=3), dict(njv=4), {}):
        ctx.op()
        try:
            StructuredGrid(surface=s, **kw)
        except Exception:
            continue
        raise Violation(f"a grid was made for {kw}")
    for x in (None, 1.0, Line(V(0, 0), V(1, 0)), "surface"):
        ctx.op()
        try:
            StructuredGrid(surface=x, niv=3, njv=3)
        except Exception:
            continue
        raise Violation(f"a grid was made of {x}")
    for x in (1.0, (1.0, 2.0, 3.0), np.zeros(3), "v", None):
        for f in (lambda p: p + x, lambda p: p - x):
            ctx.op()
            try:
                f(s)
            except Exception:
                continue
            raise Violation(f"a patch was displaced by {x!r}")
    same(ref.P(s(0.0, 0.0)), [0.1, 0.2, 0.0], "a refused displacement moved the patch")
