"""P31: descriptions state what the object is."""

import copy
import itertools
import re

import numpy as np
from hypervehicle import Vehicle
from hypervehicle.components import CompositeComponent
from hypervehicle.components.common import OgiveNose
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Arc, Bezier, CoonsPatch, Line, Polyline, RobertsFunction, Vector3
from hypervehicle.geometry.geometry import (
    CubePatch,
    CurvedPatch,
    MeanTrailingEdgePatch,
    MirroredPatch,
    OffsetPatchFunction,
    ReversedPath,
    RotatedPatch,
    SpherePatch,
    SubRangedPath,
    TrailingEdgePatch,
    TrailingEdgePath,
)
from hypervehicle.geometry.path import ArcLengthParameterizedPath, LinearFunction, Spline
from hypervehicle.geometry.surface import StructuredGrid

import build
import surfaces
from mc import Violation

PROPERTY = "P31"
V = Vector3
COORD = [0, 1, -2, 0.5, -1.23456, 12345.6789, 1e-5, np.float64(2.71828), np.float32(0.25), np.int64(7)]
POINTS = [(0.125, -1.5, 2.0), (3.0, 0.25, -4.0), (5.5, 6.0, 0.0), (-7.25, 8.0, 9.5), (1.0, 2.5, 3.0)]
KINDS = ["swept", "triswept", "revolved", "composite", "flatwing", "fin", "cube", "sphere", "ogive"]
NAMES = [None, "tail", "left wing 2", ""]
BOUNDS = {
    "quick": f"vectors of all triples of {len(COORD)} coordinates, and of arrays; lines, Bezier "
    "curves, splines, polylines, arcs and paths made of them on all ordered choices of 5 points; "
    "patches of all orders of 4 corners or edges, all chains of up to 2 transformations of 8 "
    f"surfaces; grids of all 3 x 3 sizes; {len(KINDS)} kinds of component under {len(NAMES)} "
    "names; vehicles of all sequences of up to 3 of 4 components",
    "thorough": "as quick with chains of up to 3 transformations and vehicles of up to 5 components",
}
ASSUMPTIONS = ["the wording is free: only the names and values that appear in it are compared"]
NUM = re.compile(r"(?<![A-Za-z_0-9])-?\d+(?:\.\d*)?(?:e[+-]?\d+)?(?![A-Za-z_0-9-])")


def configs(tier):
    th = tier == "thorough"
    out = [["vector", i, j] for i, j in itertools.product(range(len(COORD)), repeat=2)]
    out.append(["arrays"])
    for k in range(2, 5):
        out += [["curve", list(p)] for p in itertools.permutations(range(5), k)]
    out += [["patch", list(p)] for p in itertools.permutations(range(4))]
    alphabet = ["R", "M", "O", "C"]
    for b in BASES:
        for n in range(1, 4 if th else 3):
            out += [["chain", b, list(c)] for c in itertools.product(alphabet, repeat=n)]
    for face in ("east", "west", "south", "north", "bottom", "top"):
        out.append(["face", face])
    out += [["edge", side] for side in ("top", "bot")]
    out += [["grid", i, j] for i, j in itertools.product((2, 3, 5), repeat=2)]
    out.append(["cluster"])
    out += [["component", k, n] for k in KINDS for n in NAMES]
    for n in range(0, 6 if th else 4):
        out += [["vehicle", list(c)] for c in itertools.product(range(4), repeat=n)]
    return out


BASES = ["coons", "curved", "swept", "edges", "revolved", "cone", "cube", "sphere"]


def same(got, want, what):
    if got != want:
        raise Violation(f"{what}: {got}, not {want}")


def numbers(text):
    return [float(x) for x in NUM.findall(text.replace("3-dimensional", ""))]


def rounded(*vs):
    """The numbers by which vectors are shown."""
    return [float(round(c, V.PRECISION)) for v in vs for c in (v.x, v.y, v.z)]


def after(text, key):
    m = re.search(rf"\b{key}\s*=\s*", text)
    if not m:
        raise Violation(f"no {key} in {text!r}")
    return text[m.end() :]


def shows(text, want, what):
    """The description consists of these numbers, in this order."""
    got = numbers(text)
    if len(got) != len(want) or not np.allclose(got, want, rtol=1e-6, atol=1e-9):
        raise Violation(f"{what} shows {got}, not {want}: {text}")


def starts(text, want, what):
    got = numbers(text)[: len(want)]
    if len(got) != len(want) or not np.allclose(got, want, rtol=1e-6, atol=1e-9):
        raise Violation(f"{what} is shown as {got}, not {want}")


def both(x, ctx):
    ctx.op(2)
    for t in (repr(x), str(x)):
        if not isinstance(t, str) or not t:
            raise Violation(f"a description is {t!r}")
    return repr(x), str(x)


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(cfg[0])
    ctx.trace()


def run_vector(cfg, ctx):
    for k in COORD:
        c = (COORD[cfg[1]], COORD[cfg[2]], k)
        for t in both(V(*c), ctx):
            shows(t, [float(round(x, V.PRECISION)) for x in c], "a vector")


def run_arrays(cfg, ctx):
    for shape in ((1,), (3,), (2, 2)):
        x = np.arange(np.prod(shape), dtype=float).reshape(shape) + 0.12345
        for v in (V(x), V(x, 2 * x, -x), V(x, 0.0, x)):
            for t in both(v, ctx):
                for c in (v.x, v.y, v.z):
                    for y in np.ravel(c):
                        if round(float(y), V.PRECISION) not in numbers(t):
                            raise Violation(f"no {y} in {t}")


def run_curve(cfg, ctx):
    ps = [V(*POINTS[i]) for i in cfg[1]]
    want = rounded(*ps)
    paths = [(Bezier(ps), want)]
    lines = [Line(a, b) for a, b in zip(ps, ps[1:])]
    for l, a, b in zip(lines, ps, ps[1:]):
        paths.append((l, rounded(a, b)))
        t = repr(l)
        starts(after(t, "p0"), rounded(a), "start of a line")
        starts(after(t, "p1"), rounded(b), "end of a line")
    pl = Polyline(lines)
    segs = [x for a, b in zip(ps, ps[1:]) for x in rounded(a, b)]
    paths.append((pl, segs))
    mixed = Polyline(lines + [Bezier([ps[-1], V(0.0, 0.0), ps[0]])])
    paths.append((mixed, segs + rounded(ps[-1], V(0.0, 0.0), ps[0])))
    for closed in (False, True):
        s = Spline(ps, closed=closed)
        paths.append((s, want + (rounded(ps[0]) if closed else [])))
        if str(closed) not in repr(s):
            raise Violation(f"spline closed={closed} is shown as {s!r}")
    a, b, c = V(1.0, 0.0, 0.5), V(0.0, 1.0, 0.5), V(0.0, 0.0, 0.5)
    arc = Arc(a, b, c)
    paths.append((arc, rounded(a, b, c)))
    for k, q in zip("abc", (a, b, c)):
        starts(after(repr(arc), k), rounded(q), f"{k} of an arc")
    for p, w in paths:
        r, s = both(p, ctx)
        shows(r, w, type(p).__name__)
        named(p, r)
        for n in (5, 100):
            q = ArcLengthParameterizedPath(p, n=n)
            r, _ = both(q, ctx)
            shows(r, w + [n], "a path by arc length")
            named(q, r)
        for t0, t1 in ((0, 1), (0.25, 0.75), (0.9, 0.3)):
            q = SubRangedPath(p, t0, t1)
            r, s = both(q, ctx)
            shows(r, w + [t0, t1], "part of a path")
            starts(after(r, "t0"), [t0], "start of a part")
            starts(after(r, "t1"), [t1], "end of a part")
            named(q, r)
            named(q, s)
        q = ReversedPath(p)
        r, s = both(q, ctx)
        shows(r, w + [1, 0], "a reversed path")
        named(q, r)
        named(q, s)


PATHS = [Line, Bezier, Spline, Polyline, Arc, ArcLengthParameterizedPath, SubRangedPath, ReversedPath]


def named(p, text):
    """A description does not begin with the name of another kind of path."""
    m = re.match(r"\w+", text)
    others = {c.__name__ for c in PATHS} - {c.__name__ for c in type(p).__mro__}
    if m and m[0] in others:
        raise Violation(f"a {type(p).__name__} is described as {text!r}")


def run_patch(cfg, ctx):
    q = [V(*POINTS[i]) for i in cfg[1]]
    d = dict(zip(("p00", "p10", "p11", "p01"), q))
    off = V(0.1, -0.2, 0.3)
    p = CoonsPatch(**d)
    for x, o in ((p, V(0, 0, 0)), (p + off, off), (p - off, -off), (CoonsPatch(**d, offset=off), off)):
        r, _ = both(x, ctx)
        for k, v in d.items():
            starts(after(r, k), rounded(v), f"corner {k}")
        starts(after(r, "offset"), rounded(o), "displacement")
    p00, p10, p11, p01 = q
    e = dict(north=Line(p01, p11), east=Line(p10, p11), south=Line(p00, p10), west=Line(p00, p01))
    e["south"] = Bezier([p00, V(0.0, 0.0, 0.75), p10])
    p = CoonsPatch(**e)
    for x, o in ((p, V(0, 0, 0)), (p + off, off)):
        r, _ = both(x, ctx)
        for k, v in e.items():
            starts(after(r, k), numbers(repr(v)), f"edge {k}")
        starts(after(r, "offset"), rounded(o), "displacement")


def run_chain(cfg, ctx):
    _, b, chain = cfg
    for angle, axis in itertools.product((0.5, -2.0), "xyz"):
        s = getattr(surfaces, b)()
        for c in chain:
            inner = both(s, ctx)[0]
            if c == "R":
                s = RotatedPatch(s, angle, axis)
                new, tail = [np.rad2deg(angle)], ""
            elif c == "M":
                s, new, tail = MirroredPatch(s, axis=axis), [], axis
            elif c == "O":
                s, new, tail = OffsetPatchFunction(s, lambda x, y, z: V(1.0, 0.0)), [], ""
            else:
                s, new, tail = CurvedPatch(s, "x", lambda x, y: x, lambda x, y: 1.0), [], ""
            r, t = both(s, ctx)
            if inner not in r or r == inner:
                raise Violation(f"{r!r} does not describe a change of {inner!r}")
            rest = r.replace(inner, "", 1)
            shows(rest, new, type(s).__name__)
            if tail and not re.search(rf"(?<!\w){tail}(?!\w)", rest):
                raise Violation(f"no {tail} in {rest!r}")


def run_face(cfg, ctx):
    face = cfg[1]
    for cls, size, c in itertools.product((CubePatch, SpherePatch), (0.5, 3), POINTS):
        r, _ = both(cls(size, V(*c), face), ctx)
        shows(r, [size] + rounded(V(*c)), cls.__name__)
        for f in ("east", "west", "south", "north", "bottom", "top"):
            if (f in r.split("face")[-1]) != (f == face):
                raise Violation(f"face {face} is described by {r!r}")


def run_edge(cfg, ctx):
    side = cfg[1]
    a, b = V(0.0, 0.0), V(0.0, 1.0)
    path = TrailingEdgePath(a, b, lambda x, y: V(0.0, 0.0, 0.1))
    for angle in (0.0, 0.25, -1.0):
        for p in (
            TrailingEdgePatch(a, b, path, 0.3, angle, side),
            MeanTrailingEdgePatch(Line(a, b), path, 0.3, angle, side),
        ):
            r, _ = both(p, ctx)
            shows(r, [np.rad2deg(angle)], "a trailing edge")
            if side not in r or {"top": "bot", "bot": "top"}[side] in r:
                raise Violation(f"the {side} of a trailing edge is described by {r!r}")
        both(path, ctx)


def run_grid(cfg, ctx):
    _, ni, nj = cfg
    for tags in (None, ["n", "e", "s", "w"]):
        g = StructuredGrid(surfaces.coons(), ni, nj, tags=tags)
        for x, size in ((g, (ni, nj)), (g.subgrid(0, 1, 0, ni, 1), (ni, 1)), (g.subgrid(0, 0, 0, 2, nj), (2, nj))):
            r, _ = both(x, ctx)
            for k, n in zip(("niv", "njv", "nkv"), size + (1,)):
                starts(after(r, k), [n], k)
            starts(after(r, "dimensions"), [sum(n > 1 for n in size)], "dimensions")
            for t in tags or []:
                if t not in after(r, "tags"):
                    raise Violation(f"no tag {t} in {r!r}")


def run_cluster(cfg, ctx):
    both(LinearFunction(), ctx)
    for e0, e1, beta in itertools.product((False, True), (False, True), (1.01, 1.5, 0)):
        r, _ = both(RobertsFunction(e0, e1, beta), ctx)
        starts(after(r, "beta"), [beta], "beta")
        for k, e in (("end0", e0), ("end1", e1)):
            if not after(r, k).startswith(str(e)):
                raise Violation(f"{k}={e} is described by {r!r}")


def make(kind, name):
    if kind == "cube":
        return Cube(0.5, verbosity=0, name=name)
    if kind == "sphere":
        return Sphere(0.5, verbosity=0, name=name)
    if kind == "ogive":
        return OgiveNose(1.0, 0.1, 3.0, 1.0, verbosity=0, name=name)
    if kind == "composite":
        return CompositeComponent(verbosity=0, name=name)
    c = build.COMPONENTS[kind]()
    c.name = name
    return c


def run_component(cfg, ctx):
    _, kind, name = cfg
    c = make(kind, name)
    word = "ogive" if kind == "ogive" else c.componenttype
    v = build.vehicle()
    states = ("new", "copied", "added") if c.componenttype in Vehicle.ALLOWABLE_COMPONENTS else ("new", "copied")
    for state in states:
        if state == "copied":
            c = copy.deepcopy(c)
        if state == "added":
            v.add_component(c)
        r, s = both(c, ctx)
        if word not in r.lower():
            raise Violation(f"a {word} component is described as {r!r}")
        if name:
            same(s, name, "text of a named component")
            if name not in r:
                raise Violation(f"component {name!r} is described as {r!r}")
        elif c.componenttype not in s.lower() or "None" in r + s:
            raise Violation(f"a nameless {word} component is described as {s!r}, {r!r}")
    if "added" in states:
        v.add_component(c, name="other")
    else:
        c.name = "other"
    r, s = both(c, ctx)
    same(s, "other", "text of a renamed component")
    if "other" not in r or (name and name in r):
        raise Violation(f"a renamed component is described as {r!r}")


def run_vehicle(cfg, ctx):
    parts = ["swept", "revolved", "composite", "composite"]
    v = build.vehicle(name="Glider")
    count = {}
    for i in [None] + cfg[1]:
        if i is not None:
            c = make(parts[i], "fourth" if i == 3 else None)
            v.add_component(c)
            count[c.componenttype] = count.get(c.componenttype, 0) + 1
        r, s = both(v, ctx)
        for t in (r, s):
            if "Glider" not in t:
                raise Violation(f"vehicle Glider is described as {t!r}")
        shows(s, [sum(count.values())] if count else [], "a vehicle")
        rest = r.replace(s, "", 1)
        for w, n in count.items():
            if not re.search(rf"(?<!\d){n}\W+{w}\b|\b{w}\W+{n}(?!\d)", rest):
                raise Violation(f"{count} are described as {rest!r}")
        shows(rest, list(count.values()), "the components of a vehicle")
    v.configure(name="Other")
    if "Other" not in str(v) or "Glider" in repr(v):
        raise Violation(f"a renamed vehicle is described as {v!r}")
