"""P08: mass properties are those of the union of homogeneous solid components."""

import contextlib
import io
import itertools
import re

import numpy as np
from hypervehicle.components import CompositeComponent, RevolvedComponent, SweptComponent
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Line, Polyline, Vector3

import build
import ref
from mc import Violation

PROPERTY = "P08"
V = Vector3
BOUNDS = {
    "quick": "all ordered selections of 1-3 of 4 solids x 3 density sets x 3 motions, analysed afterwards and on generation; all "
    "sequences of up to 4 of {generate, analyse a, analyse b, rotate, translate, register "
    "analysis a or b} on 4 vehicles; reflected solids; all ordered selections of 1-2 of 3 solids x 3 sizes x 3 density scales x 4 motions; "
    "every single density left out; reports of single components",
    "thorough": "ordered selections of 1-4 of 5 solids x 4 density sets x 4 motions; "
    "sequences of up to 5 operations on 6 vehicles; sizes and density scales; every single density left out; reports of single components",
}
ASSUMPTIONS = [
    "meshes are closed and wound outwards (P07), so the reference integrates the mesh "
    "by signed tetrahedra; box meshes are also compared with closed formulas",
    "single precision: tolerance 2e-4 of mass times squared extent",
]


# Solids: builder and, for boxes, corners ----------------------------------
def swept_box(lo, hi, res=1):
    # outward winding
    (x0, y0, z0), (x1, y1, z1) = lo, hi
    sec = lambda x: build.quad([(x, y0, z0), (x, y1, z0), (x, y1, z1), (x, y0, z1)])
    return SweptComponent([sec(x1), sec(x0)], close_ends=True, stl_resolution=res, verbosity=0)


def cube(a, c, res=1):
    k = CompositeComponent(stl_resolution=res, verbosity=0)
    k.add_component(Cube(a, V(*c), verbosity=0))
    return k


def sphere(r, c, res=3):
    k = CompositeComponent(stl_resolution=res, verbosity=0)
    k.add_component(Sphere(r, V(*c), verbosity=0))
    return k


def cone(res=4):
    line = Polyline([Line(V(0.0, 0.0), V(1.0, 0.6)), Line(V(1.0, 0.6), V(1.0, 0.0))])
    return RevolvedComponent(line, stl_resolution=res, verbosity=0)


def pair(res=1):
    k = CompositeComponent(stl_resolution=res, verbosity=0)
    k.add_component(Cube(0.3, V(1.0, 0.5, -0.5), verbosity=0))
    k.add_component(Cube(0.5, V(-1.0, 0.2, 0.4), verbosity=0))
    return k


BOX = ((0.2, 0.1, -0.3), (2.2, 0.6, 0.5))
SOLIDS = dict(
    box=lambda: swept_box(*BOX),
    cube=lambda: cube(0.5, (-1.0, 0.7, 0.4)),
    cone=cone,
    ball=lambda: sphere(0.6, (0.5, -1.0, 1.2)),
    pair=pair,
)
EXACT = dict(
    box=([0.2, 0.1, -0.3], [2.2, 0.6, 0.5]),
    cube=([-1.5, 0.2, -0.1], [-0.5, 1.2, 0.9]),
)
DENS = dict(
    unit=dict(box=1.0, cube=1.0, cone=1.0, ball=1.0, pair=1.0),
    mix=dict(box=2.5, cube=0.5, cone=7.0, ball=1.25, pair=3.0),
    ints=dict(box=3, cube=1000, cone=20, ball=7, pair=1),
    zero=dict(box=0.0, cube=2.0, cone=0.0, ball=4.0, pair=1.5),
)
MOTIONS = [
    [],
    [["rotate", 40, "z"], ["rotate", -25, "x"]],
    [["translate", [0.7, -1.1, 0.4]]],
    [["translate", [-0.5, 0.2, 0.9]], ["rotate", 65, "y"]],
]


def real_motion(m):
    return [("translate", V(*t[1])) if t[0] == "translate" else tuple(t) for t in m]


def point_map(m):
    maps = []
    for t in m:
        if t[0] == "rotate":
            maps.append(ref.rot(t[2], t[1]))
        else:
            maps.append(lambda p, o=np.array(t[1]): np.asarray(p) + o)
    return ref.compose(maps)


_mesh = {}


def triangles(kind):
    """Mesh of the solid on its own (outward)."""
    if kind not in _mesh:
        c = SOLIDS[kind]()
        c.generate_patches()
        _mesh[kind] = np.asarray(c.mesh.vectors, float)
    return _mesh[kind]


def expect(parts, move):
    """[(triangles, density)] -> totals of the moved union."""
    rows = []
    for tri, d in parts:
        t = move(tri)
        rows.append(ref.solid(t, d) + (ref.area(t),))
    vol = sum(r[0] for r in rows)
    mass = sum(r[1] for r in rows)
    cog = sum(r[1] * r[2] for r in rows) / mass
    I = 0
    for r in rows:
        s = r[2] - cog
        I = I + r[3] + r[1] * (s @ s * np.eye(3) - np.outer(s, s))
    return rows, vol, mass, cog, I, sum(r[4] for r in rows)


def near(a, b, scale, what, t=2e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} instead of {b.shape}")
    if not np.all(np.isfinite(a)) or np.max(np.abs(a - b)) > t * scale:
        raise Violation(f"{what}: {a.tolist()} instead of {b.tolist()}")


def compare(v, names, want, result, extent):
    rows, vol, mass, cog, I, area = want
    m = sum(abs(r[1]) for r in rows)
    sv = sum(abs(r[0]) for r in rows)
    if len(result) != 4:
        raise Violation(f"analyse returned {len(result)} values")
    scale = [sv, m, extent, m * extent**2]
    for what, got, exp, s in zip(("volume", "mass", "cog", "moi"), result, (vol, mass, cog, I), scale):
        near(got, exp, s, what)
        near(getattr(v, what), exp, s, f"vehicle attribute {what}")
    near(v.area, area, area, "vehicle attribute area")
    cp = v.component_properties
    for n, r in zip(names, rows):
        near(cp["volume"][n], r[0], sv, f"volume of {n}")
        near(cp["mass"][n], r[1], m, f"mass of {n}")
        near(cp["cog"][n], r[2], extent, f"cog of {n}")
        near(cp["moi"][n], r[3], m * extent**2, f"moi of {n}")
        near(cp["area"][n], r[4], area, f"area of {n}")
    for k in ("volume", "mass", "cog", "moi", "area"):
        if sorted(cp[k]) != sorted(names):
            raise Violation(f"component {k} lists {sorted(cp[k])}, not {sorted(names)}")


SEQ_OPS = ["gen", "an:unit", "an:mix", "rot", "tra", "reg:mix", "reg:unit"]
VEHICLES = [
    dict(parts=["box", "cube"], ghost=[], names=["b", None]),
    dict(parts=["cube", "cube", "cone"], ghost=[1], names=[None, None, "nose"]),
    dict(parts=["pair"], ghost=[0], names=[None]),
    dict(parts=["ball", "box", "cone"], ghost=[0, 2], names=["x", "y", "z"]),
    dict(parts=["box", "box"], ghost=[], names=[None, None]),
    dict(parts=["cone", "pair", "ball", "cube"], ghost=[3], names=[None, "p", None, None]),
]


def configs(tier):
    th = tier == "thorough"
    out = []
    kinds = list(SOLIDS)[: 5 if th else 4]
    for n in range(1, 5 if th else 4):
        for sel in itertools.permutations(kinds, n):
            for d in list(DENS)[: 4 if th else 3]:
                for m in range(4 if th else 3):
                    out.append(["static", list(sel), d, m, "veh"])
            out.append(["static", list(sel), "zero", 3, "comp"])
            for m in range(4):
                out.append(["static", list(sel), "mix", m, "registered"])
    for kind in SOLIDS:
        for d in DENS:
            for m in range(4):
                if DENS[d][kind]:
                    out.append(["static", [kind], d, m, "comp"])
    for i in range(6 if th else 4):
        for n in range(1, 6 if th else 5):
            for seq in itertools.product(SEQ_OPS, repeat=n):
                if not any(o == "gen" or o[:2] in ("an", "re") for o in seq):
                    continue
                if seq[-1][:3] in ("rot", "tra", "reg"):
                    continue  # nothing to observe after the last operation
                out.append(["seq", i, list(seq)])
    for kind in ("box", "cube", "cone"):
        for axis in "xyz":
            for append in (True, False):
                for m in (0, 1):
                    out.append(["reflected", kind, axis, append, m])
    for n in (1, 2):
        for sel in itertools.permutations(SIZED, n):
            for size in (1e-3, 1e-2, 1e2):
                for dens in (1e-9, 1e-3, 1e4):
                    for m in range(4):
                        out.append(["sized", list(sel), size, dens, m])
    for kind in SOLIDS:
        for m in range(4):
            out.append(["printed", kind, m])
    for n in (1, 2, 3):
        for sel in itertools.permutations(kinds, n):
            for k in range(n):
                for generated in (True, False):
                    out.append(["missing", list(sel), k, generated])
    return out


def run(cfg, ctx):
    if cfg[0] == "static":
        static(cfg, ctx)
    elif cfg[0] == "seq":
        sequence(cfg, ctx)
    elif cfg[0] == "printed":
        printed(cfg, ctx)
    elif cfg[0] == "sized":
        sized(cfg, ctx)
    elif cfg[0] == "missing":
        missing(cfg, ctx)
    else:
        reflected(cfg, ctx)
    ctx.trace()


def type_name(kind):
    return {"box": "swept", "cone": "revolved"}.get(kind, "composite")


def static(cfg, ctx):
    _, sel, d, m, where = cfg
    if sum(DENS[d][k] for k in sel) == 0:
        d = "mix"
    v = build.vehicle()
    motion = real_motion(MOTIONS[m])
    for k in sel:
        v.add_component(SOLIDS[k](), name=k, **({"transformations": motion} if where == "comp" else {}))
    if where != "comp":
        v.add_vehicle_transformations(motion)
    dens = {k: DENS[d][k] for k in sel}
    given = dict(dens)
    if where == "registered":
        v.analyse_after_generating(dens)
    v.generate()
    if where == "registered":
        if not v.analysis_results:
            raise Violation("no analysis results after generation")
        res = tuple(v.analysis_results[k] for k in ("volume", "mass", "cog", "moi"))
    else:
        res = v.analyse(dens)
    ctx.op(2)
    if dens != given:
        raise Violation("analyse changed the densities passed in")
    move = point_map(MOTIONS[m])
    parts = [(triangles(k), DENS[d][k]) for k in sel]
    want = expect(parts, move)
    extent = max(1.0, *(np.abs(move(t)).max() for t, _ in parts))
    compare(v, sel, want, res, extent)
    # closed formulas
    for k in sel:
        if k in EXACT:
            lo, hi = np.array(EXACT[k][0]), np.array(EXACT[k][1])
            l = hi - lo
            near(v.component_properties["volume"][k], l.prod(), l.prod(), f"volume of {k}")
            near(v.component_properties["area"][k], 2 * (l[0] * l[1] + l[1] * l[2] + l[0] * l[2]), 1, f"area of {k}")
            near(v.component_properties["cog"][k], move((lo + hi) / 2), extent, f"cog of {k}")
            R = np.column_stack([move(e) - move(np.zeros(3)) for e in np.eye(3)])
            I = np.diag([l[1] ** 2 + l[2] ** 2, l[0] ** 2 + l[2] ** 2, l[0] ** 2 + l[1] ** 2])
            mass = DENS[d][k] * l.prod()
            near(v.component_properties["moi"][k], R @ (mass / 12 * I) @ R.T, mass * extent**2 + 1e-9, f"moi of {k}")
    ctx.state((sorted(sel), d, m, round(want[1], 6)))
    ctx.outcome(f"{len(sel)} components")


SIZED = dict(
    box=lambda f: swept_box([f * x for x in BOX[0]], [f * x for x in BOX[1]]),
    cube=lambda f: cube(0.5 * f, (-f, 0.7 * f, 0.4 * f)),
    ball=lambda f: sphere(0.6 * f, (0.5 * f, -f, 1.2 * f)),
)


def sized(cfg, ctx):
    """Small and large solids, light and heavy: the same values in other units."""
    _, sel, f, factor, m = cfg
    v = build.vehicle()
    for k in sel:
        v.add_component(SIZED[k](f), name=k)
    motion = [[t[0], [f * x for x in t[1]]] if t[0] == "translate" else t for t in MOTIONS[m]]
    v.add_vehicle_transformations(real_motion(motion))
    v.generate()
    dens = {k: DENS["mix"][k] * factor for k in sel}
    res = v.analyse(dens)
    ctx.op(2)
    move = point_map(motion)
    parts = [(f * triangles(k), dens[k]) for k in sel]
    extent = max(np.abs(move(t)).max() for t, _ in parts)
    compare(v, sel, expect(parts, move), res, extent)
    ctx.state((sorted(sel), f, factor, m))
    ctx.outcome("sized")


NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def printed(cfg, ctx):
    """The report of a single component (unit density)."""
    _, kind, m = cfg
    c = SOLIDS[kind]()
    c.generate_patches()
    for t in real_motion(MOTIONS[m]):
        getattr(c, t[0])(*t[1:])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        c.analyse()
    ctx.op(3)
    got = [float(x) for x in NUMBER.findall(out.getvalue().replace("m^3", ""))]
    tri = point_map(MOTIONS[m])(triangles(kind))
    vol, _, cog, I = ref.solid(tri, 1.0)
    extent = max(1.0, np.abs(tri).max())
    if len(got) != 13:
        raise Violation(f"{len(got)} numbers reported: {out.getvalue()!r}")
    near(got[0], vol, abs(vol), "reported volume")
    near(got[1:4], cog, extent, "reported cog")
    near(np.reshape(got[4:], (3, 3)), I, abs(vol) * extent**2, "reported inertia")
    ctx.state((kind, m))
    ctx.outcome("reported")


def missing(cfg, ctx):
    """A component without a density is refused, and the full set is accepted after it."""
    _, sel, k, generated = cfg
    v = build.vehicle()
    for n in sel:
        v.add_component(SOLIDS[n](), name=n)
    if generated:
        v.generate()
    dens = {n: DENS["mix"][n] for j, n in enumerate(sel) if j != k}
    ctx.op(2)
    try:
        v.analyse(dens)
    except Exception:
        pass
    else:
        raise Violation(f"{sel} analysed without the density of {sel[k]}")
    parts = [(triangles(n), DENS["mix"][n]) for n in sel]
    res = v.analyse({n: DENS["mix"][n] for n in sel})
    extent = max(1.0, *(np.abs(t).max() for t, _ in parts))
    compare(v, sel, expect(parts, lambda p: p), res, extent)
    ctx.state((sorted(sel), sel[k], generated))
    ctx.outcome("missing density")


def sequence(cfg, ctx):
    _, i, seq = cfg
    spec = VEHICLES[i]
    v = build.vehicle()
    names, counts = [], {}
    for j, k in enumerate(spec["parts"]):
        t = type_name(k)
        v.add_component(SOLIDS[k](), name=spec["names"][j], ghost=j in spec["ghost"])
        counts[t] = counts.get(t, 0) + 1
        names.append(spec["names"][j] or f"{v.components[-1].componenttype}_{counts[t]}")

    def densities(d):
        return {n: DENS[d][k] * (1 + 0.5 * j) for j, (n, k) in enumerate(zip(names, spec["parts"]))}

    def check(d, move, result):
        dens = densities(d)
        parts = [(triangles(k), dens[n]) for n, k in zip(names, spec["parts"])]
        extent = max(1.0, *(np.abs(move(t)).max() for t, _ in parts))
        compare(v, names, expect(parts, move), result, extent)

    generated, registered = False, None
    maps = []
    for o in seq:
        if o == "gen" or (o.startswith("an") and not generated):
            maps, generated = [], True
            if o == "gen":
                v.generate()
                ctx.op()
            if o == "gen" and registered:
                r = v.analysis_results
                if r is None or set(r) != {"volume", "mass", "cog", "moi"}:
                    raise Violation(f"analysis results after generation: {r}")
                check(registered, ref.compose(maps), tuple(r[k] for k in ("volume", "mass", "cog", "moi")))
        if o.startswith("an"):
            res = v.analyse(densities(o[3:]))
            ctx.op()
            check(o[3:], ref.compose(maps), res)
        elif o == "rot":
            if not generated:
                ctx.op()
                try:
                    v.transform([("rotate", 35, "z")])
                except Exception:
                    pass
                else:
                    raise Violation("transform of a vehicle that was not generated was accepted")
                continue
            v.transform([("rotate", 35, "z")])
            ctx.op()
            maps = maps + [ref.rot("z", 35)]
        elif o == "tra":
            if not generated:
                continue
            v.transform(("translate", V(0.3, -0.2, 0.5)))
            ctx.op()
            maps = maps + [lambda p: np.asarray(p) + np.array([0.3, -0.2, 0.5])]
        elif o.startswith("reg"):
            v.analyse_after_generating(densities(o[4:]))
            ctx.op()
            registered = o[4:]
        ctx.state((i, generated, registered, len(maps), o))
    ctx.outcome(f"sequences on vehicle {i}")


def reflected(cfg, ctx):
    _, kind, axis, append, m = cfg
    v = build.vehicle()
    v.add_component(SOLIDS[kind](), name="a", reflection_axis=axis, append_reflection=append)
    v.add_component(SOLIDS["ball"](), name="b")
    v.add_vehicle_transformations(real_motion(MOTIONS[m]))
    v.generate()
    dens = {"a": 2.0, "b": 0.5}
    res = v.analyse(dens)
    ctx.op(2)
    move = point_map(MOTIONS[m])
    tri = triangles(kind)
    mir = ref.mirror(axis)(tri)
    right = mir[:, ::-1]  # outward winding
    cat = lambda x: np.concatenate([tri, x]) if append else x
    extent = max(1.0, np.abs(move(tri)).max(), np.abs(move(mir)).max())
    ball = (triangles("ball"), 0.5)
    ctx.state((kind, axis, append, m))
    ctx.outcome("reflected")
    try:
        compare(v, ["a", "b"], expect([(cat(right), 2.0), ball], move), res, extent)
        return
    except Violation as e:
        msg = str(e)
    # the listed deviation: reflected triangles counted with the sign of their winding
    rows = v.component_properties["volume"]
    vol = 0.0 if append else -ref.solid(tri)[0]
    near(rows["a"], vol, abs(ref.solid(tri)[0]), "volume of a reflected solid")
    near(res[0], vol + ref.solid(ball[0])[0], 1.0, "total volume with a reflected solid")
    near(v.component_properties["area"]["a"], ref.area(tri) * (2 if append else 1), ref.area(tri), "area")
    near(res[1], 2.0 * vol + 0.5 * ref.solid(ball[0])[0], 1.0, "total mass with a reflected solid")
    raise Violation(msg, "reflected-winding")
