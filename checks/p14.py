"""P14: objects are independent: nothing done to one changes another."""

import copy
import inspect
import itertools
import pkgutil
import importlib

import numpy as np
import hypervehicle
from hypervehicle import Vehicle
from hypervehicle.components import CompositeComponent, Fin, RevolvedComponent, SweptComponent, Wing
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Arc, Bezier, CoonsPatch, Line, Polyline, RobertsFunction, Vector3
from hypervehicle.geometry import geometry as geo
from hypervehicle.geometry.path import ArcLengthParameterizedPath, Spline
from hypervehicle.geometry.surface import StructuredGrid
from hypervehicle.geometry.vector import Vector3 as V3
from hypervehicle.utilities import surfce_to_stl

import build
import ref
from mc import Violation

PROPERTY = "P14"
V = Vector3
BOUNDS = {
    "quick": "all sequences of up to 2 of 14 operations on one of two objects, the other "
    "compared with an untouched twin, for 9 ways of obtaining two objects x 5 component "
    "kinds (1 operation, 3 ways, on wings and fins); all sequences of up to 3 operations on "
    "vehicles, copies, displaced lines and patches; inputs and default arguments of 26 "
    "constructors and calls; 4 changes of what an object holds for 5 ways x 7 kinds in both "
    "directions; all sequences of up to 2 of 4 changes of every input point of 16 objects, of "
    "up to 3 of vectors of arrays; 4 changes of every point 29 objects were evaluated at, 4 of option lists, "
    "4 of vectors translated by",
    "thorough": "as quick with up to 3 operations on swept and composite components, all 9 ways "
    "with wings and fins and up to 2 operations on them for 2 ways",
}

CHEAP = ["swept", "dictswept", "revolved", "composite", "cubes"]
DEAR = ["wing", "fin"]


# Canonical value of arbitrary inputs ---------------------------------------
def freeze(x, depth=0):
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    if isinstance(x, np.ndarray):
        return ("array", x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    if depth > 8:
        return "..."
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(i, depth + 1) for i in x])
    if isinstance(x, dict):
        return ("dict", [(freeze(k, depth + 1), freeze(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, Vector3):
        return ("v", freeze(x.x), freeze(x.y), freeze(x.z))
    if callable(x) and not hasattr(x, "length") and inspect.isroutine(x):
        cells = [freeze(c.cell_contents, depth + 1) for c in (getattr(x, "__closure__", None) or ())]
        return ("f", id(x), cells)
    if hasattr(x, "__dict__") or hasattr(type(x), "__slots__"):
        d = dict(getattr(x, "__dict__", {}))
        for k in getattr(type(x), "__slots__", []):
            if hasattr(x, k):
                d[k] = getattr(x, k)
        return (type(x).__name__, [(k, freeze(d[k], depth + 1)) for k in sorted(d)])
    return ("id", id(x))


def defaults():
    """Default arguments of every function of the package."""
    out = {}
    names = ["hypervehicle"] + [
        m.name
        for m in pkgutil.walk_packages(hypervehicle.__path__, "hypervehicle.")
        if ".hangar" not in m.name
    ]
    for n in names:
        mod = importlib.import_module(n)
        todo = [(f"{n}.{k}", o) for k, o in vars(mod).items() if getattr(o, "__module__", None) == n]
        for q, o in todo:
            if inspect.isclass(o):
                fs = [(f"{q}.{k}", f) for k, f in vars(o).items() if inspect.isfunction(f)]
                out[q + " attributes"] = freeze(
                    {k: x for k, x in vars(o).items() if isinstance(x, (list, dict, tuple)) and not k.startswith("__")}
                )
            elif inspect.isfunction(o):
                fs = [(q, o)]
            else:
                fs = []
            for k, f in fs:
                if f.__defaults__ or f.__kwdefaults__:
                    out[k] = freeze([f.__defaults__, f.__kwdefaults__])
    return out


DEFAULTS = defaults()


def check_defaults(what):
    now = defaults()
    for k in DEFAULTS:
        if now.get(k) != DEFAULTS[k]:
            raise Violation(f"{what} changed the default arguments of {k}: {now.get(k)}, not {DEFAULTS[k]}")


# Components -----------------------------------------------------------------
def inputs(kind):
    """Caller-owned objects to build a component from."""
    if kind in ("swept", "dictswept"):
        secs = [build.box_section(0.0, 0.2, 1.0, 0.1, 0.7), build.box_section(2.0, 0.1, 1.3, 0.0, 0.9)]
        return dict(secs=secs, res=dict(sweep=2, e0=1, e1=2, e2=1, e3=2) if kind == "dictswept" else 1)
    if kind == "revolved":
        return dict(line=Polyline([Line(V(2.0, 0.0), V(0.8, 0.5)), Line(V(0.8, 0.5), V(-0.4, 0.3))]))
    if kind in ("composite", "cubes"):
        return dict(centre=V(0.3, -0.2, 0.1), a=0.4)
    if kind == "wing":
        B0, TT = V(0.0, 1.0), V(3.0, 0.0)
        return dict(
            A0=V(0.0, 0.0),
            A1=V(1.0, 0.0),
            TT=TT,
            B0=B0,
            Line_B0TT=Bezier([B0, V(1.0, 1.0), TT]),
            top_tf=build.thick(-0.1),
            bot_tf=build.thick(0.07),
        )
    if kind == "fin":
        return dict(
            p0=V(0.0, 0.0),
            p1=V(0.2, 1.0),
            p2=V(1.0, 1.1),
            p3=V(2.0, 0.0),
            fin_thickness=0.2,
            fin_angle=0.5,
            top_thickness_function=build.thick(-0.1),
            bot_thickness_function=build.thick(0.1),
        )


def construct(kind, i, default=False):
    if kind in ("swept", "dictswept"):
        return SweptComponent(i["secs"], stl_resolution=i["res"], verbosity=0)
    if kind == "revolved":
        return RevolvedComponent(i["line"], stl_resolution=1, verbosity=0)
    if kind == "composite":
        c = CompositeComponent(stl_resolution=1, verbosity=0)
        c.add_component(Cube(i["a"], **({} if default else {"centre": i["centre"]})))
        c.add_component(Sphere(i["a"], **({} if default else {"centre": i["centre"]})))
        return c
    if kind == "cubes":
        c = CompositeComponent(stl_resolution=1, verbosity=0)
        c.add_component(Cube(i["a"], verbosity=0))
        return c
    if kind == "wing":
        return Wing(stl_resolution=1, verbosity=0, **i)
    return Fin(stl_resolution=1, verbosity=0, **i)


def options():
    return dict(
        curvatures=[("x", lambda x, y: 0.1 * x, lambda x, y: 0.1)],
        transformations=[("rotate", 20, "z"), ("translate", V(0.5, 0.25, -0.1))],
        clustering=dict(i_clustering_func=lambda t: t * t),
        reflection_axis="y",
    )


WAYS = [
    "copy_fresh",  # deepcopy before generation
    "copy_gen",  # deepcopy after generation
    "copy_mesh",  # deepcopy after meshing
    "copy_opts",  # deepcopy of a component with options
    "shared_inputs",  # built from the same caller objects
    "defaults",  # built with default arguments
    "shared_opts",  # same option objects, same vehicle
    "two_vehicles",  # same option objects, two vehicles
    "vehicle_copy",  # deepcopy of the vehicle
]
OPS = [
    "rotate",
    "translate",
    "translate_f",
    "reflect",
    "generate",
    "vtransform",
    "vadd",
    "mesh",
    "mutate_mesh",
    "surface3",
    "cluster",
    "repair",
    "rename",
    "analyse",
]


def apply(o, c, v):
    """One operation on the first object; v is its vehicle."""
    if o == "rotate":
        c.rotate(30, "x")
    elif o == "translate":
        c.translate(V(1.0, 2.0, 3.0))
    elif o == "translate_f":
        c.translate(lambda x, y, z: V(0.1 * y, 0.2, 0.0))
    elif o == "reflect":
        c.reflect("z")
    elif o == "generate":
        v.generate()
    elif o == "vtransform":
        v.transform([("rotate", 45, "y")])
    elif o == "vadd":
        v.add_vehicle_transformations([("rotate", 10, "x")])
        v.generate()
    elif o == "mesh":
        c.mesh
    elif o == "mutate_mesh":
        c.mesh.vectors[:] += 1.0
    elif o == "surface3":
        c.surface(2)
    elif o == "cluster":
        c.add_clustering_options(j_clustering_func=lambda t: t**3, i_clustering_func=lambda t: t**2)
        c.surface(2)
    elif o == "repair":
        c.stl_repair(0.5)
    elif o == "rename":
        c.name = "renamed"
        c.verbosity = 0
    elif o == "analyse":
        v.analyse({n: 2.0 for n in v._named_components})


def two(way, kind):
    """Returns (A, its vehicle, B, its vehicle, caller-owned objects)."""
    owned = inputs(kind)
    if way.startswith("copy"):
        a = construct(kind, owned)
        va, vb = build.vehicle(), build.vehicle()
        opts = options() if way == "copy_opts" else {}
        va.add_component(a, **opts)
        if way in ("copy_gen", "copy_mesh", "copy_opts"):
            va.generate()
        if way == "copy_mesh":
            a.mesh
        b = copy.deepcopy(a)
        if way == "copy_fresh":
            va.generate()
        vb.add_component(b)
        if way == "copy_fresh":
            vb.generate()
        return a, va, b, vb, (owned, opts)
    if way in ("shared_inputs", "defaults"):
        d = way == "defaults"
        a, b = construct(kind, owned, d), construct(kind, owned if not d else inputs(kind), d)
        va, vb = build.vehicle(), build.vehicle()
        va.add_component(a)
        vb.add_component(b)
        va.generate()
        vb.generate()
        return a, va, b, vb, (owned,)
    opts = options()
    if way == "shared_opts":
        a, b = construct(kind, owned), construct(kind, owned)
        v = build.vehicle()
        v.add_component(a, **opts)
        v.add_component(b, **opts)
        v.generate()
        return a, v, b, None, (owned, opts)
    tr = [("rotate", 15, "z")]
    if way == "two_vehicles":
        a, b = construct(kind, owned), construct(kind, owned)
        va, vb = build.vehicle(), build.vehicle()
        for c, v in ((a, va), (b, vb)):
            v.add_vehicle_transformations(tr)
            v.add_component(c, **opts)
            v.generate()
        return a, va, b, vb, (owned, opts, tr)
    a = construct(kind, owned)
    va = build.vehicle()
    va.add_vehicle_transformations(tr)
    va.add_component(a, **opts)
    va.generate()
    vb = copy.deepcopy(va)
    return a, va, vb.components[0], vb, (owned, opts, tr)


def fingerprint(c, v, again=True):
    """Everything observable of a component in its vehicle."""
    rs = (0.3, 0.8)
    pts = [g for _, g in build.points(c, rs, rs)]
    m = np.array(c.mesh.vectors, float)
    out = [list(c.patches), np.array(pts), m, c.name, c.stl_resolution if isinstance(c.stl_resolution, int) else dict(c.stl_resolution), c.verbosity]
    if v is not None:
        out += [repr(v), list(v._named_components), v.volume, v.analysis_results]
    if again:
        w = v
        if w is None:
            w = build.vehicle()
            w.add_component(c)
        w.generate()
        out += [
            list(c.patches),
            np.array([g for _, g in build.points(c, rs, rs)]),
            np.array(c.mesh.vectors, float),
        ]
    return out


def same(a, b):
    if len(a) != len(b):
        return f"{len(a)} and {len(b)} values"
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or not ref.close(x, y):
                return f"value {i}: {ref.worst(x, y)}"
        elif x != y:
            return f"value {i}: {x} and {y}"
    return None


_twins = {}


def configs(tier):
    th = tier == "thorough"
    out = []
    n = 3 if th else 2
    for way in WAYS:
        for kind in CHEAP:
            for k in range(1, n + 1):
                for ops in itertools.product(OPS, repeat=k):
                    if k == 3 and kind not in ("swept", "composite"):
                        continue
                    if way == "shared_opts" and any(o in ("generate", "vtransform", "vadd", "analyse") for o in ops):
                        continue
                    out.append(["pair", way, kind, list(ops)])
        for kind in DEAR:
            if not th and way not in ("copy_fresh", "copy_gen", "shared_inputs"):
                continue
            for k in range(1, n):
                for ops in itertools.product(OPS, repeat=k):
                    if way == "shared_opts" and any(o in ("generate", "vtransform", "vadd", "analyse") for o in ops):
                        continue
                    if k > 1 and way not in ("copy_gen", "shared_inputs"):
                        continue
                    out.append(["pair", way, kind, list(ops)])
    for k in range(1, 4 if th else 3):
        for ops in itertools.product(range(len(VEHICLE_OPS)), repeat=k):
            out.append(["vehicles", list(ops)])
    for what in DISPLACE:
        for k in range(1, 4):
            for ops in itertools.product(range(5), repeat=k):
                out.append(["displace", what, list(ops)])
    for i in range(len(CALLS)):
        out.append(["inputs", i])
    out.append(["composite"])
    for way in WAYS:
        if way in ("shared_inputs", "defaults", "shared_opts", "two_vehicles"):
            continue
        for kind in CHEAP + DEAR:
            for what in OWN:
                out.append(["own", way, kind, what])
    for i in range(len(LATER)):
        for k in range(1, 3):
            for ms in itertools.product(range(len(CHANGES)), repeat=k):
                out.append(["later", i, list(ms)])
    for i in range(len(HANDED)):
        out.append(["handed", i])
    for kind in CHEAP:
        for which, how in itertools.product(("curvatures", "transformations"), LISTS):
            out.append(["lists", "vehicle", kind, which, how])
            if kind not in ("composite", "cubes"):
                out.append(["lists", "composite", kind, which, how])
        for way in MOVES:
            for m in range(len(CHANGES)):
                out.append(["moved", kind, way, [m]])
    for k in range(1, 4):
        for ops in itertools.product(range(len(ARRAY_OPS)), repeat=k):
            out.append(["arrays", list(ops)])
    return out


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    check_defaults(cfg)
    ctx.state(cfg)
    ctx.outcome(cfg[0])
    ctx.trace()


def run_pair(cfg, ctx):
    _, way, kind, ops = cfg
    key = (way, kind)
    if key not in _twins:
        a, va, b, vb, owned = two(way, kind)
        _twins[key] = fingerprint(b, vb)
    a, va, b, vb, owned = two(way, kind)
    before = freeze(owned)
    for o in ops:
        apply(o, a, va)
        ctx.op()
    now = freeze(owned)
    if now != before:
        raise Violation(f"objects passed in were changed: {now} from {before}")
    diff = same(fingerprint(b, vb), _twins[key])
    if diff:
        raise Violation(f"the other object changed: {diff}")


# What an object owns, changed in place ---------------------------------------
OWN = ["inputs", "options", "patches", "mesh"]


def grow(x, k):
    """Scales a vector, path or number in place."""
    if isinstance(x, Vector3):
        x *= k
    elif isinstance(x, Line):
        grow(x.p0, k)
        grow(x.p1, k)
    elif isinstance(x, Bezier):
        for q in x.B:
            grow(q, k)
    elif isinstance(x, Polyline):
        for s in x.segments:
            grow(s, k)


def change_own(c, what):
    if what == "inputs":
        for sec in getattr(c, "cross_sections", []):
            for e in sec:
                grow(e, 1.5)
            sec.reverse()
        grow(getattr(c, "revolve_line", None), 1.5)
        for part in getattr(c, "components", []):
            part.a, part.r = 9.0, 9.0
            part.centre = V(5.0, 5.0, 5.0)
        if isinstance(c.stl_resolution, dict):
            for k in c.stl_resolution:
                c.stl_resolution[k] += 1
        for k, x in (c.params or {}).items():
            grow(x, 1.5)
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                c.params[k] = x * 1.5
    elif what == "options":
        for name in ("_transformations", "_curvatures"):
            x = getattr(c, name, None)
            if isinstance(x, list):
                x.append(("rotate", 33, "x") if name == "_transformations" else ("y", lambda x, y: y, lambda x, y: 1.0))
        x = getattr(c, "_clustering", None)
        if isinstance(x, dict):
            x["j_clustering_func"] = lambda t: t**4
    elif what == "patches":
        for patch in list(c.patches.values()):
            if hasattr(patch, "angle"):
                patch.angle += 1.0
        for k in list(c.patches)[1:]:
            del c.patches[k]
        for d in (c.patch_res_r, c.patch_res_s):
            for k in d:
                d[k] += 2
    else:
        c.mesh.vectors[:] *= 2.0
        for k, s in (c.surfaces or {}).items():
            s.vectors[:] *= 3.0


def run_own(cfg, ctx):
    _, way, kind, what = cfg
    again = way != "copy_mesh"
    _, _, b, vb, _ = two(way, kind)
    want = fingerprint(b, vb, again)
    a, va, b, vb, owned = two(way, kind)
    change_own(a, what)
    ctx.op()
    diff = same(fingerprint(b, vb, again), want)
    if diff:
        raise Violation(f"a copy changed with the {what} of the original: {diff}")
    # and the other way round
    a, va, _, _, _ = two(way, kind)
    want = fingerprint(a, va, again)
    a, va, b, vb, owned = two(way, kind)
    change_own(b, what)
    ctx.op()
    diff = same(fingerprint(a, va, again), want)
    if diff:
        raise Violation(f"the original changed with the {what} of its copy: {diff}")


# Inputs changed by their owner later ------------------------------------------
def _turn(v):
    v.transform_to_global_frame(V(0.0, 1.0, 0.0), V(-1.0, 0.0, 0.0), V(0.0, 0.0, 1.0), V(0.5, 0.0, 0.0))


def _div(v):
    v /= 4.0


CHANGES = [
    ("scaled", lambda v: grow(v, 2.0)),
    ("divided", _div),
    ("normalised", lambda v: v.normalize()),
    ("moved", _turn),
]


def _square():
    a, b, c, d = V(0.0, 0.0), V(1.0, 0.0), V(1.0, 1.0, 0.5), V(0.0, 1.0)
    return Line(a, b), Bezier([b, V(1.5, 0.5), c]), Spline([d, V(0.5, 1.2, 0.3), c]), Polyline([Line(a, V(0.0, 0.5)), Line(V(0.0, 0.5), d)])


def _own_points(x):
    """All vectors reachable from an input."""
    if isinstance(x, Vector3):
        return [x]
    if isinstance(x, (list, tuple)):
        return [p for y in x for p in _own_points(y)]
    if isinstance(x, Line):
        return [x.p0, x.p1]
    if isinstance(x, Bezier):
        return list(x.B)
    if isinstance(x, Polyline):
        return [p for s in x.segments for p in _own_points(s)]
    return []


LATER = [
    (lambda: _pts()[1:3], lambda i: Line(*i), 1),
    (lambda: _pts(), lambda i: Bezier(i), 1),
    (lambda: _pts(), lambda i: Spline(i), 1),
    (lambda: _pts(), lambda i: Spline(i, closed=True), 1),
    (lambda: [V(1.0, 0.0, 1.0), V(0.0, 1.0, 1.0), V(0.0, 0.0, 1.0)], lambda i: Arc(*i), 1),
    (lambda: _pts(), lambda i: CoonsPatch(p00=i[0], p10=i[1], p11=i[2], p01=i[3]), 2),
    (lambda: list(_square()), lambda i: CoonsPatch(south=i[0], east=i[1], north=i[2], west=i[3]), 2),
    (lambda: [V(0.5, -1.0, 2.0)], lambda i: _shifted(i[0]), 2),
    (lambda: [V(0.5, -1.0, 2.0)], lambda i: _shifted(i[0]) + V(1.0, 0.0, 0.0), 2),
    (lambda: [V(0.5, -1.0, 2.0)], lambda i: _shifted() - i[0], 2),
    (lambda: [V(0.5, -1.0, 2.0)], lambda i: _shifted() + i[0], 2),
    (lambda: [V(0.5, -1.0, 2.0)], lambda i: Line(V(0.0, 0.0), V(1.0, 1.0)) + i[0], 1),
    (lambda: _pts(), lambda i: Vector3(i[1]), 0),
    (lambda: _pts(), lambda i: i[1] + i[2], 0),
    (lambda: _pts(), lambda i: i[1] * 2.0, 0),
    (lambda: _pts(), lambda i: -i[1], 0),
]


def _shifted(*offset):
    return CoonsPatch(p00=V(0.0, 0.0), p10=V(1.0, 0.0), p11=V(1.0, 1.0, 0.5), p01=V(0.0, 1.0), **(dict(offset=offset[0]) if offset else {}))


def run_later(cfg, ctx):
    make, build_it, arity = LATER[cfg[1]]
    grid = (0.0, 0.3, 1.0)

    def ev(x):
        if arity == 0:
            return [ref.P(x)]
        if arity == 1:
            return [ref.P(x(t)) for t in grid] + [np.array([x.length()])]
        return [ref.P(x(r, s)) for r in grid for s in grid]

    want = [np.array(p, float) for p in ev(build_it(make()))]
    n = len(_own_points(make()))
    for j in range(n):
        i = make()
        x = build_it(i)
        for m in cfg[2]:
            p = _own_points(i)[j]
            if CHANGES[m][0] == "normalised" and abs(p) == 0:
                continue
            CHANGES[m][1](p)
            ctx.op()
        for got, w in zip(ev(x), want):
            if got.shape != w.shape or np.abs(got - w).max() > 1e-12:
                raise Violation(f"an object changed when an input was {[CHANGES[m][0] for m in cfg[2]]}: {got}, not {w}")
    # the list handed in
    i = make()
    if isinstance(i, list) and cfg[1] in (1, 2, 3):
        x = build_it(i)
        i[1] = V(9.0, 9.0, 9.0)
        i.reverse()
        i.append(V(8.0, 8.0))
        ctx.op()
        for got, w in zip(ev(x), want):
            if np.abs(got - w).max() > 1e-12:
                raise Violation("a path changed with the list it was made from")


# Points handed out --------------------------------------------------------------
def _section_list():
    return [_surf() + V(0.0, 0.0, 3.0), _surf(), _surf() + V(0.0, 0.0, 1.0)]


HANDED = [
    (lambda: Line(*_pts()[1:3]), 1),
    (lambda: Bezier(_pts()[1:2]), 1),
    (lambda: Bezier(_pts()[:2]), 1),
    (lambda: Bezier(_pts()), 1),
    (lambda: Polyline([Bezier(_pts())]), 1),
    (lambda: Polyline(_segs()), 1),
    (lambda: Polyline(_segs(), closed=True), 1),
    (lambda: Spline(_pts()), 1),
    (lambda: Spline(_pts()[:2]), 1),
    (lambda: Arc(V(1.0, 0.0), V(0.0, 1.0), V(0.0, 0.0)), 1),
    (lambda: ArcLengthParameterizedPath(Bezier(_pts()), 20), 1),
    (lambda: geo.SubRangedPath(Bezier(_pts()), 0.2, 0.8), 1),
    (lambda: geo.ReversedPath(Bezier(_pts())), 1),
    (lambda: geo.ElipsePath(V(0.1, 0.2, 0.3), 0.5, 0.4, "top"), 1),
    (lambda: geo.OffsetPathFunction(Line(V(0.0, 0.0), V(1.0, 0.0)), build.thick(0.1)), 1),
    (lambda: geo.GeometricMeanPathFunction(Line(V(0.0, 0.0), V(1.0, 0.0)), Line(V(0.0, 0.0), V(1.0, 1.0))), 1),
    (lambda: _surf(), 2),
    (lambda: _surf() + V(1.0, 2.0, 3.0), 2),
    (lambda: _coons_edges(), 2),
    (lambda: geo.RotatedPatch(_surf(), 0.5, "x", V(1.0, 0.0, 2.0)), 2),
    (lambda: geo.RotatedPatch(_surf(), 0.0, "z"), 2),
    (lambda: geo.MirroredPatch(_surf(), "y"), 2),
    (lambda: geo.OffsetPatchFunction(_surf(), lambda x, y, z: V(0.5, 0.0, 0.0)), 2),
    (lambda: geo.CurvedPatch(_surf(), "x", lambda x, y: x, lambda x, y: 1.0), 2),
    (lambda: geo.RevolvedPatch(Bezier(_pts()), 0, 1.0), 2),
    (lambda: geo.SweptPatchfromEdges([Bezier(_pts()), Line(*_pts()[:2])]), 2),
    (lambda: geo.SweptPatch(_section_list()), 2),
    (lambda: geo.CubePatch(0.5, V(1.0, 2.0, 3.0), "top"), 2),
    (lambda: geo.SpherePatch(0.5, V(1.0, 2.0, 3.0), "west"), 2),
]


def run_handed(cfg, ctx):
    """A point an object was evaluated at belongs to the caller."""
    make, arity = HANDED[cfg[1]]
    grid = (0.0, 0.25, 0.5, 1.0)
    at = [(t,) for t in grid] if arity == 1 else [(r, t) for r in grid for t in grid]
    want = [np.array(ref.P(make()(*a)), float) for a in at]
    for i, m in itertools.product(range(len(at)), range(len(CHANGES))):
        x = make()
        p = x(*at[i])
        if CHANGES[m][0] == "normalised" and abs(p) == 0:
            continue
        CHANGES[m][1](p)
        ctx.op()
        for a, w in zip(at, want):
            got = ref.P(x(*a))
            if np.abs(got - w).max() > 1e-12:
                raise Violation(f"{x!r} changed when its point at {at[i]} was {CHANGES[m][0]}: {got}, not {w}, at {a}")


# Options changed by their owner later -------------------------------------------
def _append(opts, k):
    if k == "transformations":
        opts[k].append(("rotate", 40, "x"))
    else:
        opts[k].append(("y", lambda x, y: 0.2 * y, lambda x, y: 0.2))


LISTS = {
    "append": _append,
    "clear": lambda opts, k: opts[k].clear(),
    "reverse": lambda opts, k: (_append(opts, k), opts[k].reverse()),
    "replace": lambda opts, k: opts[k].__setitem__(0, ("rotate", 70, "y") if k == "transformations" else ("y", lambda x, y: y, lambda x, y: 1.0)),
}


def run_lists(cfg, ctx):
    """Lists of options changed after they were given, and given again."""
    _, where, kind, which, how = cfg

    def made(change):
        opts = {k: x for k, x in options().items() if k in ("curvatures", "transformations")}
        c, d = construct(kind, inputs(kind)), construct(kind, inputs(kind))
        v = build.vehicle()
        if where == "vehicle":
            v.add_component(c, **opts)
            if change:
                LISTS[how](opts, which)
            v.add_component(d, **(opts if change else {}))
        else:
            for x in (c, d):
                k = CompositeComponent(stl_resolution=1, verbosity=0)
                k.add_component(x, **(opts if x is c or change else {}))
                if x is c and change:
                    LISTS[how](opts, which)
                v.add_component(k)
        v.generate()
        return fingerprint(v.components[0], None, False)

    want = made(False)
    got = made(True)
    ctx.op(2)
    diff = same(got, want)
    if diff:
        raise Violation(f"a component changed with the list given for its {which}: {diff}")


MOVES = {
    "component": lambda v, o: v.components[0].translate(o),
    "vehicle": lambda v, o: v.transform([("translate", o)]),
    "single": lambda v, o: v.transform(("translate", o)),
    "registered": lambda v, o: (v.add_vehicle_transformations([("translate", o)]), v.generate()),
}


def run_moved(cfg, ctx):
    """A component stays where it was put when the vector is changed later."""
    _, kind, way, ms = cfg

    def made(change):
        v = build.vehicle()
        v.add_component(construct(kind, inputs(kind)))
        v.generate()
        o = V(1.0, -2.0, 0.5)
        MOVES[way](v, o)
        if change == "mesh":
            v.components[0].mesh
        if change:
            for m in ms:
                CHANGES[m][1](o)
        return fingerprint(v.components[0], None, False)

    want = made(False)
    for change in ("yes", "mesh"):
        ctx.op()
        diff = same(made(change), want)
        if diff:
            raise Violation(f"a component moved with the vector it was translated by: {diff}")


# Vectors of arrays -------------------------------------------------------------
def _arr_mul(v):
    v *= 3.0


def _arr_div(v):
    v /= 4.0


ARRAY_OPS = [_arr_mul, _arr_div, lambda v: v.normalize(), _turn]


def run_arrays(cfg, ctx):
    def made():
        x, y, z = np.array([1.0, 2.0]), np.array([[0.5, -1.0], [3.0, 4.0]])[1], np.array([0.25, 0.0])
        v = Vector3(x, y, z)
        return [x, y, z], v

    def coords(v):
        return np.array([np.array(c, float) for c in (v.x, v.y, v.z)])

    ways = [
        lambda xyz, v: v,
        lambda xyz, v: Vector3(v),
        lambda xyz, v: Vector3(*xyz),
        lambda xyz, v: copy.deepcopy(v),
        lambda xyz, v: Vector3.from_coordinates(xyz),
        lambda xyz, v: v + Vector3(0.0, 0.0, 0.0),
        lambda xyz, v: Line(v, v * 2.0)(0),
        lambda xyz, v: Bezier([v])(0.3),
    ]
    for n, way in enumerate(ways):
        xyz, v = made()
        w = way(xyz, v)
        before, want = [np.array(a) for a in xyz], coords(v)
        for o in cfg[1]:
            ARRAY_OPS[o](w)
            ctx.op()
        if any(np.abs(a - b).max() > 0 for a, b in zip(xyz, before)):
            raise Violation(f"arrays given to a vector changed with it (way {n})")
        if w is not v and np.abs(coords(v) - want).max() > 0:
            raise Violation(f"a vector changed with another one (way {n})")


# Vehicles -------------------------------------------------------------------
VEHICLE_OPS = [
    lambda v: v.add_component(build.revolved(1), name="late", ghost=True),
    lambda v: v.add_property("span", 3.0),
    lambda v: v.analyse_after_generating({n: 1.0 for n in [*v._named_components, "late"]}),
    lambda v: v.configure("other", 0),
    lambda v: v.add_vehicle_transformations(("rotate", 20, "x")),
    lambda v: v.generate(),
    lambda v: v.transform([("translate", V(1.0, 0.0, 0.0))]),
    lambda v: (v.generate(), v.analyse({n: 1.0 for n in v._named_components})),
    lambda v: setattr(v, "vehicle_angle_offset", 12.0),
    lambda v: v.components[0].rotate(50, "z"),
]


def run_vehicles(cfg, ctx):
    def state(v):
        return [
            repr(v),
            list(v._named_components),
            dict(v.properties),
            v.volume,
            v.analysis_results,
            v.vehicle_angle_offset,
        ] + [np.array([g for _, g in build.points(c, (0.3,), (0.6,))]) for c in v.components]

    for make in ("new", "copy"):
        v1 = build.vehicle()
        v1.add_component(build.swept(1))
        if make == "new":
            v2 = build.vehicle()
            v2.add_component(build.swept(1))
        v1.generate()
        v2 = copy.deepcopy(v1) if make == "copy" else v2
        v2.generate()
        want = state(v2)
        for i in cfg[1]:
            VEHICLE_OPS[i](v1)
            ctx.op()
        diff = same(state(v2), want)
        if diff:
            raise Violation(f"the other vehicle ({make}) changed: {diff}")
        v3 = Vehicle()
        if v3.components or v3.properties or v3._named_components or repr(v3) != "Parameterised vehicle (no components)":
            raise Violation(f"a new vehicle starts as {v3!r}")
        v2.generate()
        diff = same(state(v2), want)
        if diff:
            raise Violation(f"the other vehicle ({make}) generates differently: {diff}")


# Displaced copies -----------------------------------------------------------
def _coons_edges():
    return CoonsPatch(
        south=Line(V(0.0, 0.0), V(1.0, 0.0)),
        north=Bezier([V(0.0, 1.0), V(0.5, 1.5), V(1.0, 1.0)]),
        west=Line(V(0.0, 0.0), V(0.0, 1.0)),
        east=Line(V(1.0, 0.0), V(1.0, 1.0)),
    )


DISPLACE = dict(
    line=lambda: Line(V(0.0, 1.0, 2.0), V(3.0, -1.0, 0.5)),
    coons=_coons_edges,
    corners=lambda: CoonsPatch(p00=V(0.0, 0.0), p10=V(1.0, 0.0), p11=V(1.0, 1.0, 0.5), p01=V(0.0, 1.0)),
)


def run_displace(cfg, ctx):
    _, what, ops = cfg
    x = DISPLACE[what]()
    ev = (lambda o: np.array([ref.P(o(t)) for t in (0.0, 0.25, 1.0)])) if what == "line" else (
        lambda o: np.array([ref.P(o(r, s)) for r in (0.0, 0.4, 1.0) for s in (0.2, 1.0)])
    )
    base = ev(x)
    d1, d2 = V(1.0, -2.0, 0.5), V(0.0, 0.25, 4.0)
    objs = [(x, np.zeros(3))]
    for o in ops:
        k, off = objs[-1]
        if o == 0:
            objs.append((k + d1, off + ref.P(d1)))
        elif o == 1:
            objs.append((k + d2, off + ref.P(d2)))
        elif o == 2:
            objs.append((objs[0][0] + d1, ref.P(d1)))
        elif o == 3 and what != "line":
            objs.append((k - d2, off - ref.P(d2)))
        elif o == 4:
            objs.append((copy.deepcopy(k), off))
        else:
            continue
        ctx.op()
        for y, want in objs:
            got = ev(y) - base
            if np.abs(got - want).max() > 1e-12:
                raise Violation(f"after {o} a copy displaced by {want.tolist()} lies {got[0].tolist()} off")
        if ref.P(d1).tolist() != [1.0, -2.0, 0.5] or ref.P(d2).tolist() != [0.0, 0.25, 4.0]:
            raise Violation("the displacement vector was changed")
    fresh = ev(DISPLACE[what]())
    if np.abs(fresh - base).max() > 0:
        raise Violation("a new object differs after displacing another one")


# Inputs of constructors ------------------------------------------------------
def _pts():
    return [V(0.0, 0.0), V(1.0, 0.5, 0.2), V(2.0, -0.5), V(3.0, 1.0)]


def _ev(p):
    [p(t) for t in (0.0, 0.3, 1.0)]
    p.length()
    repr(p)
    return p


def _es(s):
    [s(r, t) for r in (0.0, 0.4, 1.0) for t in (0.0, 0.7, 1.0)]
    repr(s)
    return s


def _surf():
    return CoonsPatch(p00=V(0.0, 0.0), p10=V(1.0, 0.0), p11=V(1.0, 1.0, 0.5), p01=V(0.0, 1.0))


def _segs():
    p = _pts()
    return [Line(a, b) for a, b in zip(p, p[1:])]


def _frame():
    return V(1.0, 0.0, 0.0), V(0.0, 1.0, 0.0), V(0.0, 0.0, 1.0), V(1.0, 2.0, 3.0)


CALLS = [
    (lambda: _pts()[:2], lambda i: _ev(Line(*i))),
    (_pts, lambda i: _ev(Bezier(i))),
    (_segs, lambda i: _ev(Polyline(i))),
    (_segs, lambda i: _ev(Polyline(i, closed=True))),
    (_pts, lambda i: _ev(Spline(i))),
    (_pts, lambda i: _ev(Spline(i, closed=True))),
    (lambda: [V(1.0, 0.0), V(0.0, 1.0), V(0.0, 0.0)], lambda i: _ev(Arc(*i))),
    (lambda: [Bezier(_pts())], lambda i: _ev(ArcLengthParameterizedPath(i[0], 50))),
    (lambda: [Bezier(_pts())], lambda i: _ev(geo.SubRangedPath(i[0], 0.2, 0.8))),
    (lambda: [Bezier(_pts())], lambda i: _ev(geo.ReversedPath(i[0]))),
    (lambda: [_surf(), V(1.0, 0.0, 2.0)], lambda i: _es(geo.RotatedPatch(i[0], 0.5, "x", i[1]))),
    (lambda: [_surf()], lambda i: _es(geo.MirroredPatch(i[0], "y"))),
    (lambda: [_surf(), V(0.5, 0.0, 0.0)], lambda i: _es(geo.OffsetPatchFunction(i[0], lambda x, y, z: i[1]))),
    (lambda: [_surf()], lambda i: _es(geo.CurvedPatch(i[0], "x", lambda x, y: x, lambda x, y: 1.0))),
    (lambda: [Bezier(_pts())], lambda i: _es(geo.RevolvedPatch(i[0], 0, 1.0))),
    (lambda: [[Bezier(_pts()), Line(*_pts()[:2])]], lambda i: _es(geo.SweptPatchfromEdges(i[0]))),
    (
        lambda: [[_surf() + V(0.0, 0.0, 3.0), _surf(), _surf() + V(0.0, 0.0, 1.0)]],
        lambda i: _es(geo.SweptPatch(i[0])),
    ),
    (lambda: [V(1.0, 2.0, 3.0)], lambda i: _es(geo.CubePatch(0.5, i[0], "top"))),
    (lambda: [V(1.0, 2.0, 3.0)], lambda i: _es(geo.SpherePatch(0.5, i[0], "west"))),
    (
        lambda: [_surf(), [RobertsFunction(True, False, 1.1), None, None, None]],
        lambda i: StructuredGrid(i[0], 3, 4, i[1]),
    ),
    (lambda: [_surf()], lambda i: surfce_to_stl(i[0], 2, 3)),
    (_frame, lambda i: V(0.1, 0.2, 0.3).transform_to_local_frame(*i)),
    (_frame, lambda i: V(0.1, 0.2, 0.3).transform_to_global_frame(*i)),
    (
        lambda: [Line(V(0.0, 0.0), V(1.0, 0.0)), build.thick(0.1)],
        lambda i: _ev(geo.OffsetPathFunction(i[0], i[1])),
    ),
    (
        lambda: [Line(V(0.0, 0.0), V(1.0, 0.0)), Line(V(0.0, 0.0), V(1.0, 1.0))],
        lambda i: _ev(geo.GeometricMeanPathFunction(*i)),
    ),
    (
        lambda: [Line(V(0.0, 0.0), V(1.0, 0.0)), Line(V(1.0, 0.0), V(1.0, 1.0)), Line(V(0.0, 1.0), V(1.0, 1.0)), Line(V(0.0, 0.0), V(0.0, 1.0))],
        lambda i: _es(CoonsPatch(south=i[0], east=i[1], north=i[2], west=i[3])),
    ),
]


def run_inputs(cfg, ctx):
    make, call = CALLS[cfg[1]]
    for k in range(2):
        i = make()
        before = freeze(i)
        call(i)
        call(i)
        ctx.op(2)
        if freeze(i) != before:
            raise Violation(f"inputs became {freeze(i)}, from {before}")


def run_composite(cfg, ctx):
    """Parts of composites and their copies."""
    for order in (0, 1):
        part = Cube(0.5, V(0.0, 0.0, 0.0), verbosity=0)
        c1 = CompositeComponent(stl_resolution=1, verbosity=0)
        c1.add_component(part, transformations=[("rotate", 10, "x")])
        c2 = copy.deepcopy(c1)
        c2.generate_patches()
        want = np.array([g for _, g in build.points(c2, (0.3,), (0.6,))])
        c1.add_component(Sphere(1.0, V(1.0, 1.0, 1.0), verbosity=0))
        c1.generate_patches()
        c1.rotate(40, "y")
        part.rotate(30, "z")
        ctx.op(4)
        if order:
            c2.generate_patches()
        got = np.array([g for _, g in build.points(c2, (0.3,), (0.6,))])
        if not ref.close(got, want):
            raise Violation("a copy of a composite changed with the original")
        given = dict(i_clustering_func=lambda t: t * t)
        before = dict(given)
        part = Cube(0.5, V(0.0, 0.0, 0.0), verbosity=0)
        c1.add_component(part, clustering=given)
        part.add_clustering_options(j_clustering_func=lambda t: t**3)
        ctx.op(2)
        if given != before:
            raise Violation("the clustering options passed in were changed")
        c3 = CompositeComponent()
        if c3.components or c3.patches:
            raise Violation("a new composite is not empty")
