"""P07: closed components mesh watertight at every resolution."""

import itertools

import numpy as np
from hypervehicle.components import (
    CompositeComponent,
    Fin,
    RevolvedComponent,
    SweptComponent,
    Wing,
)
from hypervehicle.components.common import (
    OgiveNose,
    leading_edge_width_function,
    uniform_thickness_function,
)
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Arc, Bezier, Line, Polyline, Vector3
from hypervehicle.geometry.path import Spline

import build
import ref
from mc import Violation

PROPERTY = "P07"
V = Vector3
BOUNDS = {
    "quick": "swept bodies (2-4 sections, lines/arcs/Beziers, integer and per-edge "
    "resolutions), revolved profiles (7), ogive noses, cubes, spheres and composites "
    "at resolutions 1-4 with rigid motions and reflection; 48 elliptic closed wings, 28 "
    "reflected wings and 80 fins at resolutions 1-2",
    "thorough": "as quick with resolutions up to 6, and 972 wings and 540 fins at "
    "resolutions 1-3",
}
ASSUMPTIONS = [
    "points closer than 2e-5 of the body size are the same point (single precision)",
    "wings with a flat leading edge are not closed bodies and are not part of the claim",
]


# Swept --------------------------------------------------------------------
def section(kind, x, sc):
    y0, y1, z0, z1 = 0.2 * sc, 1.0 * sc, -0.3 * sc, 0.5 * sc
    p = [V(x, y0, z0), V(x, y1, z0), V(x, y1, z1), V(x, y0, z1)]
    if kind == "lines":
        e = [Line(a, b) for a, b in zip(p, p[1:] + p[:1])]
    elif kind == "bez":
        e = [
            Bezier([p[0], V(x, 0.6 * sc, -0.6 * sc), p[1]]),
            Line(p[1], p[2]),
            Bezier([p[2], V(x, 0.7 * sc, 0.9 * sc), V(x, 0.4 * sc, 0.8 * sc), p[3]]),
            Line(p[3], p[0]),
        ]
    elif kind == "arcs":
        c = 0.25 * (p[0] + p[1] + p[2] + p[3])
        e = [Arc(a, b, c) for a, b in zip(p, p[1:] + p[:1])]
    elif kind == "skew":
        q = [V(x + 0.2 * i, a.y, a.z + 0.1 * i * i) for i, a in enumerate(p)]
        e = [Line(a, b) for a, b in zip(q, q[1:] + q[:1])]
    return e


def swept(d):
    scales = [1.0, 1.4, 0.7, 1.1]
    secs = [section(d["sec"], 0.9 * i, scales[i]) for i in range(d["n"])]
    res = d["res"]
    if isinstance(res, list):
        s, a, b = res
        res = dict(sweep=s, e0=a, e1=b, e2=a, e3=b)
    return SweptComponent(secs, close_ends=True, stl_resolution=res, verbosity=0)


# Revolved -----------------------------------------------------------------
def profile(name):
    if name == "cone":
        return Polyline([Line(V(0.0, 0.0), V(1.0, 0.5)), Line(V(1.0, 0.5), V(1.0, 0.0))])
    if name == "spindle":
        return Bezier([V(-1.0, 0.0), V(-0.5, 1.0), V(1.0, 0.6), V(2.0, 0.0)])
    if name == "cyl":
        return Polyline(
            [
                Line(V(0.0, 0.0), V(0.0, 0.4)),
                Line(V(0.0, 0.4), V(2.0, 0.4)),
                Line(V(2.0, 0.4), V(2.0, 0.0)),
            ]
        )
    if name == "arc":
        c = V(0.0, 0.0)
        return Polyline([Arc(V(1.0, 0.0), V(0.0, 1.0), c), Arc(V(0.0, 1.0), V(-1.0, 0.0), c)])
    if name == "spline":
        return Spline([V(0.0, 0.0), V(0.5, 0.6), V(1.2, 0.4), V(2.0, 0.0)])
    if name == "line":
        return Polyline([Line(V(0.0, 0.0), V(0.7, 0.3)), Line(V(0.7, 0.3), V(2.0, 0.0))])
    if name == "tilted":
        return Polyline(
            [Line(V(0.0, 0.0, 0.0), V(0.7, 0.2, 0.3)), Line(V(0.7, 0.2, 0.3), V(2.0, 0.0, 0.0))]
        )


PROFILES = ["cone", "spindle", "cyl", "arc", "spline", "line", "tilted"]

# Wings --------------------------------------------------------------------
PLANFORMS = {
    "delta": dict(A0=(0, 0), A1=(1, 0), TT=(3, 0), B0=(0, 1), ctl=[(1, 1), (2, 0.6)]),
    "swept": dict(A0=(-0.5, 0), A1=(0.8, 0), TT=(2, 0), B0=(-0.5, 0.8), ctl=[(0.3, 0.9)]),
    "line": dict(A0=(0, 0), A1=(0.7, 0), TT=(2, 0), B0=(0, 1.2), ctl=[]),
    "lifted": dict(A0=(0, 0.2), A1=(1, 0.2), TT=(2.5, 0.2), B0=(0.3, 1.1), ctl=[(1, 1.1), (2, 0.7)]),
}
THICK = {
    "uni": (lambda: uniform_thickness_function(0.1, "top"), lambda: uniform_thickness_function(0.1, "bot")),
    "asym": (lambda: build.thick(-0.12), lambda: build.thick(0.05)),
    "slope": (lambda: build.thick(-0.2, 0.05), lambda: build.thick(0.05, 0.03)),
}
WIDTH = {
    "default": lambda: None,
    "const": lambda: (lambda t: 0.06),
    "lin": lambda: build.width(0.1, 0.02),
}


def wing(d):
    p = PLANFORMS[d["plan"]]
    v = lambda q: V(float(q[0]), float(q[1]))
    B0, TT = v(p["B0"]), v(p["TT"])
    line = Bezier([B0] + [v(c) for c in p["ctl"]] + [TT])
    top, bot = THICK[d["thick"]]
    k = {}
    if d.get("t"):
        k["t_B1"], k["t_B2"] = d["t"]
    return Wing(
        A0=v(p["A0"]),
        A1=v(p["A1"]),
        TT=TT,
        B0=B0,
        Line_B0TT=line,
        top_tf=top(),
        bot_tf=bot(),
        LE_wf=WIDTH[d["width"]](),
        flap_length=d["flap"][0],
        flap_angle=d["flap"][1],
        close_wing=d["close"],
        stl_resolution=d["res"],
        verbosity=0,
        **k,
    )


FINS = {
    "back": [(0, 0), (0, 1), (2, 1), (3, 0)],
    "trap": [(0, 0), (0.4, 0.8), (1.1, 0.9), (2, 0)],
    "slant": [(0.2, 0.1), (-0.2, 1.0), (0.9, 1.2), (2.2, 0.1)],
    "rect": [(0, 0), (0, 1), (2, 1), (2, 0)],
    "fwd": [(0, 0), (0.5, 1), (2.4, 1), (2, 0)],
}


def fin(d):
    p = [V(float(x), float(y)) for x, y in FINS[d["plan"]]]
    th = d["th"]
    off = None
    if d.get("off"):
        off = lambda x, y, z: V(1.0, -2.0, 0.5)
    return Fin(
        p0=p[0],
        p1=p[1],
        p2=p[2],
        p3=p[3],
        fin_thickness=th,
        fin_angle=d["angle"],
        top_thickness_function=uniform_thickness_function(th, "top"),
        bot_thickness_function=uniform_thickness_function(th, "bot"),
        LE_wf=WIDTH[d["width"]](),
        rudder_type=d["rud"][0],
        rudder_length=d["rud"][1],
        rudder_angle=d["rud"][2],
        pivot_angle=d["pivot"],
        pivot_point=V(0.3, 0.1),
        offset_func=off,
        stl_resolution=d["res"],
        verbosity=0,
    )


def polys(d):
    c = CompositeComponent(stl_resolution=d["res"], verbosity=0)
    for what, size, centre in d["parts"]:
        p = Cube if what == "cube" else Sphere
        c.add_component(p(size, V(*[float(x) for x in centre]), verbosity=0))
    return c


def mixed(d):
    c = CompositeComponent(stl_resolution=d["res"], verbosity=0)
    for sub, k in d["parts"]:
        sub = dict(sub, res=1)
        c.add_component(MAKE[sub["m"]](sub), **k)
    return c


MAKE = dict(
    swept=swept,
    revolved=lambda d: RevolvedComponent(profile(d["prof"]), stl_resolution=d["res"], verbosity=0),
    ogive=lambda d: OgiveNose(*d["dim"], stl_resolution=d["res"], verbosity=0),
    wing=wing,
    fin=fin,
    polys=polys,
    mixed=mixed,
)

MOTIONS = [[], [["rotate", 33, "x"], ["rotate", -70, "z"]], [["translate", 3.0]]]


def configs(tier):
    th = tier == "thorough"
    rmax = 6 if th else 4
    out = []

    def add(d, refl=None, motion=0, refl_tr=None):
        out.append(dict(d=d, refl=refl, motion=motion))

    for res in list(range(1, rmax + 1)) + [list(r) for r in itertools.product((1, 2, 3), repeat=3)]:
        for n in (2, 3, 4):
            for sec in ("lines", "bez", "arcs", "skew"):
                for motion in (0, 1):
                    add(dict(m="swept", n=n, sec=sec, res=res), None, motion)
                for refl in ("x+", "y-"):
                    add(dict(m="swept", n=n, sec=sec, res=res), refl, 2)
    for res in range(1, rmax + 1):
        for prof in PROFILES:
            for refl, motion in [(None, 0), (None, 1), ("z-", 0), ("x+", 2)]:
                add(dict(m="revolved", prof=prof, res=res), refl, motion)
        for dim in ([2.5, 0.75, 7, 6], [0.225, 0.075, 1.5, 0.05]):
            add(dict(m="ogive", dim=dim, res=res), None, 0)
            add(dict(m="ogive", dim=dim, res=res), None, 1)
        for parts in (
            [["cube", 0.5, [0, 0, 0]]],
            [["sphere", 0.8, [0, 0, 0]]],
            [["cube", 0.3, [1, -2, 0.5]], ["sphere", 0.25, [0.2, 0.4, -1]]],
            [["sphere", 2.0, [5, 0, 0]], ["sphere", 0.5, [-1, 0, 0]], ["cube", 1, [0, 4, 0]]],
        ):
            for refl, motion in [(None, 0), (None, 1), ("y+", 0), ("x-", 2)]:
                add(dict(m="polys", parts=parts, res=res), refl, motion)
        add(
            dict(
                m="mixed",
                res=res,
                parts=[
                    [dict(m="swept", n=3, sec="bez"), dict()],
                    [dict(m="revolved", prof="cone"), dict(reflection_axis="x", append_reflection=False)],
                    [dict(m="revolved", prof="arc"), dict(transformations=[["rotate", 20, "y"]])],
                ],
            ),
            None,
            0,
        )
    # closed wings
    rw = (1, 2, 3) if th else (1, 2)
    plans = list(PLANFORMS)
    flaps = [[0.3, 0.0], [0.4, 0.25], [0.2, -0.3], [0.0, 0.0]] if th else [[0.3, 0.0], [0.4, 0.25], [0.2, -0.3]]
    ths = list(THICK)
    for i, (plan, flap, thk) in enumerate(itertools.product(plans, flaps, ths if th else ths[1:])):
        for res in rw:
            for w in list(WIDTH) if th else [list(WIDTH)[i % 3]]:
                for t in (None, [0.3, 0.7]) if th else [None if i % 2 else [0.3, 0.7]]:
                    add(dict(m="wing", plan=plan, flap=flap, thick=thk, width=w, t=t, close=True, res=res), None, i % 3)
    # open wings made whole by reflection about the root plane y = 0
    for i, (plan, flap) in enumerate(itertools.product([p for p in plans if p != "lifted"], flaps)):
        for res in rw:
            for w in list(WIDTH) if th else list(WIDTH)[: 1 + (i + 1) % 2]:
                add(dict(m="wing", plan=plan, flap=flap, thick=ths[i % 3], width=w, t=None, close=False, res=res), "y+", 0)
    # fins
    ruds = [["flat", 0, 0], ["sharp", 0.3, 0.0], ["sharp", 0.3, 0.2], ["sharp", 0.4, -0.3]]
    for i, (plan, rud) in enumerate(itertools.product(FINS, ruds)):
        for res in rw:
            for angle, pivot in ([(0, 0), (0.6, 0.2), (-1.57, 0)] if th else [(0.0, 0.0), (0.6, 0.2)]):
                for w in list(WIDTH) if th else [list(WIDTH)[(i + res) % 3]]:
                    add(dict(m="fin", plan=plan, rud=rud, th=0.1, angle=angle, pivot=pivot, width=w, off=i % 2, res=res), None, 1 if i % 3 == 0 else 0)
    return out


def run(cfg, ctx):
    d = cfg["d"]
    c = MAKE[d["m"]](d)
    v = build.vehicle()
    k = {}
    if cfg["refl"]:
        k = dict(reflection_axis=cfg["refl"][0], append_reflection=cfg["refl"][1] == "+")
    tr = []
    for t in MOTIONS[cfg["motion"]]:
        tr.append(tuple(t) if t[0] == "rotate" else ("translate", V(t[1], 0.5, -1.0)))
    if tr:
        k["transformations"] = tr
    v.add_component(c, **k)
    v.generate()
    ctx.op(2)
    tri = np.asarray(c.mesh.vectors, float)
    ctx.op()
    if not np.all(np.isfinite(tri)):
        raise Violation("mesh has coordinates that are not finite")
    size = float(np.ptp(tri.reshape(-1, 3), axis=0).max())
    odd, unb, used, deg, show = ref.edges(tri, 2e-5 * max(size, 1))
    if used < 4:
        raise Violation(f"only {used} triangles with an area")
    key = None
    if d["m"] == "fin" and d["plan"] == "rect":
        key = "unswept-fin-leading-edge"
    if odd:
        raise Violation(f"{odd} edges with an odd number of triangles, e.g. {show}", key)
    if unb and not cfg["refl"] and d["m"] != "mixed":
        raise Violation(f"{unb} edges with inconsistent winding", key)
    ctx.state((d, cfg["refl"], cfg["motion"], len(tri), deg))
    ctx.outcome(d["m"] + ("" if not cfg["refl"] else " reflected"))
    ctx.trace()
