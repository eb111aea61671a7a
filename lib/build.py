"""Builders of real objects and the point maps the model uses for them."""

import numpy as np
from hypervehicle import Vehicle
from hypervehicle.components import (
    CompositeComponent,
    Fin,
    RevolvedComponent,
    SweptComponent,
    Wing,
)
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Bezier, Line, Polyline, Vector3

import ref

V = Vector3


def quad(pts):
    """Closed loop of lines through points."""
    pts = [V(*[float(c) for c in p]) for p in pts]
    return [Line(p, q) for p, q in zip(pts, pts[1:] + pts[:1])]


def box_section(x, y0, y1, z0, z1):
    return quad([(x, y0, z0), (x, y1, z0), (x, y1, z1), (x, y0, z1)])


def swept(res=1, sections=3, close=True, **k):
    cs = [
        box_section(0.0, 0.2, 1.0, 0.1, 0.7),
        box_section(1.0, 0.1, 1.3, 0.0, 0.9),
        box_section(2.5, 0.4, 0.9, 0.2, 0.6),
    ][:sections]
    return SweptComponent(cs, close_ends=close, stl_resolution=res, verbosity=0, **k)


def tri_swept(res=1, **k):
    cs = [
        quad([(0, 0.1, 0.1), (0, 1.0, 0.2), (0, 0.4, 0.9)]),
        quad([(2, 0.2, 0.0), (2, 1.2, 0.3), (2, 0.3, 1.1)]),
    ]
    return SweptComponent(cs, close_ends=False, stl_resolution=res, verbosity=0, **k)


def revolved(res=2, **k):
    line = Polyline([Line(V(2.0, 0.0), V(0.8, 0.5)), Line(V(0.8, 0.5), V(-0.4, 0.3))])
    return RevolvedComponent(line, stl_resolution=res, verbosity=0, **k)


def composite(res=1, **k):
    c = CompositeComponent(stl_resolution=res, verbosity=0, **k)
    c.add_component(Cube(0.4, V(0.9, 0.6, 0.5), verbosity=0))
    c.add_component(Sphere(0.3, V(-0.7, 0.8, 0.2), verbosity=0))
    return c


def cube(res=1, a=0.5, centre=(0.3, 0.2, 0.1), **k):
    c = CompositeComponent(stl_resolution=res, verbosity=0, **k)
    c.add_component(Cube(a, V(*centre), verbosity=0))
    return c


def tf(z):
    """Thickness function."""
    return lambda x, y, z_=0, z=z, **kw: V(0.0, 0.0, z)


def thick(dz, slope=0.0):
    def f(x, y, z=0):
        return V(0.0, 0.0, dz + slope * x)

    return f


def width(w0=0.05, w1=0.08):
    def f(t):
        return w0 + (w1 - w0) * t

    return f


def wing(res=1, le="custom", close=True, flap=(0.3, 0.2), top=-0.1, bot=0.07, **k):
    B0, TT = V(0.0, 1.0), V(3.0, 0.0)
    return Wing(
        A0=V(0.0, 0.0),
        A1=V(1.0, 0.0),
        TT=TT,
        B0=B0,
        Line_B0TT=Bezier([B0, V(1.0, 1.0), V(2.0, 0.6), TT]),
        top_tf=thick(top),
        bot_tf=thick(bot),
        LE_wf=width(),
        LE_type=le,
        flap_length=flap[0],
        flap_angle=flap[1],
        close_wing=close,
        stl_resolution=res,
        verbosity=0,
        **k,
    )


def flat_wing(res=1, **k):
    return wing(res, le="FLAT", close=False, **k)


def fin(res=1, rudder="flat", **k):
    a = dict(
        p0=V(0.0, 0.0),
        p1=V(0.2, 1.0),
        p2=V(1.0, 1.1),
        p3=V(2.0, 0.0),
        fin_thickness=0.2,
        fin_angle=0.5,
        top_thickness_function=thick(-0.1),
        bot_thickness_function=thick(0.1),
        LE_wf=width(),
        rudder_type=rudder,
        rudder_length=0.4 if rudder == "sharp" else 0,
        rudder_angle=0.1 if rudder == "sharp" else 0,
    )
    a.update(k)
    return Fin(stl_resolution=res, verbosity=0, **a)


def sharp_fin(res=1, **k):
    return fin(res, rudder="sharp", **k)


COMPONENTS = dict(
    swept=swept,
    triswept=tri_swept,
    revolved=revolved,
    composite=composite,
    flatwing=flat_wing,
    wing=wing,
    fin=fin,
    sharpfin=sharp_fin,
)
CHEAP = ["swept", "triswept", "revolved", "composite", "flatwing"]
DEAR = ["wing", "fin", "sharpfin"]


# Named functions: the real argument and the model's map --------------------
def _off1(x, y, z):
    return (0.1 * y, 0.05 + 0.2 * x, 0.3 * x * y)


def _off2(x, y, z):
    return (0.2 * z, -0.1, 0.1 * x)


OFFSETS = dict(o1=_off1, o2=_off2, small=lambda x, y, z: (1e-5 * y, 2e-5, -1e-5 * x))


def real_offset(name):
    f = OFFSETS[name]
    return lambda x, y, z: V(*f(x, y, z))


CURVES = dict(
    cx=("x", lambda x, y: 0.1 * x * x, lambda x, y: 0.2 * x),
    cy=("y", lambda x, y: -0.2 * y * y + 0.1 * y, lambda x, y: -0.4 * y + 0.1),
)

TRANSFORMS = dict(
    rx=("rotate", 30, "x"),
    ry=("rotate", -230.5, "y"),
    rz=("rotate", 90, "z"),
    rd=("rotate", 25),
    tv=("translate", (0.5, -1.0, 0.25)),
    tf=("translate", "o2"),
)


FINE = dict(  # motions that are small, but not none
    rs=("rotate", 1e-3, "x"),
    rt=("rotate", -2e-3, "z"),
    ts=("translate", (2e-5, -1e-5, 3e-5)),
    tt=("translate", "small"),
)
MOTIONS = {**TRANSFORMS, **FINE}
MIRRORS = dict(mx="x", my="y", mz="z")  # reflections used as transformations


def real_transform(name):
    if name in MIRRORS:
        return ("reflect", MIRRORS[name])
    t = MOTIONS[name]
    if t[0] == "translate":
        return ("translate", real_offset(t[1]) if isinstance(t[1], str) else V(*t[1]))
    return t


def map_transform(name):
    t = MOTIONS[name]
    if t[0] == "rotate":
        return ref.rot(t[2] if len(t) > 2 else "y", t[1])
    if isinstance(t[1], str):
        return ref.offset(OFFSETS[t[1]])
    o = np.array(t[1])
    return lambda p: np.asarray(p) + o


def vehicle(verbosity=0, name=None):
    v = Vehicle()
    v.configure(name=name, verbosity=verbosity)
    return v


def nominal(kind, rs, ss, _cache={}, **k):
    """Points of the patches of a component generated on its own."""
    key = (kind, tuple(rs), tuple(ss), tuple(sorted(k.items())))
    if key not in _cache:
        c = COMPONENTS[kind](**k)
        c.generate_patches()
        _cache[key] = [(n, ref.sample(p, rs, ss)) for n, p in c.patches.items()]
    return _cache[key]


def points(component, rs, ss):
    return [(n, ref.sample(p, rs, ss)) for n, p in component.patches.items()]
