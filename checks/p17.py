"""P17: wings are built from their inputs."""

import itertools

import numpy as np
from hypervehicle.components import Wing
from hypervehicle.geometry import Bezier, Line, Polyline, Vector3

import shapes
from mc import Violation

PROPERTY = "P17"
V = Vector3
BOUNDS = {
    "quick": "every wing of 6 planforms x 4 thickness pairs x 4 choices of division points "
    "(none, both, first, second) x (3 width functions elliptic, flat) x 3 flaps x open or "
    "closed; narrow edges and very thin wings with one flap; 36 more with other spellings of the edge types; every patch compared at 4 points",
    "thorough": "as quick with 6 flaps and 7 choices of division points; every patch "
    "compared at 6 points",
}
ASSUMPTIONS = [
    "thickness functions displace in z only and do not depend on z",
    "points are compared within 5e-5 (arc length is tabulated by the code under test)",
]
PLANFORMS = {
    "delta": dict(A0=(0, 0), A1=(1, 0), TT=(3, 0), B0=(0, 1), ctl=[(1, 1), (2, 0.6)]),
    "swept": dict(A0=(-0.5, 0), A1=(0.8, 0), TT=(2, 0), B0=(-0.5, 0.8), ctl=[(0.3, 0.9)]),
    "line": dict(A0=(0, 0), A1=(0.7, 0), TT=(2, 0), B0=(0, 1.2), path="line"),
    "lifted": dict(A0=(0, 0.2), A1=(1, 0.2), TT=(2.5, 0.2), B0=(0.3, 1.1), ctl=[(1, 1.1), (2, 0.7)]),
    "raised": dict(A0=(0, 0, 0.4), A1=(1, 0, 0.4), TT=(2.5, 0, 0.4), B0=(0, 1, 0.4), ctl=[(1, 1, 0.4)]),
    "bent": dict(A0=(0, 0), A1=(0.8, 0), TT=(2, 0), B0=(0.2, 1), mid=[(0.5, 0.95), (1.6, 0.3)], path="poly"),
}
# displacement in z of the top and the bottom surface
THICK = {
    "uni": (lambda x, y: -0.05, lambda x, y: 0.05),
    "asym": (lambda x, y: -0.12, lambda x, y: 0.04),
    "taper": (lambda x, y: -0.2 + 0.05 * x, lambda x, y: 0.05 + 0.03 * x),
    "sheet": (lambda x, y: -0.0004, lambda x, y: 0.0002),
    "span": (lambda x, y: -0.1 + 0.05 * y, lambda x, y: 0.15 - 0.04 * y - 0.01 * x),
}
WIDTH = {
    "default": shapes.default_width,
    "lin": lambda t: 0.1 - 0.08 * t,
    "quad": lambda t: 0.02 + 0.3 * t * t,
    "thin": lambda t: 0.004 + 0.002 * t,
    "hair": lambda t: 0.0006 + 0.0002 * t,
}
FLAPS = [(0.3, 0.0), (0.4, 0.25), (0.2, -0.4), (0.0, 0.0), (0.5, 1.0), (1.5, -0.1)]
DIV = [(None, None), (0.3, 0.7), (0.45, None), (None, 0.9), (0.2, 0.25), (0.6, 0.95), (None, 0.85)]
AT = [(0.0, 0.35), (0.4, 0.7), (1.0, 1.0), (0.8, 0.0)]
MORE = [(0.0, 0.0), (0.55, 0.5)]


def configs(tier):
    th = tier == "thorough"
    out = []
    for plan, thick, div in itertools.product(PLANFORMS, THICK, DIV if th else DIV[:4]):
        for le, flap, close in itertools.product(list(WIDTH) + ["FLAT", "flat"], FLAPS if th else FLAPS[:3], (False, True)):
            if le in ("flat", "thin") and (flap, close) != (FLAPS[0], False):
                continue
            if le == "hair" and thick != "sheet":
                continue
            if thick == "sheet" and (flap, list(div), le) != (FLAPS[0], [None, None], "hair"):
                continue
            out.append([plan, thick, list(div), le, list(flap), close, th, None])
    # the leading edge and its curve named in any case
    for plan, spelt, le in itertools.product(PLANFORMS, ("bezier", "BEZIER", "Bezier"), ("lin", "Flat")):
        out.append([plan, "asym", [None, None], le, list(FLAPS[0]), False, th, spelt])
    return out


def run(cfg, ctx):
    plan, thick, (t1, t2), le, flap, close, th, spelt = cfg
    flat = le.upper() == "FLAT"
    d = PLANFORMS[plan]
    pt = {k: shapes.vec(*d[k]) for k in ("A0", "A1", "TT", "B0")}
    v = {k: V(*[float(x) for x in q]) for k, q in pt.items()}
    if d.get("path") == "line":
        curve, real = shapes.line(pt["B0"], pt["TT"]), Line(v["B0"], v["TT"])
    elif d.get("path") == "poly":
        pts = [pt["B0"]] + [shapes.vec(*q) for q in d["mid"]] + [pt["TT"]]
        curve = shapes.polyline(pts)
        vs = [V(*[float(x) for x in q]) for q in pts]
        real = Polyline([Line(a, b) for a, b in zip(vs, vs[1:])])
    else:
        pts = [pt["B0"]] + [shapes.vec(*q) for q in d["ctl"]] + [pt["TT"]]
        curve = shapes.bezier(pts)
        real = Bezier([V(*[float(x) for x in q]) for q in pts])
    top, bot = THICK[thick]
    rtop = lambda x, y, z=0: V(0.0, 0.0, top(x, y))
    rbot = lambda x, y, z=0: V(0.0, 0.0, bot(x, y))
    k = {}
    if t1 is not None:
        k["t_B1"] = t1
    if t2 is not None:
        k["t_B2"] = t2
    if flat:
        k["LE_type"] = le
    elif le != "default":
        k["LE_wf"] = WIDTH[le]
    if spelt:
        k["Line_B0TT_TYPE"] = spelt
    if close:
        k["close_wing"] = True
    if flap != [0.0, 0.0]:
        k.update(flap_length=flap[0], flap_angle=flap[1])
    w = Wing(
        Line_B0TT=real,
        top_tf=rtop,
        bot_tf=rbot,
        verbosity=0,
        **v,
        **k,
    )
    w.generate_patches()
    ctx.op(2)

    def want(last=None):
        return shapes.wing(
            pt["A0"], pt["A1"], pt["TT"], pt["B0"], curve,
            lambda p: np.array([0, 0, top(p[0], p[1])]),
            lambda p: np.array([0, 0, bot(p[0], p[1])]),
            WIDTH.get(le), t1, t2, flat, flap, close, last,
        )

    at = AT + MORE if th else AT
    try:
        shapes.match(w.patches, want(), at, 5e-5)
    except Violation as e:
        if not flat:
            raise
        shapes.match(w.patches, want("first"), at, 5e-5)
        raise Violation(str(e), "flat-le-last-range")
    finally:
        ctx.state(cfg)
        ctx.outcome(("flat" if flat else "elliptic") + (" closed" if close else " open"))
        ctx.trace()
