"""P18: fins are built from their inputs."""

import itertools

import numpy as np
from hypervehicle.components import Fin
from hypervehicle.geometry import Vector3

import shapes
from mc import Violation

PROPERTY = "P18"
V = Vector3
BOUNDS = {
    "quick": "every fin of 8 planforms x 5 thicknesses (uneven and tapering ones with 2 placements only) x 4 widths (narrow ones and very thin fins with 2 placements only) x 4 trailing edges x (6 "
    "placements: pivot angle and point, fin angle, offset function); every patch compared "
    "at 3 points",
    "thorough": "as quick with 6 trailing edges and 14 placements of all of them; every patch compared at 5 "
    "points",
}
ASSUMPTIONS = [
    "thickness functions displace in z only and equal half the fin thickness at the root, and at a blunt tip",
    "the planform lies in the plane z = 0",
    "points are compared within 3e-4 (the division of the leading edge is rounded)",
]
FINS = {
    "back": [(0, 0), (0, 1), (2, 1), (3, 0)],
    "trap": [(0, 0), (0.4, 0.8), (1.1, 0.9), (2, 0)],
    "slant": [(0.2, 0), (-0.2, 1.0), (0.9, 1.2), (2.2, 0)],
    "fwd": [(0, 0), (0.5, 1), (2.4, 1), (2, 0)],
    "long": [(-1, 0), (-1.2, 0.4), (-0.9, 0.5), (2, 0)],
    "rect": [(0, 0), (0, 1), (2, 1), (2, 0)],
    "away": [(0.1, 0.3), (0.2, 1.1), (1.2, 1.2), (2, 0.3)],
    "tri": [(0, 0), (0.1, 1.1), (0.1, 1.3), (1.5, 0)],
}
# fin thickness, swelling towards the middle of the span and of the chord above and below,
# fraction lost at the tip
THICK = {
    "thin": (0.1, (0.0, 0.0), (0.0, 0.0), 0.0),
    "bump": (0.15, (0.12, 0.12), (0.0, 0.0), 0.0),
    "wave": (0.16, (0.05, 0.05), (0.04, 0.04), 0.0),
    "uneven": (0.14, (0.1, 0.02), (0.01, 0.06), 0.0),
    "taper": (0.2, (0.03, 0.05), (0.02, 0.0), 0.6),
    "sheet": (0.0004, (0.0, 0.0), (0.0, 0.0), 0.0),
}
WIDTH = {
    "default": shapes.default_width,
    "lin": lambda t: 0.1 - 0.06 * t,
    "quad": lambda t: 0.03 + 0.2 * t * t,
    "thin": lambda t: 0.004 + 0.002 * t,
    "hair": lambda t: 0.0006 + 0.0002 * t,
}
RUDDERS = [("flat", 0.0, 0.0), ("sharp", 0.3, 0.0), ("sharp", 0.4, 0.3), ("sharp", 0.2, -0.5), ("flat", 0.5, 0.2), ("sharp", 1.1, 0.1)]
OFFSETS = {
    None: None,
    "const": lambda x, y, z: (1.0, -2.0, 0.5),
    "place": lambda x, y, z: (0.1 * y, 0.2 - 0.05 * x, 0.3 * x + 0.1 * z),
}
# pivot angle, pivot point, fin angle, offset
PLACES = [
    (0.0, None, 0.0, None),
    (0.2, None, 0.0, "place"),
    (-0.3, (0.5, 0.2, 0.1), 0.0, None),
    (0.4, (1.0, 0.0, -0.3), 0.8, None),
    (0.0, None, -1.3, "const"),
    (-0.5, (0.3, -0.4, 0.2), 2.0, "place"),
    (0.0, (0.5, 0.2, 0.1), 0.0, "place"),
    (0.0, None, np.pi / 2, "place"),
    (0.0, None, np.pi / 4, None),
    (0.1, None, np.pi, "const"),
    (3.0, (-1.0, 0.5, 0.4), -0.1, None),
    (1.5, (0.0, 0.0, 0.5), -np.pi / 2, "place"),
    (-0.1, (2.0, 0.0, 0.0), 0.3, "const"),
    (0.3, (0.0, 1.0, 0.0), 1.0, None),
]
AT = [(0.0, 0.35), (0.45, 0.7), (1.0, 0.9)]
MORE = [(0.8, 0.0), (0.2, 1.0)]


def configs(tier):
    th = tier == "thorough"
    out = []
    for plan, thick, w in itertools.product(FINS, THICK, WIDTH):
        for rud in RUDDERS if th else RUDDERS[:4]:
            for k in range(len(PLACES) if th else 6):
                if THICK[thick][3] and rud[0] == "flat":
                    continue  # a blunt end has the thickness of the root
                if w == "hair" and thick != "sheet":
                    continue
                if thick == "sheet" and (w != "hair" or k not in (0, 5)):
                    continue
                if w == "thin" and k not in (0, 5):
                    continue
                if thick in ("uneven", "taper") and not th and k not in (0, 5):
                    continue
                out.append([plan, thick, w, list(rud), k, th])
    return out


def run(cfg, ctx):
    plan, thick, w, rud, k, th = cfg
    p = [shapes.vec(*q) for q in FINS[plan]]
    v = [V(*[float(x) for x in q]) for q in p]
    t, bump, wave, lost = THICK[thick]
    (x0, y0), (x1, y1), x3 = p[0][:2], p[1][:2], p[3][0]

    def half(x, y, side):
        eta = (y - y0) / (y1 - y0)
        chord = x - x0 - (x1 - x0) * eta
        return t / 2 * (1 - lost * eta) + bump[side] * (y - y0) * (y1 - y) + wave[side] * (x3 - x) * chord

    pivot, point, angle, off = PLACES[k]
    opts = {}
    if w != "default":
        opts["LE_wf"] = WIDTH[w]
    if rud != ["flat", 0.0, 0.0]:
        opts.update(rudder_type=rud[0], rudder_length=rud[1], rudder_angle=rud[2])
    if pivot:
        opts["pivot_angle"] = pivot
    if point is not None:
        opts["pivot_point"] = V(*point)
    if off:
        opts["offset_func"] = lambda x, y, z: V(*OFFSETS[off](x, y, z))
    f = Fin(
        *v,
        fin_thickness=t,
        fin_angle=angle,
        top_thickness_function=lambda x, y, z=0: V(0.0, 0.0, -half(x, y, 0)),
        bot_thickness_function=lambda x, y, z=0: V(0.0, 0.0, half(x, y, 1)),
        verbosity=0,
        **opts,
    )
    f.generate_patches()
    ctx.op(2)
    at = AT + MORE if th else AT
    # an edge perpendicular to the flow leaves the place of the division open
    joints = [None]
    if p[2][0] == p[3][0]:
        joints.append(1)
    if p[2][0] == p[1][0]:
        joints.append(0)
    cosines = [False, True] if rud[0] == "sharp" and rud[2] else [False]
    first = None
    for joint, cosine in itertools.product(joints, cosines):
        want = shapes.fin(
            p, t,
            lambda q: np.array([0, 0, -half(q[0], q[1], 0)]),
            lambda q: np.array([0, 0, half(q[0], q[1], 1)]),
            WIDTH[w], rud, pivot, point or (0, 0, 0), angle, OFFSETS[off], joint, cosine,
        )
        try:
            shapes.match(f.patches, want, at, 3e-4)
            break
        except Violation as e:
            first = first or e
    else:
        raise first
    ctx.state(cfg)
    ctx.outcome(rud[0] + (" divided at the joint" if joint is None else " undivided") + (" cos" if cosine else ""))
    ctx.trace()
