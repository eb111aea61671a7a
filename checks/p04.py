"""P04: tessellation of a parametric surface."""

import itertools

import numpy as np
from hypervehicle.geometry import (
    Bezier,
    CoonsPatch,
    Line,
    Vector3,
)
from hypervehicle.geometry.geometry import (
    ConePatch,
    CubePatch,
    MirroredPatch,
    OffsetPatchFunction,
    RevolvedPatch,
    SpherePatch,
    SweptPatchfromEdges,
)
from hypervehicle.geometry.path import RobertsFunction
from hypervehicle.utilities import surfce_to_stl

import build
import ref
from mc import Violation

PROPERTY = "P04"
V = Vector3


def _coons():
    return CoonsPatch(
        p00=V(0.0, 0.1, 0.2), p10=V(1.0, 0.0, 0.5), p11=V(1.3, 1.1, 0.0), p01=V(0.1, 0.9, -0.4)
    )


def _bez():
    return CoonsPatch(
        south=Bezier([V(0.0, 0.0, 0.0), V(0.5, -0.4, 0.6), V(1.0, 0.0, 0.2)]),
        north=Line(V(0.0, 1.0, 0.3), V(1.5, 1.2, 0.1)),
        west=Line(V(0.0, 0.0, 0.0), V(0.0, 1.0, 0.3)),
        east=Bezier([V(1.0, 0.0, 0.2), V(1.9, 0.5, 0.8), V(1.5, 1.2, 0.1)]),
    )


SURFACES = {
    "coons": _coons,
    "bezier": _bez,
    "sphere": lambda: SpherePatch(0.7, V(0.2, -0.1, 0.3), "north"),
    "cube": lambda: CubePatch(0.5, V(0.2, -0.1, 0.3), "west"),
    "revolved": lambda: RevolvedPatch(Line(V(0.0, 0.2, 0.1), V(1.0, 0.6, 0.0)), 0.3, 1.9),
    "cone": lambda: ConePatch(0.0, 2.0, 0.2, 0.7, 0.1, 1.2),
    "swept": lambda: SweptPatchfromEdges(
        [Line(V(0.0, 0.0, 0.0), V(0.0, 1.0, 0.0)), Line(V(1.0, 0.2, 0.1), V(1.1, 0.9, 0.3)), Line(V(2.0, 0.1, 0.5), V(2.0, 1.4, 0.1))]
    ),
    "mirrored": lambda: MirroredPatch(_bez(), "z"),
    "offset": lambda: OffsetPatchFunction(_coons(), build.real_offset("o1")),
}

CF = {
    "none": None,
    "sq": lambda t: t * t,
    "rob": RobertsFunction(True, False, 1.1),
    "rob2": RobertsFunction(False, True, 1.05),
}
SP = [1.0, 2.0, 0.5]
LONG = [(9, 1), (17, 2), (33, 1), (40, 3), (65, 1), (130, 1)]

BOUNDS = {
    "quick": "all cell counts up to 6 x 6 on 9 surfaces; all clustering functions, "
    "spacing exponents and mirroring in both directions on 1x1, 1x2, 2x3, 4x2, 3x3 cells; up to 130 cells in one direction",
    "thorough": "all cell counts up to 8 x 8 on 9 surfaces; all option combinations "
    "on all cell counts up to 4 x 4; up to 130 cells in one direction",
}


def configs(tier):
    th = tier == "thorough"
    out = []
    n = 8 if th else 6
    for s in SURFACES:
        for ni, nj in itertools.product(range(1, n + 1), repeat=2):
            for mir in (False, True):
                out.append([s, ni, nj, "none", "none", 1.0, 1.0, mir])
    sizes = list(itertools.product(range(1, 5), repeat=2)) if th else [(1, 1), (1, 2), (2, 3), (4, 2), (3, 3)]
    for s in SURFACES:
        for (ni, nj), ci, cj, si, sj, mir in itertools.product(
            sizes, CF, CF, SP, SP, (False, True)
        ):
            if (ci != "none" and si != 1.0) or (cj != "none" and sj != 1.0):
                continue
            out.append([s, ni, nj, ci, cj, si, sj, mir])
    for s in SURFACES:
        for ni, nj in LONG:
            for ci, si in (("none", 1.0), ("none", 2.0), ("rob", 1.0)):
                for mir in (False, True):
                    out.append([s, ni, nj, ci, "none", si, 1.0, mir])
                    out.append([s, nj, ni, "none", ci, 1.0, si, mir])
    return out


def params(n, cf, sp):
    t = np.linspace(0, 1, n + 1)
    if CF[cf] is not None:
        return [float(CF[cf](x)) for x in t]
    return [float(x) ** sp for x in t]


def run(cfg, ctx):
    s, ni, nj, ci, cj, si, sj, mir = cfg
    surf = SURFACES[s]()
    k = {}
    if ci != "none":
        k["i_clustering_func"] = CF[ci]
    if cj != "none":
        k["j_clustering_func"] = CF[cj]
    if si != 1.0:
        k["si"] = si
    if sj != 1.0:
        k["sj"] = sj
    if mir:
        k["mirror_y"] = True
    m = surfce_to_stl(surf, triangles_per_edge_r=ni, triangles_per_edge_s=nj, **k)
    ctx.op()
    g = ref.sample(surf, params(ni, ci, si), params(nj, cj, sj))
    if mir:
        g = g * np.array([1, -1, 1])
    want = ref.tess(g)
    got = np.asarray(m.vectors, float)
    if len(got) != 4 * ni * nj:
        raise Violation(f"{len(got)} triangles instead of {4 * ni * nj}")
    if not ref.same_triangles(got, want):
        if not ref.same_triangles(got, want[:, ::-1]):
            raise Violation(ref.worst(got, want))
    # same winding: every interior edge is used once in each direction
    odd, unb, used, deg, show = ref.edges(got, 1e-6)
    border = 2 * (ni + nj)
    if deg == 0 and (odd != border or unb != border):
        raise Violation(f"winding: {odd} open, {unb} one-way edges, border {border}")
    ctx.state((s, np.round(got, 4).tolist()[:2], ni, nj, ci, cj, si, sj, mir))
    ctx.outcome("mirrored" if mir else "plain")
    ctx.trace()
