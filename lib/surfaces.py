"""Named base surfaces of the code under test."""

import numpy as np
from hypervehicle.geometry import Arc, Bezier, CoonsPatch, Line, SweptPatch, Vector3
from hypervehicle.geometry.geometry import (
    ConePatch,
    CubePatch,
    RevolvedPatch,
    SpherePatch,
    SweptPatchfromEdges,
)

V = Vector3


def coons():
    return CoonsPatch(p00=V(0.1, 0.2), p10=V(1.3, 0.0, 0.2), p11=V(1.1, 1.2, -0.3), p01=V(-0.2, 0.9, 0.5))


def curved():
    a, b, c, d = V(0.0, 0.0), V(1.0, 0.0), V(1.2, 1.0, 0.4), V(-0.1, 1.1, 0.2)
    return CoonsPatch(
        south=Arc(a, b, V(0.5, -0.3, 0.6)),
        north=Bezier([d, V(0.5, 1.5, 0.7), c]),
        west=Line(a, d),
        east=Bezier([b, V(1.5, 0.3), V(1.4, 0.7, 0.3), c]),
    )


def swept():
    def sec(z, k):
        return CoonsPatch(p00=V(0.0, 0.0, z), p10=V(k, 0.1, z), p11=V(k, 1.0, z), p01=V(0.2, 1.0 * k, z))

    return SweptPatch([sec(0.0, 1.0), sec(0.5, 1.4), sec(2.0, 0.6)])


def edges():
    return SweptPatchfromEdges(
        [
            Line(V(0.0, 0.0, 0.3), V(0.0, 1.0, 0.1)),
            Bezier([V(0.8, 0.1, 0.0), V(1.0, 0.5, 0.9), V(0.9, 1.0, 0.0)]),
            Line(V(1.6, 0.2, -0.2), V(1.5, 1.4, 0.4)),
        ]
    )


def revolved():
    return RevolvedPatch(Bezier([V(0.0, 0.1, 0.0), V(0.7, 0.8, 0.2), V(1.5, 0.4, 0.1)]), 0.3, 2.2)


def cone():
    return ConePatch(0.2, 1.5, 0.3, 0.9, -0.5, 1.9)


def cube():
    return CubePatch(0.7, V(0.5, -0.4, 0.3), "south")


def sphere():
    return SpherePatch(0.9, V(-0.2, 0.6, 0.4), "top")


BASES = dict(
    coons=coons, curved=curved, swept=swept, edges=edges, revolved=revolved, cone=cone, cube=cube, sphere=sphere
)
ARRAYS = ("coons", "curved", "revolved", "cone", "sphere")  # evaluated for arrays of parameters
