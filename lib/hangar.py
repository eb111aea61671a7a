"""The generators of the hangar and their parameters."""

import contextlib
import io

import numpy as np
from hypervehicle import hangar
from hypervehicle.geometry import Vector3

import ref

NAMES = [
    "ParametricD21",
    "ParametricFalcon9",
    "ParametricFinner",
    "ParametricHIFiRE4",
    "ParametricHIFiRE8",
    "ParametricHTV",
    "ParametricReFEX",
    "ParametricWaverider",
    "ParametricWedge",
    "ParametricX43",
]
AT = ((0.3, 0.6), (0.85, 0.15))


def parameters(g):
    """Public parameters of a generator instance and what kind they are."""
    out = {}
    for k, v in vars(g).items():
        if k.startswith("_"):
            continue
        if isinstance(v, bool):
            out[k] = "flag"
        elif k.endswith("stl_res"):
            out[k] = "resolution"
        elif isinstance(v, (int, float, np.floating)):
            out[k] = "number"
        elif isinstance(v, Vector3):
            out[k] = "vector"
    return out


def changed(v, rel, axis="x"):
    """A slightly different value of a parameter."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, Vector3):
        return Vector3(**{a: changed(getattr(v, a), rel) if a == axis else getattr(v, a) for a in "xyz"})
    if v == 0:
        return 2 * rel
    return v * (1 + rel)


def make(name, kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        g = getattr(hangar, name)(**kwargs)
        v = g.create_instance()
        v.configure(verbosity=0)
        for c in v.components:
            c.verbosity = 0
        v.generate()
    return g, v


def shape(v, at=AT):
    """{component: (patch names, points, resolution)}"""
    out = {}
    for n, c in v._named_components.items():
        pts = np.array([[ref.P(p(r, s)) for r, s in at] for p in c.patches.values()])
        res = c.stl_resolution
        out[n] = (len(c.patches), pts, dict(res) if isinstance(res, dict) else res)
    return out


def influence(a, b):
    """Names of the components whose points or resolution differ."""
    return sorted(n for n in a if a[n][2] != b[n][2] or np.abs(a[n][1] - b[n][1]).max() > 1e-10)


def motion(a, b):
    """{component: mean and weighted mean displacement of its points} where they differ."""
    out = {}
    for n in a:
        if n not in b or a[n][1].shape != b[n][1].shape:
            continue
        d = (b[n][1] - a[n][1]).reshape(-1, 3)
        if np.abs(d).max() > 1e-10:
            w = (np.arange(len(d)) * 37 % 101 + 1) / 101
            out[n] = np.concatenate([np.abs(d).mean(axis=0), (w[:, None] * d).mean(axis=0)]).round(10).tolist()
    return out
