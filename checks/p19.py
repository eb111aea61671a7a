"""P19: patch transformations move every point exactly as specified."""

import itertools

import numpy as np
from hypervehicle.geometry import Vector3
from hypervehicle.geometry.geometry import (
    CurvedPatch,
    MirroredPatch,
    OffsetPatchFunction,
    RotatedPatch,
)

import ref
import surfaces
from mc import Violation

PROPERTY = "P19"
V = Vector3
PT = {"o": None, "p": (1.0, -2.0, 0.5), "q": (-0.3, 0.0, 4.0)}
ANGLES = {"a": 0.4, "b": -2.0, "c": np.pi, "d": np.pi / 2, "i": 1, "s": 1e-6}


def _offsets():
    return {
        "k": lambda x, y, z: (0.5, -1.5, 2.0),
        "l": lambda x, y, z: (0.3 * y, 0.2 * x - 0.1 * z, 0.1 * x + 0.4 * z),
        "t": lambda x, y, z: (2e-6, -1e-6, 3e-6),
        "n": lambda x, y, z: (x * y, z * z, 0.5 * x * z),
    }


OFF = _offsets()
CURVES = {
    "x1": ("x", lambda x, y: 0.2 * x * x, lambda x, y: 0.4 * x),
    "y1": ("y", lambda x, y: 0.3 * y * y - 0.1 * y, lambda x, y: 0.6 * y - 0.1),
    "x2": ("x", lambda x, y: 0.1 * x * y, lambda x, y: 0.1 * y),
    "x3": ("x", lambda x, y: 2e-6 * x * x, lambda x, y: 4e-6 * x),
    "y2": ("y", lambda x, y: -0.4 * x + 0.5 * y, lambda x, y: 0.5),
}
ALPHABET = (
    ["R" + a + g + p for a in "xyz" for g in "abc" for p in "op"]
    + ["M" + a for a in "xyz"]
    + ["O" + k for k in OFF]
    + ["C" + k for k in CURVES]
    + ["Rdefault", "Mdefault", "Rxsp", "Ryso", "Rzsq", "RXdq", "RYdq", "RZiq", "MX", "MY", "MZ"]
)
SMALL = ["Rxap", "Ryap", "Rzbp", "Rycq", "Mx", "My", "Mz", "Ol", "On", "Cx1", "Cy1", "Cx2"]
BOUNDS = {
    "quick": f"all chains of up to 2 of {len(ALPHABET)} transformations on 8 kinds of base "
    "surface and of 3 on 2 kinds, at a 3 x 3 grid of parameters; with arrays of parameters "
    "for chains of up to 2",
    "thorough": f"all chains of up to 3 of {len(ALPHABET)} transformations on 8 kinds of base "
    f"surface, of 4 of {len(SMALL)} on 3 kinds",
}
RS = (0.0, 0.37, 1.0)
SS = (0.0, 0.62, 1.0)


def real(t, surf):
    if t == "Rdefault":
        return RotatedPatch(surf, 0.7)
    if t == "Mdefault":
        return MirroredPatch(surf)
    if t[0] == "R":
        p = PT[t[3]]
        k = {} if p is None else dict(point=V(*p))
        return RotatedPatch(surf, ANGLES[t[2]], axis=t[1], **k)
    if t[0] == "M":
        return MirroredPatch(surf, axis=t[1])
    if t[0] == "O":
        f = OFF[t[1:]]
        return OffsetPatchFunction(surf, lambda x, y, z: V(*f(x, y, z)))
    d, f, g = CURVES[t[1:]]
    return CurvedPatch(surf, d, f, g)


def mapped(t):
    if t == "Rdefault":
        return ref.rot("x", np.rad2deg(0.7))
    if t == "Mdefault":
        return ref.mirror("x")
    if t[0] == "R":
        return ref.rot(t[1].lower(), np.rad2deg(ANGLES[t[2]]), PT[t[3]] or (0, 0, 0))
    if t[0] == "M":
        return ref.mirror(t[1].lower())
    if t[0] == "O":
        return ref.offset(OFF[t[1:]])
    return ref.curve(*CURVES[t[1:]])


def configs(tier):
    th = tier == "thorough"
    out = []
    for b in surfaces.BASES:
        deep = 3 if th or b in ("curved", "revolved") else 2
        out.append([b, [], ""])
        for t in ALPHABET:
            out.append([b, [t], ""])
        for d in range(2, deep + 1):
            for chain in itertools.product(ALPHABET, repeat=d - 1):
                out.append([b, list(chain), "all"])
        if th and b in ("curved", "cone", "cube"):
            for chain in itertools.product(SMALL, repeat=3):
                out.append([b, list(chain), "small"])
    return out


def close(a, b):
    return ref.close(a, b, 1e-9 * (1 + np.abs(b).max()))


_nominal = {}


def run(cfg, ctx):
    b, chain, last = cfg
    surf = surfaces.BASES[b]()
    if b not in _nominal:
        _nominal[b] = ref.sample(surf, RS, SS)
    steps, want = [surf], _nominal[b]
    for t in chain:
        surf = real(t, surf)
        steps.append(surf)
        want = mapped(t)(want)
    ends = [("", surf, want)]
    if last:
        ends = [(t, real(t, surf), None) for t in (ALPHABET if last == "all" else SMALL)]
    for t, s, w in ends:
        w = mapped(t)(want) if w is None else w
        got = ref.sample(s, RS, SS)
        ctx.op(len(chain) + bool(t))
        if not close(got, w):
            raise Violation(f"{b} {chain + [t]}: {ref.worst(got, w)}")
        if len(chain) < 2 and b in surfaces.ARRAYS:
            r, q = np.meshgrid(RS, SS, indexing="ij")
            p = s(r, q)
            a = np.stack([np.broadcast_to(c, r.shape) for c in (p.x, p.y, p.z)], axis=-1)
            if not close(a, w):
                raise Violation(f"{b} {chain + [t]} for arrays: {ref.worst(a, w)}")
        ctx.state((b, chain, t))
        ctx.trace()
    # using the new patches changes none of those below them
    want = _nominal[b]
    for i, s in enumerate(steps):
        if i:
            want = mapped(chain[i - 1])(want)
        got = ref.sample(s, RS[1:], SS[1:])
        if not close(got, want[1:, 1:]):
            raise Violation(f"{b} {chain[:i]} changed: {ref.worst(got, want[1:, 1:])}")
    ctx.outcome(f"{b} depth {len(chain) + bool(last)}")
