"""P28: inconsistent definitions and premature requests are refused, others accepted."""

import itertools
import os

import numpy as np
from hypervehicle.components import SweptComponent, Wing
from hypervehicle.geometry import Bezier, CoonsPatch, Line, Vector3
from hypervehicle.geometry.geometry import (
    CubePatch,
    CurvedPatch,
    SpherePatch,
    SweptPatch,
)
from hypervehicle.utilities import SensitivityStudy

import build
import ref
from mc import Violation
from p12 import Merger

PROPERTY = "P28"
V = Vector3
BOUNDS = {
    "quick": "swept bodies: all edge counts of 3-5 per section for 2 and 3 sections, open and "
    "closed; each joint of each section opened in each axis by 5 gaps; all per-edge "
    "resolutions of 1-3 (open and closed); all ordered pairs of 5 thicknesses of elliptic and flat "
    "wings; named options of wings; all sequences of up to 3 of 6 requests on every component type before and after "
    "generating; faces, curvatures and sections that do not exist",
    "thorough": "as quick with 4 sections and sequences of 4 requests",
}
ASSUMPTIONS = ["any exception counts as a refusal"]
GAPS = [1e-13, 1e-9, -1e-6, 1e-3, -0.5]
REQUESTS = ["mesh", "surface", "stl", "transform", "vstl", "generate"]


def configs(tier):
    th = tier == "thorough"
    out = []
    for n in (2, 3) + ((4,) if th else ()):
        for counts in itertools.product((3, 4, 5), repeat=n):
            for close in (False, True):
                out.append(["counts", list(counts), close])
        for ne, close in ((3, False), (4, False), (4, True)):
            for sec, joint, ax in itertools.product(range(n), range(ne), range(3)):
                out.append(["gap", n, ne, close, sec, joint, ax])
    for s, *e in itertools.product((1, 2), *[(1, 2, 3)] * 4):
        out.append(["res", s, e])
    for top, bot in itertools.product((-0.2, -0.1, 0.0, 0.1, 0.2), repeat=2):
        if top > bot:
            continue  # inside out
        for flat in (False, True):
            out.append(["wing", top, bot, flat])
    for kind in build.COMPONENTS:
        for k in range(1, 5 if th else 4):
            for seq in itertools.product(REQUESTS, repeat=k):
                if kind in build.DEAR and (k > 1 and seq.count("generate") != 1 or k > 2):
                    continue
                out.append(["early", kind, list(seq)])
    for line in ("Bezier", "bezier", "BEZIER", "spline", "line", ""):
        for tail in ("FLAP", "NONE", "blunt", ""):
            for le in ("custom", "FLAT"):
                out.append(["option", line, tail, le])
    for n in (1, 2):
        for names in ([], ["a"], ["a", "b"]):
            out.append(["merge", n, names])
    out += [["faces"], ["curves"], ["sections"], ["study"]]
    return out


def loop(n, x, gap=None):
    """Closed loop of n lines; gap: (joint, axis, size) moves the end of one line."""
    pts = []
    for i in range(n):
        a = 0.4 + 2 * np.pi * i / n
        pts.append(np.array([x, np.cos(a), (1 + 0.1 * x) * np.sin(a)]))
    out = []
    for i in range(n):
        p, q = pts[i].copy(), pts[(i + 1) % n].copy()
        if gap and gap[0] == i:
            q[gap[1]] += gap[2]
        out.append(Line(V(*p.tolist()), V(*q.tolist())))
    return out


def refused(f):
    try:
        return None, f()
    except Exception as e:
        return e, None


def swept(secs, close, res, ok, sizes, what):
    before = [list(s) for s in secs]
    err, c = refused(lambda: SweptComponent(secs, close_ends=close, stl_resolution=res, verbosity=0))
    if [list(map(id, s)) for s in secs] != [list(map(id, s)) for s in before]:
        raise Violation(f"{what}: the cross sections were changed")
    if ok and err is not None:
        raise Violation(f"{what}: refused: {err}")
    if not ok:
        if err is None:
            raise Violation(f"{what}: accepted")
        return
    c.generate_patches()
    n = len(c.mesh.vectors)
    if n != 4 * sum(a * b for a, b in sizes):
        raise Violation(f"{what}: {n} triangles")


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(cfg[0])
    ctx.trace()


def run_counts(cfg, ctx):
    _, counts, close = cfg
    secs = [loop(n, float(i)) for i, n in enumerate(counts)]
    ok = len(set(counts)) == 1 and (not close or counts[0] == 4)
    ctx.op()
    swept(secs, close, 1, ok, [(1, 1)] * (counts[0] + 2 * close), f"sections of {counts} edges")


def run_gap(cfg, ctx):
    _, n, ne, close, sec, joint, ax = cfg
    for g in GAPS:
        secs = [loop(ne, float(i), (joint, ax, g) if i == sec else None) for i in range(n)]
        ctx.op()
        swept(secs, close, 1, abs(g) < 1e-12, [(1, 1)] * (ne + 2 * close), f"gap of {g}")


def run_res(cfg, ctx):
    _, s, e = cfg
    res = dict(sweep=s, e0=e[0], e1=e[1], e2=e[2], e3=e[3])
    for close in (False, True):
        ok = not close or (e[0] == e[2] and e[1] == e[3])
        sizes = [(s, k) for k in e] + ([(e[0], e[1])] * 2 if close else [])
        given = dict(res)
        ctx.op()
        swept([loop(4, 0.0), loop(4, 1.0)], close, given, ok, sizes, f"resolutions {res}")
        if given != res:
            raise Violation("the resolutions were changed")


def run_wing(cfg, ctx):
    _, top, bot, flat = cfg
    B0, TT = V(0.0, 1.0), V(3.0, 0.0)
    k = dict(LE_type="FLAT") if flat else dict(LE_wf=build.width())
    w = Wing(
        A0=V(0.0, 0.0), A1=V(1.0, 0.0), TT=TT, B0=B0, Line_B0TT=Bezier([B0, V(1.0, 1.0), V(2.0, 0.6), TT]),
        top_tf=build.thick(top), bot_tf=build.thick(bot), flap_length=0.3, stl_resolution=1, verbosity=0, **k,
    )
    ctx.op()
    err, _ = refused(w.generate_patches)
    if top == bot and not flat:
        if err is None:
            raise Violation("an elliptic leading edge without thickness was accepted")
    elif err is not None:
        raise Violation(f"thicknesses {top} and {bot}: {err}")


def run_option(cfg, ctx):
    """Named options of a wing."""
    _, line, tail, le = cfg
    B0, TT = V(0.0, 1.0), V(3.0, 0.0)
    ctx.op()

    def make():
        w = Wing(
            A0=V(0.0, 0.0), A1=V(1.0, 0.0), TT=TT, B0=B0, Line_B0TT=Bezier([B0, V(1.0, 1.0), V(2.0, 0.6), TT]),
            top_tf=build.thick(-0.1), bot_tf=build.thick(0.1), flap_length=0.3, verbosity=0,
            Line_B0TT_TYPE=line, tail_option=tail, LE_type=le,
        )
        w.generate_patches()

    err, _ = refused(make)
    if (line.lower() == "bezier" and tail == "FLAP") != (err is None):
        raise Violation(f"leading edge line {line!r} and tail option {tail!r}: {err}")


def run_merge(cfg, ctx):
    """Merging selected components does not exist."""
    _, n, names = cfg
    v = build.vehicle()
    for name in ("a", "b")[:n]:
        v.add_component(build.tri_swept(), name=name)
    v.generate()
    with ctx.scratch(), Merger() as m:
        ctx.op(2)
        err, _ = refused(lambda: v.to_stl(merge=names))
        if bool(names) != (err is not None):
            raise Violation(f"merging {names}: {err}")
        if m.saved:
            raise Violation(f"merging {names} made {m.saved[0][0]}")


def run_early(cfg, ctx):
    """Requests before generating are refused without effect."""
    _, kind, seq = cfg
    c = build.COMPONENTS[kind](res=1)
    v = build.vehicle()
    v.add_component(c, name="part")
    d = build.COMPONENTS[kind](res=1)
    w = build.vehicle()
    w.add_component(d, name="part")
    w.generate()
    nominal = np.asarray(d.mesh.vectors, float)
    made, turns = False, 0
    with ctx.scratch():
        for q in seq:
            files = set(os.listdir("."))
            if q == "generate":
                v.generate()
                made, turns = True, 0
                continue
            f = {
                "mesh": lambda: c.mesh,
                "surface": lambda: c.surface(),
                "stl": lambda: c.to_stl("one.stl"),
                "transform": lambda: v.transform([("rotate", 90, "z")]),
                "vstl": lambda: v.to_stl(prefix="all"),
            }[q]
            ctx.op()
            err, _ = refused(f)
            if made:
                if err is not None:
                    raise Violation(f"{q} after generating: {err!r}")
                turns += q == "transform"
                want = {"stl": "one.stl", "vstl": "all-part.stl"}.get(q)
                if want and not os.path.isfile(want):
                    raise Violation(f"{q} did not write {want}")
            else:
                if err is None:
                    raise Violation(f"{q} before generating did not raise")
                if set(os.listdir(".")) != files:
                    raise Violation(f"{q} before generating wrote files")
        if not made:
            v.generate()
    want = nominal
    for _ in range(turns):
        want = ref.rot("z", 90)(want)
    got = np.asarray(c.mesh.vectors, float)
    if not ref.close(got, want):
        raise Violation(f"after {seq}: {ref.worst(got, want)}")


def run_faces(cfg, ctx):
    for cls in (CubePatch, SpherePatch):
        for face in ("north", "south", "east", "west", "top", "bottom", "up", "", "x", "North!", None, 3):
            ctx.op()
            err, _ = refused(lambda: cls(1.0, V(0.0, 0.0, 0.0), face)(0.25, 0.5))
            ok = face in ("north", "south", "east", "west", "top", "bottom")
            if ok != (err is None):
                raise Violation(f"{cls.__name__} of face {face!r}: {err}")


def run_curves(cfg, ctx):
    q = CoonsPatch(p00=V(0.0, 0.0), p10=V(1.0, 0.0), p11=V(1.0, 1.0), p01=V(0.0, 1.0))
    fun, dash = (lambda x, y: x), (lambda x, y: 1.0)
    for a, b in itertools.product((None, fun), (None, dash)):
        for d in ("x", "y"):
            ctx.op()
            err, _ = refused(lambda: CurvedPatch(q, d, a, b)(0.5, 0.5))
            if (a is None or b is None) != (err is not None):
                raise Violation(f"curvature with fun {a} and fun_dash {b}: {err}")


def run_sections(cfg, ctx):
    def section(x):
        return CoonsPatch(p00=V(0.0, 0.0, x), p10=V(1.0, 0.0, x), p11=V(1.0, 1.0, x), p01=V(0.0, 1.0, x))

    for n in (1, 2, 3):
        for at in itertools.product((0.0, 1.0, 2.5), repeat=n):
            ctx.op()
            err, _ = refused(lambda: SweptPatch([section(x) for x in at], sweep_axis="z")(0.5, 0.5))
            if (len(set(at)) == 1) != (err is not None):
                raise Violation(f"sections at {at}: {err}")


def run_study(cfg, ctx):
    s = SensitivityStudy(lambda **k: None, verbosity=0)
    with ctx.scratch():
        for k in ({}, dict(outdir="out")):
            ctx.op()
            err, _ = refused(lambda: s.to_csv(**k))
            if err is None:
                raise Violation("sensitivities written before they were made")
            if any(os.path.isfile(os.path.join(d, f)) for d, _, fs in os.walk(".") for f in fs):
                raise Violation("files written before there are sensitivities")
