"""P01: generated geometry is the ordered composition of the options."""

import itertools

import numpy as np

import build
import model
from mc import Violation

PROPERTY = "P01"
BOUNDS = {
    "quick": "full lattice of modifier x curvature lists x angle offset x reflection "
    "x transformation lists x vehicle transformation lists on two component "
    "types; all transformation lists up to length 2 on both levels; every "
    "option and every pair of options on every component type; all pairs of "
    "options on two components; names, equal names and ghosts; reflections in all "
    "transformation lists up to length 2; small motions in all lists up to length 2",
    "thorough": "as quick with all reflections, longer lists (length 3) and the "
    "lattice on all inexpensive component types",
}

MOD = [None, "o1"]
CURV = [[], ["cx"], ["cy"], ["cx", "cy"], ["cy", "cx"]]
TWICE = [["cx", "cx"], ["cy", "cx", "cy"]]
ANG = [0, 7]
REFL = [None, "y+", "y-", "x+", "z-"]
TR = [[], ["rx"], ["tv"], ["rx", "tv"], ["tv", "rx"]]
VT = [[], ["rz"], ["tf", "rz"]]
ALLT = list(build.TRANSFORMS)

SINGLE = (
    [{}]
    + [{"mod": m} for m in ("o1", "o2")]
    + [{"curv": c} for c in CURV[1:] + TWICE]
    + [{"refl": r} for r in model.REFLECTIONS]
    + [{"trans": [t]} for t in ALLT]
    + [{"trans": ["rx", "tv", "rz"]}]
)


def lists(alphabet, n):
    return [list(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k)]


def one(kind, mod=None, curv=(), ang=0, refl=None, trans=(), vt=(), reg="list"):
    o = dict(mod=mod, curv=list(curv), refl=refl, trans=list(trans))
    return dict(parts=[[kind, o]], ang=ang, vt=list(vt), reg=reg)


def configs(tier):
    th = tier == "thorough"
    out = []
    refl = [None] + list(model.REFLECTIONS) if th else REFL
    for kind in build.CHEAP if th else ["triswept", "revolved"]:
        for m, c, a, r, t, v in itertools.product(MOD, CURV, ANG, refl, TR, VT):
            out.append(one(kind, m, c, a, r, t, v))
    for kind in ["triswept"]:
        for t, v in itertools.product(lists(ALLT, 2), lists(ALLT, 2)):
            out.append(one(kind, trans=t, vt=v))
        if th:
            for t in lists(ALLT, 3):
                out.append(one(kind, trans=t, refl="y+"))
                out.append(one(kind, vt=t, refl="y+"))
    # how vehicle transformations are registered
    for v in lists(ALLT, 2)[1:]:
        for reg in ("calls", "tuples"):
            out.append(one("triswept", vt=v, reg=reg))
            out.append(one("revolved", vt=v, reg=reg, refl="y+", trans=["rx"]))
    for kind in build.COMPONENTS:
        dear = kind in build.DEAR
        for o in SINGLE:
            out.append(dict(parts=[[kind, o]], ang=0, vt=[], reg="list"))
        for a in (7, -30, 2.5, 215):
            out.append(dict(parts=[[kind, {}]], ang=a, vt=[], reg="list"))
        if not dear or th:
            for o, p in itertools.combinations(SINGLE[1:], 2):
                if set(o) & set(p):
                    continue
                for a in (0, 7):
                    out.append(
                        dict(parts=[[kind, {**o, **p}]], ang=a, vt=["tv"], reg="list")
                    )
        else:
            out.append(
                one(kind, "o1", ["cx", "cy"], 7, "y+", ["rx", "tv"], ["tf", "rz"])
            )
            out.append(
                one(kind, "o1", ["cy", "cx"], -7, "y-", ["tv", "rx"], ["rz", "tf"])
            )
    # several components, options must not cross
    for ka, kb in [("triswept", "revolved"), ("revolved", "revolved")]:
        for o, p in itertools.product(SINGLE, SINGLE):
            out.append(dict(parts=[[ka, o], [kb, p]], ang=5, vt=["rz"], reg="list"))
    # names and ghosts do not matter, not even equal names
    for na, nb in itertools.product((None, "a", "b"), repeat=2):
        for ga, gb in itertools.product((False, True), repeat=2):
            for o in ({}, {"refl": "y-", "trans": ["rx"]}, {"mod": "o1", "curv": ["cx"]}):
                for v in ([], ["rz"], ["tv", "rx"]):
                    for reg in ("list", "calls"):
                        out.append(
                            dict(
                                parts=[
                                    ["triswept", {**o, "name": na, "ghost": ga}],
                                    ["revolved", {"trans": ["tv"], "name": nb, "ghost": gb}],
                                ],
                                ang=7 if o else 0,
                                vt=v,
                                reg=reg,
                            )
                        )
    # small motions
    for kind in ["triswept", "revolved"]:
        for t in lists(list(build.FINE) + ["rx", "tv"], 2):
            if any(x in build.FINE for x in t):
                for r in (None, "y+", "y-"):
                    out.append(one(kind, refl=r, trans=t))
                    out.append(one(kind, refl=r, vt=t))
        for a in (1e-3, -2e-3):
            for v in ([], ["rs"], ["ts"]):
                out.append(one(kind, ang=a, vt=v))
    # reflections among the transformations
    some = ["rx", "tv", "mx", "my", "mz"]
    for kind in ["triswept", "revolved"]:
        for r in REFL:
            for t in lists(some, 2):
                if any(x in build.MIRRORS for x in t):
                    out.append(one(kind, refl=r, trans=t))
                    out.append(one(kind, refl=r, vt=t))
                    out.append(one(kind, refl=r, vt=t, trans=["mz", "rd"], ang=7))
    if th:
        for o, p, q in itertools.product(SINGLE[:8], SINGLE[::3], SINGLE[1::4]):
            out.append(
                dict(
                    parts=[["triswept", o], ["composite", p], ["revolved", q]],
                    ang=0,
                    vt=["tv", "rx"],
                    reg="calls",
                )
            )
    return out


def run(cfg, ctx):
    v = build.vehicle()
    if cfg["ang"]:
        v.vehicle_angle_offset = cfg["ang"]
    comps, models = [], []
    for kind, o in cfg["parts"]:
        comps.append(model.add(v, kind, o, name=o.get("name"), ghost=o.get("ghost")))
        models.append(model.Model(kind, o, cfg["ang"]))
        ctx.op()
    vt = [build.real_transform(t) for t in cfg["vt"]]
    if vt:
        if cfg["reg"] == "list":
            v.add_vehicle_transformations(vt)
        elif cfg["reg"] == "calls":
            for t in vt:
                v.add_vehicle_transformations([t])
        else:
            for t in vt:
                v.add_vehicle_transformations(t)
        ctx.op()
    v.generate()
    ctx.op()
    for t in cfg["vt"]:
        for m in models:
            m.transform(t)
    if len(v.components) != len(comps):
        raise Violation("number of components changed")
    for i, (c, m) in enumerate(zip(comps, models)):
        what = f"component {i} ({cfg['parts'][i][0]})"
        dear = m.kind in build.DEAR
        model.check_patches(c, m, what, off=((0.35, 0.6),) if dear else model.OFF)
        n = c.stl_resolution
        if not dear or not cfg["parts"][i][1]:
            model.check_mesh(c, m, n, what)
            ctx.op()
        ctx.state((cfg["parts"][i], cfg["ang"], cfg["vt"]))
        ctx.outcome(f"{len(m.branches)}-branch")
    ctx.trace()
