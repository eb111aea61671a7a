"""P15: a composite component is the union of its parts."""

import itertools

import numpy as np
from hypervehicle.components import CompositeComponent
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Vector3

import build
import model
import ref
from mc import Violation

PROPERTY = "P15"
V = Vector3
BOUNDS = {
    "quick": "all lists of 1-3 parts of 4 types (cube, sphere, swept, revolved), 1-2 parts also "
    "with flat wings and per-edge swept parts, one wing and fin; every part with each of 13 "
    "option sets (one at a time, and all pairs for 2 parts); alternating lists of 4, 5, 7 and 12 parts; 12 operation sequences on the "
    "composite; 6 vehicle options; resolutions 1-3; rejected parts at every position; parts "
    "generated, meshed or moved on their own before adding or between two generations",
    "thorough": "as quick with all 13 option sets on 3 parts, 2 operations in every order, "
    "wings and fins with every option set",
}


def cube(**k):
    return Cube(0.4, V(0.9, 0.6, 0.5), stl_resolution=5, verbosity=0)


def sphere(**k):
    return Sphere(0.3, V(-0.7, 0.8, 0.2), stl_resolution=4, verbosity=0)


PARTS = dict(
    cube=cube,
    sphere=sphere,
    swept=lambda: build.swept(3, sections=2),
    dswept=lambda: build.swept(dict(sweep=3, e0=1, e1=2, e2=1, e3=2), sections=2),
    revolved=lambda: build.revolved(3),
    flatwing=lambda: build.flat_wing(3),
    wing=lambda: build.wing(2, close=False),
    fin=lambda: build.fin(2),
)

OPTS = [
    {},
    {"curv": ["cx"]},
    {"curv": ["cx", "cy"]},
    {"refl": "y+"},
    {"refl": "y-"},
    {"refl": "x-"},
    {"refl": "y"},
    {"trans": ["rx"]},
    {"trans": ["rz", "tv"]},
    {"trans": ["tf", "ry"]},
    {"curv": ["cy"], "refl": "z+"},
    {"refl": "x+", "trans": ["tv", "rd"]},
    {"curv": ["cx"], "refl": "y-", "trans": ["rx", "tf"]},
]

OPS = {
    "rx": lambda c: c.rotate(30, "x"),
    "rd": lambda c: c.rotate(25),
    "tv": lambda c: c.translate(V(0.5, -1.0, 0.25)),
    "tf": lambda c: c.translate(build.real_offset("o2")),
    "fy": lambda c: c.reflect("y"),
    "fx": lambda c: c.reflect("x"),
    "gen": lambda c: c.generate_patches(),
    "mesh": lambda c: c.mesh,
}

# a part used on its own
USES = {
    "gen": lambda p: p.generate_patches(),
    "mesh": lambda p: (p.generate_patches(), p.mesh),
    "move": lambda p: (p.generate_patches(), p.translate(V(2.0, 1.0, 0.0)), p.mesh),
}

VOPTS = [{}, {"refl": "y+"}, {"trans": ["rz"]}, {"mod": "o1"}, {"curv": ["cx"]}, {"refl": "z-", "trans": ["tv", "rx"]}]


def configs(tier):
    th = tier == "thorough"
    cheap = ["cube", "sphere", "swept", "revolved"]
    more = cheap + ["dswept", "flatwing"]
    out = []

    def add(parts, ops=(), vopt=0, res=1, reject=None, prior=None, later=None):
        out.append(dict(parts=parts, ops=list(ops), vopt=vopt, res=res, reject=reject, prior=prior, later=later))

    n = len(OPTS)
    for k in more:
        for o in range(n):
            for res in (1, 2, 3):
                add([[k, o]], res=res)
            for v in range(1, len(VOPTS)):
                add([[k, o]], vopt=v)
            for op in OPS:
                add([[k, o]], ops=[op], res=1 + o % 2)
    for k in ("wing", "fin"):
        for o in range(n) if th else (0, 12):
            add([[k, o]])
            add([[k, 0], ["cube", o]])
            add([[k, o], [k, 0]])
    for a, b in itertools.product(more, repeat=2):
        for oa, ob in itertools.product(range(n), repeat=2) if th else [(0, o) for o in range(n)] + [(o, 0) for o in range(1, n)]:
            add([[a, oa], [b, ob]], res=1 + (oa + ob) % 2)
    for oa, ob in itertools.product(range(n), repeat=2):
        add([["cube", oa], ["swept", ob]])
        add([["revolved", oa], ["revolved", ob]], res=2)
    for ks in itertools.product(cheap, repeat=3):
        for o in range(n) if th else (0, 3, 9, 12):
            for pos in range(3):
                if o == 0 and pos:
                    continue
                add([[k, o if i == pos else 0] for i, k in enumerate(ks)])
    for a, b in itertools.product(cheap, repeat=2):
        for n4 in (4, 5, 7, 12):
            add([[(a, b)[i % 2], (0, 7, 11, 3)[i % 4]] for i in range(n4)])
    for ops in itertools.product(OPS, repeat=2):
        for a, b in (("cube", "sphere"), ("swept", "revolved"), ("sphere", "sphere")) if not th else itertools.product(cheap, repeat=2):
            for v in (0, 1) if not th else range(len(VOPTS)):
                add([[a, 3], [b, 8]], ops=ops, vopt=v)
    for k in more:
        for o in range(n):
            for use in USES:
                add([[k, o]], prior=use)
                add([[k, o], ["cube", 7]], later=use)
                add([["revolved", 8], [k, o]], prior=use, later=use)
    for a, b in itertools.product(cheap, repeat=2):
        for pos in range(3):
            for bad in ("composite", "none"):
                add([[a, 0], [b, 11]], reject=[pos, bad])
    return out


class Bad:
    componenttype = "unknown"
    verbosity = 3
    _reflection_axis = None


def part_grids(kind, opts, rs, ss, _cache={}):
    key = (kind, tuple(rs), tuple(ss))
    if key not in _cache:
        c = PARTS[kind]()
        c.generate_patches()
        _cache[key] = [ref.sample(p, rs, ss) for p in c.patches.values()]
    nom = _cache[key]
    m = model.Model.__new__(model.Model)
    m.opts, m.angle = opts, 0
    m.generate()
    return [ref.compose(b)(g) for b in m.branches for g in nom]


def expected(cfg, rs, ss, branches):
    base = [g for k, o in cfg["parts"] for g in part_grids(k, OPTS[o], rs, ss)]
    return [ref.compose(b)(g) for b in branches for g in base]


def run(cfg, ctx):
    c = CompositeComponent(stl_resolution=cfg["res"], verbosity=0)
    parts = []
    for i, (k, o) in enumerate(cfg["parts"]):
        if cfg["reject"] and cfg["reject"][0] == i:
            reject(c, cfg["reject"][1], len(parts))
            ctx.op()
        p = PARTS[k]()
        if cfg["prior"]:
            USES[cfg["prior"]](p)
        opts = OPTS[o]
        kw = {}
        if opts.get("curv"):
            kw["curvatures"] = [build.CURVES[n] for n in opts["curv"]]
        if opts.get("refl"):
            kw.update(model.reflection(opts["refl"]))
        if opts.get("trans"):
            kw["transformations"] = [build.real_transform(n) for n in opts["trans"]]
        c.add_component(p, **kw)
        parts.append(p)
        ctx.op()
    if cfg["reject"] and cfg["reject"][0] == len(parts):
        reject(c, cfg["reject"][1], len(parts))
        ctx.op()

    v = build.vehicle()
    vo = VOPTS[cfg["vopt"]]
    kw = {}
    if vo.get("mod"):
        kw["modifier_function"] = build.real_offset(vo["mod"])
    if vo.get("curv"):
        kw["curvatures"] = [build.CURVES[n] for n in vo["curv"]]
    if vo.get("refl"):
        kw.update(model.reflection(vo["refl"]))
    if vo.get("trans"):
        kw["transformations"] = [build.real_transform(n) for n in vo["trans"]]
    v.add_component(c, **kw)
    v.generate()
    ctx.op()
    if cfg["later"]:
        for p in parts:
            USES[cfg["later"]](p)
        v.generate()
        ctx.op(2)
    m = model.Model.__new__(model.Model)
    m.opts, m.angle = vo, 0
    m.generate()
    append = not vo.get("refl") or vo["refl"].endswith("+")
    for op in cfg["ops"]:
        OPS[op](c)
        ctx.op()
        if op in ("rx", "rd", "tv", "tf"):
            m.apply(build.map_transform(op))
        elif op in ("fy", "fx"):
            m.reflect(op[1], append)
        elif op == "gen":
            m.branches = [[]]
    rs, ss = (0.3, 0.8), (0.1, 0.6)
    got = [g for _, g in build.points(c, rs, ss)]
    want = expected(cfg, rs, ss, m.branches)
    if len(got) != len(want):
        raise Violation(f"{len(got)} patches instead of {len(want)}")
    at = 0
    for b in m.branches:
        for k, o in cfg["parts"]:
            size = len(part_grids(k, OPTS[o], rs, ss))
            model.match_grids(got[at : at + size], want[at : at + size], f"part {k}")
            at += size
    n = cfg["res"]
    heavy = any(k in ("wing", "fin") for k, _ in cfg["parts"])
    if not heavy and "gen" not in cfg["ops"]:
        tri = np.concatenate([ref.tess(g) for g in expected(cfg, model.lin(n), model.lin(n), m.branches)])
        mesh = np.asarray(c.mesh.vectors, float)
        ctx.op()
        if len(mesh) != len(tri) or not ref.same_triangles(mesh, tri):
            raise Violation(f"mesh: {ref.worst(mesh, tri)}")
    ctx.state((cfg["parts"], len(m.branches), cfg["ops"], cfg["vopt"], n))
    ctx.outcome(f"{len(cfg['parts'])} parts, {len(got)} patches")
    ctx.trace()


def reject(c, what, n):
    bad = CompositeComponent(stl_resolution=7, verbosity=3) if what == "composite" else Bad()
    state = dict(vars(bad))
    try:
        c.add_component(bad, reflection_axis="x", transformations=[("rotate", 10, "x")])
    except Exception:
        pass
    else:
        raise Violation(f"a part of type {bad.componenttype} was accepted")
    if len(c.components) != n:
        raise Violation(f"a rejected part left {len(c.components)} components instead of {n}")
    if dict(vars(bad)) != state:
        raise Violation("a rejected part was modified")
