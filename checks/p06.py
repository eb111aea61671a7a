"""P06: resolution and clustering reach the right patch and direction."""

import itertools

import numpy as np

import build
import ref
from hypervehicle.components import CompositeComponent, SweptComponent
from hypervehicle.components.common import OgiveNose
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Vector3
from hypervehicle.geometry.path import RobertsFunction
from mc import Violation
from stl import mesh as stlmesh

PROPERTY = "P06"
CF = {
    "sq": lambda t: t * t,
    "rob": RobertsFunction(True, False, 1.2),
    "cub": lambda t: 1 - (1 - t) ** 3,
}
BOUNDS = {
    "quick": "resolutions 1-4 given at construction or to surface() on every component "
    "type; every per-edge assignment of 1-3 on swept bodies (open, closed, "
    "3, 4 and 5 edges, 2-3 sections) with and without reflection and mesh "
    "clustering; every way of giving i and j clustering at two places on "
    "every component type, before generating or after meshing; every component type, cubes, spheres and ogive noses on their own at "
    "resolutions 1-3 and 6 of up to 101; resolutions of 4 NumPy integer types; 4 per-edge assignments of up to 130; clustering of either part of a composite",
    "thorough": "as quick with resolutions up to 6 and assignments of 1-4",
}
NUMPY = [np.int64, np.int32, np.int16, np.intp]
KINDS = list(build.COMPONENTS)
OPTS = [None, "y+", "y-"]


V0 = Vector3(0.3, 0.2, 0.1)
SOLO = dict(build.COMPONENTS)
SOLO["cube"] = lambda res: Cube(0.5, V0, stl_resolution=res, verbosity=0)
SOLO["sphere"] = lambda res: Sphere(0.5, V0, stl_resolution=res, verbosity=0)
SOLO["ogive"] = lambda res: OgiveNose(1.0, 0.2, 3.0, 1.0, stl_resolution=res, verbosity=0)


def configs(tier):
    th = tier == "thorough"
    out = []
    # integer resolutions
    for kind in KINDS:
        dear = kind in build.DEAR
        nmax = (3 if dear else 6) if th else (2 if dear else 4)
        for n in range(1, nmax + 1):
            for over in [None] + list(range(1, nmax + 1)):
                for refl in [None] if dear else OPTS:
                    if dear and over not in (None, 1, 3):
                        continue
                    out.append(dict(t="int", kind=kind, n=n, over=over, refl=refl))
    # per-edge resolutions
    top = 4 if th else 3
    vals = range(1, top + 1)
    for sec in (2, 3):
        for refl in OPTS:
            for clus in (None, ["sq", "rob"]):
                if clus and refl == "y-":
                    continue
                for s, a, b in itertools.product(vals, repeat=3):
                    out.append(
                        dict(t="dict", ne=4, sec=sec, close=True, sweep=s, e=[a, b, a, b], refl=refl, clus=clus)
                    )
                for s, *e in itertools.product(vals, repeat=4):
                    if sec == 3 and not th and s == 2:
                        continue
                    out.append(
                        dict(t="dict", ne=3, sec=sec, close=False, sweep=s, e=e, refl=refl, clus=clus)
                    )
    for s, *e in itertools.product((1, 3), repeat=6):
        out.append(dict(t="dict", ne=5, sec=2, close=False, sweep=s, e=e, refl=None, clus=None))
    for s, *e in itertools.product((1, 2, 3) if th else (1, 2), repeat=5):
        out.append(dict(t="dict", ne=4, sec=2, close=False, sweep=s, e=e, refl=None, clus=None))
    for over in (1, 2, 3):
        for refl in OPTS:
            out.append(dict(t="dict", ne=4, sec=2, close=True, sweep=3, e=[1, 2, 1, 2], refl=refl, clus=None, over=over))
    # clustering given at two places
    first = [None, {"i": "sq"}, {"j": "rob"}, {"i": "sq", "j": "rob"}]
    second = [None, {"i": "cub"}, {"j": "cub"}, {"i": "rob", "j": "cub"}]
    for kind in KINDS:
        dear = kind in build.DEAR
        for a, b in itertools.product(first, second):
            for refl in [None] if dear else OPTS:
                for n in [2] if dear else [2, 3]:
                    for when in ("before", "after", "surfaced", "meshed"):
                        if when != "before" and (dear or b is None):
                            continue
                        out.append(dict(t="clus", kind=kind, n=n, a=a, b=b, refl=refl, when=when))
    # components on their own, never added to a vehicle
    for kind in SOLO:
        for n in range(1, 4 if kind not in build.DEAR else 3):
            out.append(dict(t="solo", kind=kind, n=n))
    # NumPy integers
    for kind in SOLO:
        for i in range(len(NUMPY)):
            out.append(dict(t="solo", kind=kind, n=1 + i % 2, numpy=i))
    for i in range(len(NUMPY)):
        for over in (None, 1, 3):
            for kind in ("swept", "revolved"):
                out.append(dict(t="int", kind=kind, n=2, over=over, refl="y+", numpy=i))
    # fine meshes
    for kind, n in (("cube", 12), ("cube", 33), ("cube", 101), ("swept", 25), ("swept", 64), ("revolved", 50)):
        out.append(dict(t="solo", kind=kind, n=n))
    for s, a, b in ((70, 1, 90), (1, 40, 130), (128, 55, 2), (11, 21, 31)):
        out.append(dict(t="dict", ne=4, sec=2, close=True, sweep=s, e=[a, b, a, b], refl=None, clus=None))
    # clustering given for a part of a composite
    for a in first[1:]:
        for pos in (0, 1):
            for kind in ("cube", "swept"):
                out.append(dict(t="part", kind=kind, a=a, pos=pos))
    # options of one component do not reach another
    for a, b in itertools.product(first, second):
        out.append(dict(t="two", a=a, b=b))
    return out


def cl(d):
    return {f"{k}_clustering_func": CF[f] for k, f in (d or {}).items()}


def pvals(n, f):
    t = np.linspace(0, 1, n + 1)
    return [float(CF[f](x)) for x in t] if f else [float(x) for x in t]


def check(c, want, clus, what):
    """want: {patch key: (ni, nj)} in patch order."""
    m = c.mesh
    keys = list(c.patches)
    tri = []
    if list(want) != keys:
        raise Violation(f"{what}: patches {keys} instead of {list(want)}")
    total = sum(4 * a * b for a, b in want.values())
    got = np.asarray(m.vectors, float)
    if len(got) != total:
        per = {k: len(s.vectors) for k, s in c.surfaces.items()}
        raise Violation(f"{what}: {len(got)} triangles instead of {total}: {per}, want {want}")
    pos = 0
    for k in keys:
        ni, nj = want[k]
        g = ref.sample(c.patches[k], pvals(ni, clus.get("i")), pvals(nj, clus.get("j")))
        w = ref.tess(g)
        s = got[pos : pos + len(w)]
        pos += len(w)
        if not ref.close(s, w):
            # another order of patches is another matter, look it up by name
            s = np.asarray(c.surfaces[k].vectors, float)
            if not ref.same_triangles(s, w):
                raise Violation(f"{what}: patch {k} with {ni}x{nj}: {ref.worst(s, w)}")


def refl_args(r):
    return {} if r is None else dict(reflection_axis=r[0], append_reflection=r[1] == "+")


def polygon(ne, x, sc):
    pts = []
    for i in range(ne):
        a = 0.3 + 2 * np.pi * i / ne
        pts.append((x, 2 + sc * np.cos(a) * (1 + 0.1 * i), 1 + sc * np.sin(a)))
    return build.quad(pts)


def expand(base, refl):
    """Patch sizes of originals and reflections, by position."""
    if refl is None:
        return base
    if refl[1] == "+":
        return base + base
    return base


def run(cfg, ctx):
    v = build.vehicle()
    t = cfg["t"]
    number = NUMPY[cfg["numpy"]] if "numpy" in cfg else int
    if t == "int":
        c = build.COMPONENTS[cfg["kind"]](res=number(cfg["n"]))
        v.add_component(c, **refl_args(cfg["refl"]))
        v.generate()
        n = cfg["n"]
        check_now = [(n, "mesh")]
        if cfg["over"] is not None:
            c.surface(number(cfg["over"]))
            n = cfg["over"]
        check(c, {k: (n, n) for k in c.patches}, {}, f"resolution {n}")
        ctx.op(2)
    elif t == "dict":
        res = {f"e{i}": n for i, n in enumerate(cfg["e"])}
        res["sweep"] = cfg["sweep"]
        secs = [polygon(cfg["ne"], 1.0 * i, 1 - 0.2 * i) for i in range(cfg["sec"])]
        c = SweptComponent(secs, close_ends=cfg["close"], stl_resolution=res, verbosity=0)
        k = dict(refl_args(cfg["refl"]))
        clus = {}
        if cfg["clus"]:
            clus = {"i": cfg["clus"][0], "j": cfg["clus"][1]}
            k["clustering"] = cl(clus)
        v.add_component(c, **k)
        v.generate()
        n_orig = cfg["ne"] + (2 if cfg["close"] else 0)
        sizes = [(cfg["sweep"], cfg["e"][i]) for i in range(cfg["ne"])]
        if cfg["close"]:
            sizes += [(cfg["e"][0], cfg["e"][1])] * 2
        if cfg.get("over"):
            c.surface(cfg["over"])
            sizes = [(cfg["over"], cfg["over"])] * n_orig
        want = expand(sizes, cfg["refl"])
        if len(c.patches) != len(want):
            raise Violation(f"{len(c.patches)} patches instead of {len(want)}")
        check(c, dict(zip(c.patches, want)), clus, f"per-edge resolution {res}")
        ctx.op(2)
    elif t == "clus":
        c = build.COMPONENTS[cfg["kind"]](res=cfg["n"])
        k = dict(refl_args(cfg["refl"]))
        # 'before': a through add_clustering_options, then b when adding;
        # 'after': a when adding, then b through add_clustering_options
        if cfg["when"] == "before":
            if cfg["a"]:
                c.add_clustering_options(**cl(cfg["a"]))
            if cfg["b"]:
                k["clustering"] = cl(cfg["b"])
            v.add_component(c, **k)
        else:
            if cfg["a"]:
                k["clustering"] = cl(cfg["a"])
            v.add_component(c, **k)
            if cfg["when"] != "after":
                # the component was meshed without the second options
                v.generate()
                n = cfg["n"]
                check(c, {k: (n, n) for k in c.patches}, cfg["a"] or {}, f"clustering {cfg['a']}")
                c.surface(n)
            for d, f in cl(cfg["b"]).items():
                c.add_clustering_options(**{d: f})
        if cfg["when"] in ("before", "after"):
            v.generate()
        elif cfg["when"] == "surfaced":
            c.surface(cfg["n"])
        clus = {**(cfg["a"] or {}), **(cfg["b"] or {})}
        n = cfg["n"]
        check(c, {k: (n, n) for k in c.patches}, clus, f"clustering {clus}")
        ctx.op(3)
    elif t == "solo":
        n = cfg["n"]
        c = SOLO[cfg["kind"]](res=number(n))
        c.generate_patches()
        check(c, {k: (n, n) for k in c.patches}, {}, f"resolution {n}")
        with ctx.scratch():
            c.to_stl("alone.stl")
            got = stlmesh.Mesh.from_file("alone.stl").vectors
        if not ref.same_triangles(got, c.mesh.vectors):
            raise Violation("the file of a component on its own differs from its mesh")
        ctx.op(3)
    elif t == "part":
        c = CompositeComponent(stl_resolution=2, verbosity=0)
        parts = [SOLO["cube"](res=1), SOLO[cfg["kind"]](res=1)]
        for i, p in enumerate(parts):
            c.add_component(p, **(dict(clustering=cl(cfg["a"])) if i == cfg["pos"] else {}))
        v.add_component(c)
        v.generate()
        ctx.op(3)
        counts = [len(p.patches) for p in parts]
        got = np.asarray(c.mesh.vectors, float)
        want, plain = [], []
        for k, p in enumerate(c.patches.values()):
            mine = (k >= counts[0]) == cfg["pos"]
            t2 = pvals(2, None)
            plain.append(ref.tess(ref.sample(p, t2, t2)))
            a = cfg["a"] if mine else {}
            want.append(ref.tess(ref.sample(p, pvals(2, a.get("i")), pvals(2, a.get("j")))))
        ctx.outcome(t)
        ctx.trace()
        if not ref.same_triangles(got, np.concatenate(want)):
            what = ref.worst(got, np.concatenate(want))
            same = ref.same_triangles(got, np.concatenate(plain))
            raise Violation(f"clustering of part {cfg['pos']}: {what}", "composite-part-clustering" if same else None)
    else:
        c = build.tri_swept(res=2)
        d = build.tri_swept(res=3)
        v.add_component(c, clustering=cl(cfg["a"]) if cfg["a"] else None)
        v.add_component(d, clustering=cl(cfg["b"]) if cfg["b"] else None)
        v.generate()
        check(c, {k: (2, 2) for k in c.patches}, cfg["a"] or {}, "first component")
        check(d, {k: (3, 3) for k in d.patches}, cfg["b"] or {}, "second component")
        ctx.op(3)
    ctx.state(sorted((k, repr(x)) for k, x in cfg.items()))
    ctx.outcome(t)
    ctx.trace()
