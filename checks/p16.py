"""P16: generator parameters override defaults and nothing leaks."""

import itertools
import json
import os

import numpy as np
from hypervehicle.generator import Generator
from hypervehicle.geometry import Vector3

import hangar
import ref
from mc import VERIF, Violation

PROPERTY = "P16"
TABLE = json.load(open(os.path.join(VERIF, "lib", "influence.json")))
BOUNDS = {
    "quick": "10 hangar generators: every numeric and vector parameter changed by +2% and -2% "
    "(compared with the recorded set of influenced components) and by +2% and +15%, every "
    "coordinate of vectors on its own (compared with the recorded displacement of each "
    "component), every resolution and flag; all "
    "subsets of explicitly given defaults for the 4 small generators, all single and all "
    "complete sets for the others; all pairs of parameters of the 3 cheap generators; all "
    "sequences of 3 instances of a 3-parameter generator over 10 keyword sets",
    "thorough": "as quick with +-0.5%, +5%, all pairs of parameters (the second changed on a "
    "vehicle with the first changed)",
}
ASSUMPTIONS = [
    "the components each parameter influences and their mean displacements are recorded in "
    "lib/influence.json",
    "patches are compared at 2 points each",
]
SMALL = ["ParametricWedge", "ParametricFalcon9", "ParametricFinner", "ParametricHIFiRE8"]
CHEAP = ["ParametricWedge", "ParametricFalcon9", "ParametricFinner"]
KW = [{}, {"a": 2.0}, {"b": "x"}, {"c": [1]}, {"a": 3.0, "b": "y"}, {"a": None, "c": []}, {"b": 0, "c": 0}, {"a": 5, "b": 6, "c": 7}, {"d": 1.5}, {"a": 4.0, "e": None}]


def numeric(n):
    return [p for p, d in TABLE[n]["parameters"].items() if d["kind"] in ("number", "vector")]


def configs(tier):
    th = tier == "thorough"
    out = []
    for n in hangar.NAMES:
        out.append(["same", n])
        for p in TABLE[n]["parameters"]:
            out.append(["explicit", n, [p]])
        out.append(["explicit", n, list(TABLE[n]["parameters"])])
        if n in SMALL:
            ps = list(TABLE[n]["parameters"])
            for k in range(2, len(ps)):
                for sub in itertools.combinations(ps, k):
                    out.append(["explicit", n, list(sub)])
        for p in numeric(n):
            for d in [0.02, -0.02] + ([0.005, -0.005, 0.05] if th else []):
                out.append(["change", n, {}, p, d])
        for p, d in TABLE[n]["parameters"].items():
            if d["kind"] == "flag":
                out.append(["flag", n, p])
            if d["kind"] == "resolution":
                out.append(["res", n, p])
        for p, d in TABLE[n]["parameters"].items():
            for k in d.get("moves", ()):
                out.append(["moves", n, p, k])
        if th or n in CHEAP:
            for p, q in itertools.permutations(numeric(n), 2):
                out.append(["change", n, {p: 0.03}, q, 0.02])
    out.append(["densities"])
    for seq in itertools.product(range(len(KW)), repeat=3):
        out.append(["sequence", list(seq)])
    return out


_base = {}


def base(n, over=()):
    key = (n, over)
    if key not in _base:
        g, v = hangar.make(n, dict(values(n, dict(over))))
        if over:
            return hangar.shape(v)
        _base[key] = hangar.shape(v)
    return _base[key]


def values(n, rel):
    g = getattr(hangar.hangar, n)()
    return {p: hangar.changed(getattr(g, p), d) for p, d in rel.items()}


def comparable(x):
    if isinstance(x, Vector3):
        return ref.P(x).tolist()
    if isinstance(x, (list, tuple)):
        return [comparable(i) for i in x]
    if callable(x):
        return getattr(x, "__name__", type(x).__name__)
    return x


def own(g):
    return {k: comparable(v) for k, v in vars(g).items()}


def same(a, b, what):
    if list(a) != list(b):
        raise Violation(f"{what}: components {list(b)}, not {list(a)}")
    for c in a:
        if a[c][0] != b[c][0]:
            raise Violation(f"{what}: {c} has {b[c][0]} patches, not {a[c][0]}")
        if a[c][2] != b[c][2]:
            raise Violation(f"{what}: {c} has resolution {b[c][2]}, not {a[c][2]}")
        if not np.array_equal(a[c][1], b[c][1]):
            raise Violation(f"{what}: {c} differs: {ref.worst(b[c][1], a[c][1])}")


def finite(s, what):
    for c, x in s.items():
        if not np.all(np.isfinite(x[1])):
            raise Violation(f"{what}: {c} has coordinates that are not finite")


def run(cfg, ctx):
    kind = cfg[0]
    globals()["run_" + kind](cfg, ctx)
    ctx.state(cfg)
    ctx.outcome(kind)
    ctx.trace()


def run_same(cfg, ctx):
    n = cfg[1]
    g = getattr(hangar.hangar, n)()
    first = own(g)
    a = base(n)
    if list(a) != TABLE[n]["components"]:
        raise Violation(f"components {list(a)}, not {TABLE[n]['components']}")
    finite(a, n)
    # another instance after one with all parameters changed
    hangar.make(n, values(n, {p: 0.02 for p in numeric(n)}))
    g2, v2 = hangar.make(n, {})
    same(a, hangar.shape(v2), "after an instance with other parameters")
    if {k: v for k, v in own(g2).items() if k in first} != first:
        raise Violation("defaults changed after an instance with other parameters")
    # the same generator object used again
    before = {k: v for k, v in own(g2).items()}
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        v3 = g2.create_instance()
        v3.configure(verbosity=0)
        v3.generate()
    same(a, hangar.shape(v3), "second vehicle of one generator")
    same(a, hangar.shape(v2), "first vehicle after the second")
    if {k: v for k, v in own(g2).items() if k in before and not hasattr(v, "__call__")} != before:
        raise Violation("creating a vehicle changed the parameters")
    ctx.op(4)


def run_explicit(cfg, ctx):
    _, n, ps = cfg
    g = getattr(hangar.hangar, n)()
    kw = {p: getattr(g, p) for p in ps}
    g2, v = hangar.make(n, kw)
    ctx.op(2)
    now = own(g2)
    for k, x in own(g).items():
        if now.get(k) != x:
            raise Violation(f"parameter {k} is {now.get(k)}, not {x}")
    same(base(n), hangar.shape(v), f"defaults of {ps} given explicitly")


def run_change(cfg, ctx):
    _, n, over, p, d = cfg
    start = base(n, tuple(sorted(over.items())))
    kw = values(n, dict(over, **{p: d}))
    default = own(getattr(hangar.hangar, n)())
    g, v = hangar.make(n, kw)
    ctx.op(2)
    now = own(g)
    for k, x in default.items():
        want = comparable(kw[k]) if k in kw else x
        if now.get(k) != want:
            raise Violation(f"parameter {k} is {now.get(k)}, not {want}")
    s = hangar.shape(v)
    if list(s) != list(start):
        raise Violation(f"components {list(s)}, not {list(start)}")
    for c in s:
        if s[c][0] != start[c][0] or s[c][2] != start[c][2]:
            raise Violation(f"{c} has {s[c][0]} patches at resolution {s[c][2]}, not {start[c][0]}, {start[c][2]}")
    finite(s, n)
    got = hangar.influence(start, s)
    want = TABLE[n]["parameters"][p]["influences"]
    if got != want:
        raise Violation(f"{p} influences {got}, not {want}")


def run_moves(cfg, ctx):
    """The displacement of every component is the recorded one."""
    _, n, p, k = cfg
    d = getattr(getattr(hangar.hangar, n)(), p)
    if k == "flag":
        new = not d
    else:
        rel, axis = k.split()
        new = hangar.changed(d, float(rel), axis)
    got = hangar.motion(base(n), hangar.shape(hangar.make(n, {p: new})[1]))
    ctx.op()
    want = TABLE[n]["parameters"][p]["moves"][k]
    if list(got) != list(want):
        raise Violation(f"{p} ({k}) moves {list(got)}, not {list(want)}")
    for c in want:
        a, b = np.array(got[c]), np.array(want[c])
        if np.abs(a - b).max() > 2e-6 + 1e-4 * np.abs(b).max():
            raise Violation(f"{p} ({k}) moves {c} by {a.round(6).tolist()}, not {b.round(6).tolist()}")


def run_flag(cfg, ctx):
    _, n, p = cfg
    g = getattr(hangar.hangar, n)()
    g2, v = hangar.make(n, {p: not getattr(g, p)})
    ctx.op()
    s = hangar.shape(v)
    want = TABLE[n]["parameters"][p]["components"]
    if list(s) != want:
        raise Violation(f"components {list(s)}, not {want}")
    finite(s, n)


def run_res(cfg, ctx):
    _, n, p = cfg
    g = getattr(hangar.hangar, n)()
    a = base(n)
    for new in (1, getattr(g, p) + 1):
        g2, v = hangar.make(n, {p: new})
        ctx.op()
        s = hangar.shape(v)
        for c in a:
            want = new if c in TABLE[n]["parameters"][p]["influences"] else a[c][2]
            if s[c][2] != want:
                raise Violation(f"{c} has resolution {s[c][2]}, not {want}")
            if not np.array_equal(a[c][1], s[c][1]):
                raise Violation(f"the resolution changes the geometry of {c}")


def run_densities(cfg, ctx):
    n = "ParametricWaverider"
    rho = {c: 1.0 + i for i, c in enumerate(TABLE[n]["components"])}
    kw = dict(wing_stl_res=1, fin_stl_res=1, fuse_stl_res=2)
    g, v = hangar.make(n, dict(kw, densities=rho))
    ctx.op()
    if not v.analysis_results or v.component_properties is None:
        raise Violation("densities were given but there is no analysis")
    for c, m in v.component_properties["mass"].items():
        if abs(m - rho[c] * v.component_properties["volume"][c]) > 1e-9:
            raise Violation(f"density of {c} not used")
    g2, v2 = hangar.make(n, kw)
    same(hangar.shape(v), hangar.shape(v2), "without densities")
    if v2.analysis_results:
        raise Violation("analysis without densities")


class Three(Generator):
    shared = "class"

    def __init__(self, **kwargs):
        self.a, self.b, self.c = 1.0, "b", [0]
        super().__init__(**kwargs)


def run_sequence(cfg, ctx):
    made = []
    for i in cfg[1]:
        kw = dict(KW[i])
        g = Three(**kw)
        ctx.op()
        if kw != KW[i]:
            raise Violation("keyword arguments were modified")
        made.append((g, i))
        for h, j in made:
            want = dict(a=1.0, b="b", c=[0])
            want.update(KW[j])
            got = {p: getattr(h, p) for p in want}
            if got != want:
                raise Violation(f"parameters {got}, not {want}")
        if any(hasattr(Three, p) for p in "abcde") or any(hasattr(Generator, p) for p in "abcde"):
            raise Violation("parameters were set on the class")
    for k in KW[5]:
        if k in KW[cfg[1][0]] and getattr(made[0][0], k) is not KW[cfg[1][0]][k]:
            raise Violation(f"{k} is not the object given")
