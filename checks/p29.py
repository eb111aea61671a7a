"""P29: verbosity changes the messages, never the results."""

import contextlib
import io
import itertools
import os

import numpy as np
from hypervehicle import Vehicle
from hypervehicle.components import CompositeComponent
from hypervehicle.geometry import Vector3
from hypervehicle.utilities import (
    SensitivityStudy,
    append_sensitivities_to_tri,
    merge_stls,
    surfce_to_stl,
)
from stl import mesh as stlmesh

import build
import p11
import probe
import ref
from mc import Violation
from p12 import Merger

PROPERTY = "P29"
BOUNDS = {
    "quick": "every component type and all pairs of 3 types (named or not, ghost or not) x "
    "vehicle verbosity unset or 0-3 x component verbosity 0-2 x all sequences of up to 2 of 6 "
    "operations after generating; composites of one or two of 7 kinds of parts x verbosity of "
    "parts, composite and vehicle 0-2 x vehicle silenced before or after adding; studies "
    "(also of components and vehicles of verbosity 1 and 2), appending, merging and "
    "tessellating at verbosity 0-3",
    "thorough": "as quick with all sequences of up to 3 operations",
}
ASSUMPTIONS = [
    "patches are meshed by the worker pool (the serial mode always reports its progress)",
    "analyse and stl_check of a component are reports and print at every verbosity",
]
OPS = ["generate", "transform", "mesh", "stl", "prefix", "merge"]
VERB = [None, 0, 1, 2, 3]
CASES = {k: [(k, None, False)] for k in build.COMPONENTS}
CASES["named"] = [("triswept", "part", False)]
CASES["ghost"] = [("triswept", None, True), ("revolved", None, False)]
for _a, _b in itertools.product(("triswept", "revolved", "composite"), repeat=2):
    CASES[f"{_a}+{_b}"] = [(_a, None, False), (_b, "second" if _a < _b else None, False)]


def configs(tier):
    n = 3 if tier == "thorough" else 2
    out = []
    for case, parts in CASES.items():
        dear = parts[0][0] in build.DEAR
        for k in range(2 if dear else n + 1):
            for seq in itertools.product(OPS, repeat=k):
                for cv in (0, 1, 2) if k < 3 else (0,):
                    out.append(["vehicle", case, cv, list(seq)])
    kinds = [k for k in build.COMPONENTS if k != "composite"]
    for parts in [[k] for k in kinds] + [["fin", "flatwing"], ["triswept", "fin"]]:
        for pv, cv, vv in itertools.product((0, 1, 2), repeat=3):
            for late in (False, True) if vv else (False,):
                out.append(["parts", parts, pv, cv, vv, late])
    for kind, cv, vv in itertools.product(("composite", "flatwing", "fin"), (0, 1, 2), (0, 1)):
        out.append(["quiet", kind, cv, vv])
    for params in (["length"], ["height", "width"]):
        for stl in (False, True):
            out.append(["study", params, stl])
    for split in range(len(p11.SPLITS)):
        out.append(["append", split])
    out += [["merge", n, name] for n in (1, 2, 3) for name in (None, "joint")]
    out += [["surface", n, m] for n in (1, 2, 3) for m in (1, 2, 3)]
    return out


def talk(f):
    """The result and everything printed."""
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o):
        r = f()
    return r, o.getvalue()


def read(d):
    """Triangles in the files of a directory."""
    out = {}
    for f in sorted(os.listdir(d)):
        out[f] = np.array(stlmesh.Mesh.from_file(os.path.join(d, f)).vectors) if f.endswith(".stl") else None
    return out


def same(a, b, what):
    if a.keys() != b.keys():
        raise Violation(f"{what}: {sorted(b)} instead of {sorted(a)}")
    for k in a:
        if a[k] is None:
            continue
        if np.shape(a[k]) != np.shape(b[k]) or not np.array_equal(a[k], b[k]):
            raise Violation(f"{what}: {k} differs")


def vehicle(cfg, verb, ctx):
    """Final meshes and files; the messages are checked on the way."""
    _, case, cv, seq = cfg

    def expect(text, words, what):
        if verb == 0 and text:
            raise Violation(f"silent vehicle printed on {what}: {text!r}")
        level = 1 if verb is None else verb
        for at, word in words:
            if level >= at and word not in text:
                raise Violation(f"vehicle of verbosity {verb} does not mention {word!r} on {what}: {text!r}")
        if level >= 1 and words and not text.strip():
            raise Violation(f"vehicle of verbosity {verb} prints nothing on {what}")

    v = Vehicle()
    if verb is not None:
        v.configure("craft", verbosity=verb)
    else:
        v.name = "craft"
    count, files, types = {}, [], []
    for kind, name, ghost in CASES[case]:
        c = build.COMPONENTS[kind]()
        c.verbosity = cv
        _, text = talk(lambda: v.add_component(c, name=name, ghost=ghost))
        t = c.componenttype
        expect(text, [(2, t), (2, name or f"{t}_{count.get(t, 0) + 1}")] if (verb or 0) > 1 else [], "adding")
        if verb in (None, 1) and text:
            raise Violation(f"adding at verbosity {verb} prints {text!r}")
        files.append((name or f"craft-{t}-{count.get(t, 0)}", name or f"{t}-{count.get(t, 0)}", ghost))
        count[t] = count.get(t, 0) + 1
        types.append(t)
    with ctx.scratch() as d, Merger():
        for op in ["generate"] + seq:
            if op == "generate":
                _, text = talk(v.generate)
                expect(text, [(1, "")] + [(2, t) for t in types], op)
            elif op == "transform":
                _, text = talk(lambda: v.transform([("rotate", 30, "z"), ("translate", Vector3(1.0, 2.0, 3.0))]))
                expect(text, [], op)
            elif op == "mesh":
                _, text = talk(lambda: [c.mesh for c in v.components])
                expect(text, [], op)
                if text and max(1 if verb is None else verb, cv) < 2:
                    raise Violation(f"meshing at verbosity {verb}, {cv} prints {text!r}")
            else:
                k = {"stl": {}, "prefix": dict(prefix="pre"), "merge": dict(merge=True)}[op]
                _, text = talk(lambda: v.to_stl(**k))
                names = [f"pre-{b}.stl" if op == "prefix" else f"{a}.stl" for a, b, g in files if not g]
                expect(text, [(1, f) for f in names], op)
            ctx.op()
        out = read(d)
        meshes, text = talk(lambda: [np.array(c.mesh.vectors) for c in v.components])
        out.update({str(i): m for i, m in enumerate(meshes)})
    return out


def parts(cfg, ctx):
    """A composite whose parts were built with another verbosity."""
    _, kinds, pv, cv, vv, late = cfg
    got = []
    for silent in (False, True):
        v = Vehicle()
        v.configure("craft", verbosity=0 if silent and not late else vv)
        c = CompositeComponent(stl_resolution=1, verbosity=cv)
        for k in kinds:
            p = build.COMPONENTS[k]()
            p.verbosity = pv
            c.add_component(p)
        plain = build.flat_wing()
        plain.verbosity = pv
        _, text = talk(lambda: [v.add_component(x) for x in (c, plain)])
        if silent:
            v.configure(verbosity=0)
        talks = [text] if not late else []
        talks.append(talk(v.generate)[1])
        talks.append(talk(lambda: v.transform(("rotate", 20, "x")))[1])
        cheap = not set(kinds) & set(build.DEAR)
        if cheap:
            with ctx.scratch():
                talks.append(talk(v.to_stl)[1])
        ctx.op(len(talks) + 2)
        if silent and any(talks):
            raise Violation(f"silent vehicle with parts {kinds} prints {talks}")
        if not silent and vv and not talks[-3 if cheap else -2]:
            raise Violation(f"vehicle of verbosity {vv} prints nothing on generating")
        got.append([np.array(ref.sample(q, [0.0, 0.3, 1.0], [0.0, 0.6, 1.0])) for x in (c, plain) for q in x.patches.values()])
        ctx.state([cfg, silent])
    if [g.shape for g in got[0]] != [g.shape for g in got[1]] or any(not np.array_equal(a, b) for a, b in zip(*got)):
        raise Violation(f"parts {kinds} differ in a silent vehicle")


def quiet(cfg, ctx):
    """A silent study of vehicles and components that are not."""
    _, kind, cv, vv = cfg

    class Talker(probe.Probe):
        def create_instance(self):
            v = Vehicle()
            v.configure("talker", verbosity=vv)
            if kind == "composite":
                c = CompositeComponent(stl_resolution=1, verbosity=cv)
                p = build.flat_wing()
                p.verbosity = cv
                c.add_component(p)
            else:
                c = build.COMPONENTS[kind]()
                c.stl_resolution = 1
                c.verbosity = cv
            v.add_component(c, transformations=[("translate", Vector3(self.length, 0.0, 0.0))])
            return v

    with ctx.scratch():
        r, text = talk(lambda: SensitivityStudy(Talker, verbosity=0).dvdp({"length": 2.0}))
        ctx.op(2)
    if text:
        raise Violation(f"silent study of {kind} of verbosity {cv} in a vehicle of verbosity {vv} prints {text!r}")
    for df in r["length"].values():
        if not np.allclose(df[["dxdlength", "dydlength", "dzdlength"]], [1.0, 0.0, 0.0], atol=1e-4):
            raise Violation(f"sensitivities of {kind} differ")
    ctx.state(cfg)


def study(cfg, verb, ctx):
    _, params, stl = cfg
    with ctx.scratch() as d:
        s, text = talk(lambda: SensitivityStudy(probe.Probe, verbosity=verb))
        k = dict(write_nominal_stl=stl)
        r, more = talk(lambda: s.dvdp({p: probe.Probe().__dict__[p] for p in params}, **k))
        text += more
        ctx.op(2)
        out = read(d)
        for p, d1 in r.items():
            for c, df in d1.items():
                out[f"{p} {c}"] = df.to_numpy(float)
    words = params
    return out, text, words


def append(cfg, verb, ctx):
    with ctx.scratch() as d:
        files = []
        for i, part in enumerate(p11.SPLITS[cfg[1]]):
            files.append(os.path.join(d, f"part{i}_sensitivity.csv"))
            with open(files[-1], "w") as f:
                f.write("x,y,z,dxda,dyda,dzda\n")
                for k in part:
                    row = list(p11.TABLE[k]) + list(p11.sens(p11.TABLE[k], p11.PARAMS[0]))
                    f.write(",".join(repr(x) for x in row) + "\n")
        tri = os.path.join(d, "Comp.i.tri")
        p11.write_tri(tri, [p11.TABLE[k] for part in p11.SPLITS[cfg[1]] for k in part][:2], "plain")
        r, text = talk(lambda: append_sensitivities_to_tri(files, tri, verbosity=verb))
        ctx.op()
        with open(tri) as f:
            return {"fraction": r, "tri": np.array(f.read())}, text, ["100.00%"]


def merge(cfg, verb, ctx):
    with ctx.scratch() as d, Merger() as m:
        files = []
        for i in range(cfg[1]):
            c = build.tri_swept()
            c.generate_patches()
            files.append(f"part{i}.stl")
            c.mesh.save(files[-1])
        k = {} if cfg[2] is None else dict(name=cfg[2])
        r, text = talk(lambda: merge_stls(files, verbosity=verb, **k))
        ctx.op()
        out = read(d)
        out["result"] = np.array(r)
    return out, text, [str(r)]


def surface(cfg, verb, ctx):
    c = build.revolved()
    c.generate_patches()
    patch = next(iter(c.patches.values()))
    r, text = talk(lambda: surfce_to_stl(patch, cfg[1], cfg[2], verbosity=verb))
    ctx.op()
    return {"mesh": np.array(r.vectors)}, text, []


def run(cfg, ctx):
    if cfg[0] == "vehicle":
        base = None
        for verb in [0] + [v for v in VERB if v != 0]:
            got = vehicle(cfg, verb, ctx)
            base = base or got
            same(base, got, f"verbosity {verb}")
            ctx.state([cfg, verb])
        ctx.outcome("vehicle")
        ctx.trace()
        return
    if cfg[0] in ("parts", "quiet"):
        {"parts": parts, "quiet": quiet}[cfg[0]](cfg, ctx)
        ctx.outcome(cfg[0])
        ctx.trace()
        return
    f = {"study": study, "append": append, "merge": merge, "surface": surface}[cfg[0]]
    base = None
    for verb in (0, 1, 2, 3):
        got, text, words = f(cfg, verb, ctx)
        base = base or got
        same(base, got, f"verbosity {verb}")
        if verb == 0 and text:
            raise Violation(f"{cfg[0]} of verbosity 0 printed {text!r}")
        for w in words if verb else []:
            if w not in text:
                raise Violation(f"{cfg[0]} of verbosity {verb} does not mention {w!r}: {text!r}")
        ctx.state([cfg, verb])
    ctx.outcome(cfg[0])
    ctx.trace()
