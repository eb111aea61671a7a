"""P02: a mesh always describes the current geometry, all operation sequences."""

import itertools
import os

import numpy as np
from stl import mesh as stlmesh

import build
import model
import ref
from mc import Violation

PROPERTY = "P02"

# operation -> (changes the geometry, how)
OPS = [
    "gen",  # vehicle.generate()
    "vrot",  # vehicle.transform([...])
    "vtra",  # vehicle.transform(tuple)
    "rot0",  # component.rotate
    "tra0",  # component.translate
    "ref0",  # component.reflect("x")
    "cur0",  # component.curve()
    "mod0",  # component.apply_modifier()
    "mesh",  # read both meshes
    "surf",  # component.surface()
    "surf2",  # component.surface(2)
    "an",  # vehicle.analyse
    "stl",  # vehicle.to_stl
    "chk",  # stl_check, component.analyse
]
GEO = ["gen", "vrot", "vtra", "rot0", "tra0", "ref0", "cur0", "mod0"]
PLAIN = [o for o in OPS if o not in ("cur0", "mod0")]
OBS = [o for o in OPS if o not in GEO]

STARTS = {
    "plain": ({}, {}, []),
    "append": ({"refl": "y+"}, {"trans": ["rx"]}, ["tv"]),
    "replace": ({"refl": "y-", "curv": ["cx"], "mod": "o2"}, {"mod": "o1"}, ["rz", "tv"]),
}

BOUNDS = {
    "quick": "all sequences of up to 3 of 12 operations after the first generate, for "
    "2 vehicles of two components, and of 14 operations for a third with curvature and modifier; up to 2 on every other component type",
    "thorough": "all sequences of up to 4 operations for 2 vehicles and up to 3 for the "
    "third; up to 3 on the inexpensive component types",
}


def configs(tier):
    th = tier == "thorough"
    out = []
    for name in STARTS:
        depth = 3 if not th or name == "replace" else 4
        for n in range(depth + 1):
            for seq in itertools.product(OPS if name == "replace" else PLAIN, repeat=n):
                if n == 4 and seq[-1] in OBS:
                    continue  # the final observation reads everything anyway
                out.append([name, "triswept", "revolved", "gen", list(seq)])
    for n in range(3):
        for seq in itertools.product(OPS, repeat=n):
            out.append(["append", "triswept", "revolved", "an", list(seq)])
    for kind in ("swept", "composite", "flatwing"):
        for n in range(4 if th else 3):
            for seq in itertools.product(OPS, repeat=n):
                out.append(["append", kind, "triswept", "gen", list(seq)])
    for kind in build.DEAR:
        for a, b in itertools.product(OBS, GEO):
            out.append(["plain", kind, "triswept", "gen", [a, b]])
    return out


class World:
    def __init__(self, start, kinds):
        o0, o1, vt = STARTS[start]
        self.vt = vt
        self.v = build.vehicle()
        args = [dict(res=1) for _ in kinds]
        self.c = [
            model.add(self.v, k, o, **a) for k, o, a in zip(kinds, (o0, o1), args)
        ]
        self.m = [model.Model(k, o, **a) for k, o, a in zip(kinds, (o0, o1), args)]
        self.append = [not (o.get("refl") or "+").endswith("-") for o in (o0, o1)]
        self.v.add_vehicle_transformations([build.real_transform(t) for t in vt])
        self.res = [{1}, {1}]
        self.generated = False

    def _model_gen(self):
        self.generated = True
        for m in self.m:
            m.generate()
            for t in self.vt:
                m.apply(build.map_transform(t))
        self.res = [{1}, {1}]

    def _changed(self, i):
        self.res[i] = self.res[i] | {1}

    def step(self, op):
        v, c, m = self.v, self.c, self.m
        if op == "gen":
            v.generate()
            self._model_gen()
        elif op == "vrot":
            v.transform([("rotate", 20, "x"), ("rotate", -35, "z")])
            for i in (0, 1):
                m[i].apply(ref.rot("x", 20))
                m[i].apply(ref.rot("z", -35))
                self._changed(i)
        elif op == "vtra":
            v.transform(("translate", build.V(0.5, -0.25, 1.0)))
            for i in (0, 1):
                m[i].apply(lambda p: np.asarray(p) + np.array([0.5, -0.25, 1.0]))
                self._changed(i)
        elif op == "rot0":
            c[0].rotate(15, "z")
            m[0].apply(ref.rot("z", 15))
            self._changed(0)
        elif op == "tra0":
            c[0].translate(build.real_offset("o2"))
            m[0].apply(ref.offset(build.OFFSETS["o2"]))
            self._changed(0)
        elif op == "ref0":
            c[0].reflect("x")
            m[0].reflect("x", self.append[0])
            self._changed(0)
        elif op == "cur0":
            c[0].curve()
            for n in m[0].opts.get("curv") or []:
                m[0].apply(ref.curve(*build.CURVES[n]))
            self._changed(0)
        elif op == "mod0":
            c[0].apply_modifier()
            if m[0].opts.get("mod"):
                m[0].apply(ref.offset(build.OFFSETS[m[0].opts["mod"]]))
            self._changed(0)
        elif op == "mesh":
            for i in (0, 1):
                self.check_mesh(i, "mesh read")
        elif op == "surf":
            c[0].surface()
            self.res[0] = {1}
        elif op == "surf2":
            c[0].surface(2)
            self.res[0] = {2}
        elif op == "an":
            first = not self.generated
            v.analyse({n: 2.0 for n in v._named_components})
            if first:
                self._model_gen()
        elif op == "stl":
            v.to_stl()
            self.check_files()
        elif op == "chk":
            for x in c:
                x.stl_check()
                x.analyse()
        else:
            raise KeyError(op)

    def triangles(self, i):
        got = np.asarray(self.c[i].mesh.vectors, float)
        return got

    def match(self, i, got, what):
        for n in sorted(self.res[i]):
            if ref.same_triangles(got, self.m[i].triangles(n)):
                self.res[i] = {n}
                return
        n = max(self.res[i])
        raise Violation(
            f"{what} of component {i}: {ref.worst(got, self.m[i].triangles(n))}"
        )

    def check_mesh(self, i, what):
        self.match(i, self.triangles(i), what)

    def check_files(self):
        files = sorted(f for f in os.listdir(".") if f.endswith(".stl"))
        want = []
        for i, c in enumerate(self.c):
            no = sum(1 for d in self.c[:i] if d.componenttype == c.componenttype)
            name = f"{self.v.name}-{c.componenttype}-{no}.stl"
            want.append(name)
            if name not in files:
                raise Violation(f"{name} was not written, found {files}")
            self.match(i, stlmesh.Mesh.from_file(name).vectors, f"file {name}")

    def finish(self, off):
        for i in (0, 1):
            model.check_patches(self.c[i], self.m[i], f"component {i}", off)
        for i in (0, 1):
            self.check_mesh(i, "mesh")
        self.v.to_stl()
        self.check_files()
        for i in (0, 1):
            model.check_patches(
                self.c[i], self.m[i], f"component {i} after observation", off
            )


def run(cfg, ctx):
    start, k0, k1, first, seq = cfg
    with ctx.scratch():
        w = World(start, (k0, k1))
        for op in [first] + seq:
            w.step(op)
            ctx.op()
        w.finish(((0.3, 0.6),))
        ctx.state((start, k0, k1, [o for o in seq if o in GEO], [sorted(r) for r in w.res]))
        ctx.outcome("observed" if set(seq) & set(OBS) else "geometry only")
        ctx.trace()
