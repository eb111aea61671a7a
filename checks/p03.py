"""P03: generating again reproduces the geometry of a new vehicle."""

import itertools

import numpy as np

import build
import model
import ref
from mc import Violation

PROPERTY = "P03"

OPS = ["gen", "mesh", "surf2", "stl", "an", "vtra", "rot0", "ref0", "addvt", "addvt2", "addc"]
OPTS = [
    {},
    {"mod": "o1"},
    {"curv": ["cx", "cy"]},
    {"refl": "y+"},
    {"refl": "x-"},
    {"trans": ["rx", "tv"]},
    {"mod": "o1", "curv": ["cy"], "refl": "y+", "trans": ["tv", "rz"]},
    {"curv": ["cx"], "refl": "z-", "trans": ["ry"]},
]
BOUNDS = {
    "quick": "all sequences of up to 3 of 11 operations between two generates, "
    "followed by the second generate, for 3 option sets on two component types; "
    "up to 1 operation for every option set on every component type",
    "thorough": "up to 4 operations for one and 3 for all option sets; up to 2 on "
    "every inexpensive component type",
}


def configs(tier):
    th = tier == "thorough"
    out = []
    for k, o in [("triswept", 3), ("revolved", 6), ("triswept", 7)]:
        depth = 4 if th and o == 6 else 3
        for n in range(depth + 1):
            for seq in itertools.product(OPS, repeat=n):
                if n == 4 and "gen" not in seq:
                    continue
                out.append([k, OPTS[o], list(seq)])
    for k in build.COMPONENTS:
        dear = k in build.DEAR
        for o in OPTS:
            for n in range((2 if dear else 3) if th else 2):
                for seq in itertools.product(OPS, repeat=n):
                    if dear and not th and seq and seq[0] not in ("gen", "mesh", "ref0"):
                        continue
                    out.append([k, o, list(seq)])
    return out


class World:
    def __init__(self, kind, opts):
        self.args = dict(res=1)
        self.log = [("add", kind, opts)]  # configuration calls
        self.v = build.vehicle()
        self.v.vehicle_angle_offset = 4
        self.configure(self.v, self.log[0])
        self.added = 0

    def configure(self, v, call):
        if call[0] == "add":
            model.add(v, call[1], call[2], **self.args)
        else:
            v.add_vehicle_transformations(
                [build.real_transform(t) for t in call[1]]
                if isinstance(call[1], list)
                else build.real_transform(call[1])
            )

    def step(self, op):
        v = self.v
        c = v.components[0]
        if op == "gen":
            v.generate()
        elif op == "mesh":
            for x in v.components[: self.live]:
                x.mesh
        elif op == "surf2":
            c.surface(2)
        elif op == "stl":
            for i, x in enumerate(v.components[: self.live]):
                x.to_stl(f"c{i}.stl")
            if self.live == len(v.components):
                v.to_stl("pre")
        elif op == "an":
            if self.live == len(v.components):
                v.analyse({n: 1.5 for n in v._named_components})
        elif op == "vtra":
            if self.live == len(v.components):
                v.transform([("rotate", 20, "x"), ("translate", build.V(1.0, 2.0, 3.0))])
        elif op == "rot0":
            c.rotate(30, "z")
        elif op == "ref0":
            c.reflect("y")
        elif op in ("addvt", "addvt2", "addc"):
            call = {
                "addvt": ("vt", "rz"),
                "addvt2": ("vt", ["tv", "rx"]),
                "addc": ("add", "triswept", {"refl": "y+"}),
            }[op]
            self.log.append(call)
            self.configure(v, call)
        if op == "gen":
            self.live = len(v.components)

    def finish(self, off):
        new = build.vehicle()
        new.vehicle_angle_offset = 4
        for call in self.log:
            self.configure(new, call)
        new.generate()
        a, b = self.v.components, new.components
        if len(a) != len(b):
            raise Violation(f"{len(a)} components instead of {len(b)}")
        rs, ss = tuple(p[0] for p in off), tuple(p[1] for p in off)
        for i, (x, y) in enumerate(zip(a, b)):
            if sorted(x.patches) != sorted(y.patches):
                raise Violation(
                    f"component {i} has patches {list(x.patches)} instead of {list(y.patches)}"
                )
            model.match_grids(
                [g for _, g in build.points(x, rs, ss)],
                [g for _, g in build.points(y, rs, ss)],
                f"component {i}",
            )
            g, w = np.asarray(x.mesh.vectors, float), np.asarray(y.mesh.vectors, float)
            if not ref.same_triangles(g, w):
                raise Violation(f"mesh of component {i}: {ref.worst(g, w)}")


def run(cfg, ctx):
    kind, opts, seq = cfg
    with ctx.scratch():
        w = World(kind, opts)
        w.live = 0
        for op in ["gen"] + seq + ["gen"]:
            w.step(op)
            ctx.op()
        w.finish(((0.3, 0.6),))
        # the model on its own also says what the first component looks like
        m = model.Model(kind, opts, 4, res=1)
        for call in w.log:
            if call[0] == "vt":
                for t in call[1] if isinstance(call[1], list) else [call[1]]:
                    m.apply(build.map_transform(t))
        model.check_patches(w.v.components[0], m, "component 0", ((0.3, 0.6),))
        ctx.state((kind, opts, [repr(c) for c in w.log], len(m.branches)))
        ctx.outcome(f"{len(w.log)} configuration calls")
        ctx.trace()
