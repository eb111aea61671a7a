"""Model of a component in a vehicle: nominal points and a list of point maps."""

import numpy as np

import build
import ref
from mc import Violation

OFF = ((0.3, 0.6), (0.8, 0.1))  # parameter values off the mesh grid


def lin(n):
    return tuple(np.linspace(0, 1, n + 1))


REFLECTIONS = {
    "y": ("y", True),  # append_reflection not given
    "y+": ("y", True),
    "y-": ("y", False),
    "x+": ("x", True),
    "x-": ("x", False),
    "z+": ("z", True),
    "z-": ("z", False),
}


def reflection(name):
    axis, append = REFLECTIONS[name]
    if name == axis:
        return dict(reflection_axis=axis)
    return dict(reflection_axis=axis, append_reflection=append)


def add(vehicle, kind, opts, name=None, ghost=None, **build_args):
    """Adds a component with the named options to a real vehicle."""
    c = build.COMPONENTS[kind](**build_args)
    k = {}
    if opts.get("mod"):
        k["modifier_function"] = build.real_offset(opts["mod"])
    if opts.get("curv"):
        k["curvatures"] = [build.CURVES[n] for n in opts["curv"]]
    if opts.get("refl"):
        k.update(reflection(opts["refl"]))
    if opts.get("trans"):
        k["transformations"] = [build.real_transform(n) for n in opts["trans"]]
    if ghost is not None:
        k["ghost"] = ghost
    vehicle.add_component(c, name=name, **k)
    return c


class Model:
    """Patch grids of one component after generation and later operations."""

    def __init__(self, kind, opts=None, angle=0, n=None, **build_args):
        self.kind, self.opts, self.angle = kind, opts or {}, angle
        self.build_args = build_args
        self.n = n
        self.generate()

    def generate(self):
        o = self.opts
        pre = []
        if o.get("mod"):
            pre.append(ref.offset(build.OFFSETS[o["mod"]]))
        for c in o.get("curv") or []:
            pre.append(ref.curve(*build.CURVES[c]))
        if self.angle:
            pre.append(ref.rot("y", self.angle))
        self.branches = [pre]
        if o.get("refl"):
            axis, append = REFLECTIONS[o["refl"]]
            self.reflect(axis, append)
        for t in o.get("trans") or []:
            self.transform(t)

    def transform(self, t):
        """One named transformation of the whole component."""
        if t in build.MIRRORS:
            refl = self.opts.get("refl")
            self.reflect(build.MIRRORS[t], REFLECTIONS[refl][1] if refl else True)
        else:
            self.apply(build.map_transform(t))

    def apply(self, m):
        self.branches = [b + [m] for b in self.branches]

    def reflect(self, axis, append=True):
        mirrored = [b + [ref.mirror(axis)] for b in self.branches]
        self.branches = self.branches + mirrored if append else mirrored

    def grids(self, rs, ss):
        """Points of all patches, originals before reflections."""
        nom = build.nominal(self.kind, rs, ss, **self.build_args)
        return [ref.compose(b)(g) for b in self.branches for _, g in nom]

    def triangles(self, n):
        return np.concatenate([ref.tess(g) for g in self.grids(lin(n), lin(n))])


def match_grids(got, want, what):
    """Same patches, in the same or another order."""
    if len(got) != len(want):
        raise Violation(f"{what}: {len(got)} patches instead of {len(want)}")
    if all(ref.close(a, b, 1e-7 * (1 + np.abs(b).max())) for a, b in zip(got, want)):
        return
    left = list(range(len(want)))
    for k, a in enumerate(got):
        for i in left:
            if ref.close(a, want[i], 1e-7 * (1 + np.abs(want[i]).max())):
                left.remove(i)
                break
        else:
            raise Violation(f"{what}: patch {k}: {ref.worst(a, want[k])}")


def check_patches(component, model, what, off=OFF):
    rs, ss = tuple(p[0] for p in off), tuple(p[1] for p in off)
    got = [g for _, g in build.points(component, rs, ss)]
    match_grids(got, model.grids(rs, ss), what)


def check_mesh(component, model, n, what):
    got = np.asarray(component.mesh.vectors, float)
    want = model.triangles(n)
    if not ref.same_triangles(got, want):
        raise Violation(f"{what}: mesh {ref.worst(got, want)}")
