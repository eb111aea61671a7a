"""P12: STL export writes each visible component to its own file and nothing else."""

import csv
import itertools
import os
import sys
import types

import numpy as np
from stl import mesh as stlmesh

import build
import ref
from hypervehicle.geometry import Vector3
from mc import Violation

PROPERTY = "P12"
BOUNDS = {
    "quick": "all lists of 0-3 components over 7 kinds (3 types, named, unnamed, ghost) x "
    "{no prefix, prefix}, and 9 lists x 5 prefixes (one with a directory) x 2 vehicle names x 3 analysis modes x "
    "properties x merging x 1-2 writes with a transformation, changed properties and another analysis in between; the same lists "
    "written over the files of an earlier export",
    "thorough": "as quick with lists of 4 components and 3 writes",
}

KINDS = {
    "s": ("swept", None, False),
    "r": ("revolved", None, False),
    "c": ("composite", None, False),
    "S": ("swept", "skin", False),
    "R": ("revolved", "Nose tip.v1", False),
    "g": ("swept", None, True),
    "G": ("revolved", "aux", True),
}

MORE = {"third": 1 / 3, "small": 1.2345678901234567e-9, "large": 98765432.10123457}  # all digits count


def base(parts, **k):
    d = dict(parts=list(parts), prefix=None, name=None, analysis="no", props=False, merge=False, times=1, stale=False)
    d.update(k)
    return d


def configs(tier):
    th = tier == "thorough"
    out = []
    for n in range(0, 5 if th else 4):
        for parts in itertools.product(KINDS, repeat=n):
            names = [KINDS[p][1] for p in parts if KINDS[p][1]]
            if len(names) != len(set(names)):
                continue
            for prefix in (None, "pre"):
                out.append(base(parts, prefix=prefix))
    for parts in ("s", "sS", "gs", "sgr", "cGc", "RrS", "g", "ssg", "Sc"):
        for prefix in (None, "pre", "", "x.1", "runs/pre"):
            for name in (None, "Craft v1.2"):
                for analysis in ("no", "registered", "manual"):
                    for props in (False, True):
                        for merge in (False, True):
                            for times in (1, 3) if th else (1, 2):
                                out.append(
                                    base(
                                        parts,
                                        prefix=prefix,
                                        name=name,
                                        analysis=analysis,
                                        props=props,
                                        merge=merge,
                                        times=times,
                                    )
                                )
        for prefix, analysis, props, merge in itertools.product((None, "pre"), ("no", "registered"), (False, True), (False, True)):
            out.append(base(parts, prefix=prefix, analysis=analysis, props=props, merge=merge, stale=True))
    for k in KINDS:
        for f in (None, "one.stl"):
            out.append(["component", k, f])
    return out


class Merger:
    """Stand-in for the PyMesh module, recording what is merged."""

    def __init__(self):
        self.loaded, self.saved = [], []
        m = types.ModuleType("pymesh")
        m.meshio = types.ModuleType("pymesh.meshio")
        m.meshio.load_mesh = self.load
        m.meshio.save_mesh = self.save
        m.merge_meshes = lambda ms: list(ms)
        m.resolve_self_intersection = lambda x: x
        for f in (
            "remove_degenerated_triangles",
            "remove_duplicated_faces",
            "remove_isolated_vertices",
            "remove_obtuse_triangles",
        ):
            setattr(m, f, lambda x: (x, {}))
        self.module = m

    def load(self, f):
        self.loaded.append(f)
        return stlmesh.Mesh.from_file(f)

    def save(self, f, m):
        self.saved.append((f, m))
        with open(f, "w") as g:
            g.write("merged")

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in ("pymesh", "pymesh.meshio")}
        sys.modules["pymesh"] = self.module
        sys.modules["pymesh.meshio"] = self.module.meshio
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def make(k):
    kind, name, ghost = KINDS[k]
    if kind == "revolved":
        return build.revolved(res=1), name, ghost
    return build.COMPONENTS[kind](), name, ghost


def build_stale():
    m = stlmesh.Mesh(np.zeros(2, dtype=stlmesh.Mesh.dtype))
    m.vectors[:] = np.arange(18, dtype=np.float32).reshape(2, 3, 3) + 40
    return m


def listing(d):
    out = []
    for b, _, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(b, f), d) for f in fs]
    return sorted(out)


def run(cfg, ctx):
    if isinstance(cfg, list):
        return component(cfg, ctx)
    with ctx.scratch() as d, Merger() as merger:
        v = build.vehicle(name=cfg["name"])
        vname = cfg["name"] or "vehicle"
        names, count, file, hidden = [], {}, [], []
        for k in cfg["parts"]:
            c, name, ghost = make(k)
            v.add_component(c, name=name, ghost=ghost)
            t = c.componenttype
            i = count.get(t, 0)
            count[t] = i + 1
            names.append(name or f"{t}_{i + 1}")
            if cfg["prefix"]:
                f = f"{cfg['prefix']}-{name}.stl" if name else f"{cfg['prefix']}-{t}-{i}.stl"
            else:
                f = f"{name}.stl" if name else f"{vname}-{t}-{i}.stl"
            file.append(None if ghost else f)
            hidden += [f] if ghost else []
        dens = {n: 1.5 + i for i, n in enumerate(names)}
        if cfg["analysis"] == "registered":
            v.analyse_after_generating(dens)
        v.generate()
        ctx.op()
        if cfg["analysis"] == "manual":
            v.analyse(dens)
            ctx.op()
        if cfg["props"]:
            v.add_property("span", 2.5)
            v.add_property("wet area", -3)
            for q, x in MORE.items():
                v.add_property(q, x)
        props = {"span": 2.5, "wet area": -3.0, **MORE}
        stem = cfg["prefix"] or vname
        want = {f for f in file if f}
        pd = f"{stem}_properties"
        leaf = os.path.basename(stem)
        if cfg["analysis"] == "registered":
            want |= {f"{pd}/{leaf}_{x}" for x in ("volmass.csv", "cog.txt", "moi.txt")}
        if cfg["props"]:
            want.add(f"{pd}/{leaf}_properties.csv")
        if cfg["merge"]:
            want.add(f"{stem}.stl")
        os.makedirs(os.path.dirname(stem) or ".", exist_ok=True)
        old = hidden + ["other.stl", f"{stem}-other-0.stl"] if cfg["stale"] else []
        if cfg["stale"]:
            # files of an earlier export: those of ghosts and others stay, the rest is replaced
            for f in old + sorted(want):
                os.makedirs(os.path.dirname(f) or ".", exist_ok=True)
                if f.endswith(".stl"):
                    build_stale().save(f)
                else:
                    with open(f, "w") as g:
                        g.write("0,1,2\n" * 50)
            want |= set(old)
        for t in range(cfg["times"]):
            if t:
                v.transform([("rotate", 30, "z"), ("translate", Vector3(1.0, 2.0, 3.0))])
                ctx.op()
                if cfg["props"]:
                    props = {"span": 2.5 + t, "wet area": -3.0, **MORE, f"later {t}": 0.125, **({} if t == 1 else {"later 1": 0.125})}
                    v.add_property("span", 2.5 + t)
                    v.add_property(f"later {t}", 0.125)
                if cfg["analysis"] == "registered":
                    v.analyse({n: x * (t + 2) for n, x in dens.items()})
                    ctx.op()
            merger.loaded.clear()
            merger.saved.clear()
            k = {}
            if cfg["prefix"] is not None:
                k["prefix"] = cfg["prefix"]
            if cfg["merge"]:
                k["merge"] = True
            v.to_stl(**k)
            ctx.op()
            got = set(listing(d))
            if got != want:
                raise Violation(f"files {sorted(got)}, not {sorted(want)}")
            for f in old:
                if not np.array_equal(stlmesh.Mesh.from_file(f).vectors, build_stale().vectors):
                    raise Violation(f"{f} of an earlier export was changed")
            for c, f in zip(v.components, file):
                if f:
                    tri = np.asarray(stlmesh.Mesh.from_file(f).vectors, float)
                    if not ref.close(tri, c.mesh.vectors):
                        raise Violation(f"{f} does not hold the mesh of its component: {ref.worst(tri, c.mesh.vectors)}")
            if cfg["merge"]:
                if sorted(map(os.path.normpath, merger.loaded)) != sorted(f for f in file if f):
                    raise Violation(f"merged {merger.loaded}, not {[f for f in file if f]}")
                if [os.path.normpath(s[0]) for s in merger.saved] != [f"{stem}.stl"]:
                    raise Violation(f"merged into {[s[0] for s in merger.saved]}")
                n = sum(len(m.vectors) for m in merger.saved[0][1])
                if n != sum(len(c.mesh.vectors) for c, f in zip(v.components, file) if f):
                    raise Violation("merged mesh does not hold all components")
            if cfg["analysis"] == "registered":
                tables(v, names, os.path.join(pd, leaf))
            if cfg["props"]:
                with open(f"{pd}/{leaf}_properties.csv", newline="") as f:
                    rows = {r[0]: r[1] for r in csv.reader(f) if r and r[0]}
                if {k: float(x) for k, x in rows.items()} != props:
                    raise Violation(f"properties written: {rows}")
        ctx.state((cfg["parts"], cfg["prefix"], cfg["name"], cfg["analysis"], cfg["props"], cfg["merge"], sorted(want)))
        ctx.outcome(f"{sum(1 for f in file if f)} files")
        ctx.trace()


def tables(v, names, stem):
    with open(f"{stem}_volmass.csv", newline="") as f:
        rows = list(csv.reader(f))
    head = rows[0]
    got = {r[0]: {h: float(x) for h, x in zip(head[1:], r[1:])} for r in rows[1:]}
    if set(got) != set(names) | {"vehicle"} or len(rows) - 1 != len(names) + 1:
        raise Violation(f"volmass rows {[r[0] for r in rows]}")
    for q in ("mass", "volume", "area"):
        for n in names:
            w = float(v.component_properties[q][n])
            if abs(got[n][q] - w) > 1e-12 * (1 + abs(w)):
                raise Violation(f"volmass {q} of {n}: {got[n][q]}, not {w}")
        w = float(getattr(v, q))
        if abs(got["vehicle"][q] - w) > 1e-12 * (1 + abs(w)):
            raise Violation(f"volmass {q} of the vehicle: {got['vehicle'][q]}, not {w}")
    for q in ("cog", "moi"):
        with open(f"{stem}_{q}.txt") as f:
            x = np.array([float(c) for c in f.read().split(",")])
        w = np.asarray(v.analysis_results[q], float).ravel()
        if x.shape != w.shape or np.abs(x - w).max() > 1e-12 * (1 + np.abs(w).max()):
            raise Violation(f"{q} written: {x.tolist()}, not {w.tolist()}")


def component(cfg, ctx):
    _, k, f = cfg
    with ctx.scratch() as d:
        v = build.vehicle()
        c, name, ghost = make(k)
        v.add_component(c, name=name, ghost=ghost)
        v.generate()
        c.to_stl(f) if f else c.to_stl()
        ctx.op(2)
        want = [f] if f and not ghost else []
        if listing(d) != want:
            raise Violation(f"files {listing(d)}, not {want}")
        if want:
            if not ref.close(stlmesh.Mesh.from_file(f).vectors, c.mesh.vectors):
                raise Violation("file does not hold the mesh")
    ctx.state(cfg)
    ctx.outcome("single component")
    ctx.trace()
