"""P30: merging and converting handle exactly the files they are given."""

import contextlib
import itertools
import os
import sys
import types

from hypervehicle import utilities

from mc import Violation

PROPERTY = "P30"
FILES = ["a.stl", "b c.stl", os.path.join("part", "c.stl")]
NAMES = [None, "all", "two.parts", os.path.join("out", "merged")]
ENTRIES = ["a.csv", "b.c.csv", "z 1.csv", "old.csv.csv", "note.txt", "a.vtu", os.path.join("sub", "d.csv"), "csv"]
PLACES = ["", "data", "data/", os.path.join("data", "deep.csv"), "run[1]", os.path.join("*", "[!a]?"), "absolute"]
BOUNDS = {
    "quick": f"merging all lists of 1 to 3 of {len(FILES)} files under {len(NAMES)} names at 3 "
    f"verbosities, with and without PyMesh; converting a directory holding any of the "
    f"{2 ** len(ENTRIES)} subsets of {len(ENTRIES)} entries, named in {len(PLACES)} ways, once "
    "and twice; converting each file by itself",
    "thorough": "as quick with lists of up to 5 files",
}
ASSUMPTIONS = [
    "PyMesh and ParaView are stand-ins recording what they are given; their own work is not checked",
]
STEPS = [
    "merge_meshes",
    "resolve_self_intersection",
    "remove_degenerated_triangles",
    "remove_duplicated_faces",
    "remove_isolated_vertices",
    "remove_obtuse_triangles",
]


def configs(tier):
    out = []
    for n in range(1, 6 if tier == "thorough" else 4):
        for files in itertools.product(range(len(FILES)), repeat=n):
            out.append(["merge", list(files)])
    for k in range(len(ENTRIES) + 1):
        for sub in itertools.combinations(range(len(ENTRIES)), k):
            out.append(["directory", list(sub)])
    for i in range(4):
        out.append(["file", i])
    return out


@contextlib.contextmanager
def modules(**new):
    """Replaces modules, None stands for one that is not installed."""
    new = {k.replace("_", "."): v for k, v in new.items()}
    old = {k: sys.modules.get(k) for k in new}
    sys.modules.update(new)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


class Mesh:
    def __init__(self, parts, steps=()):
        self.parts, self.steps = list(parts), list(steps)


def merger(saved):
    m = types.ModuleType("pymesh")
    m.meshio = types.ModuleType("pymesh.meshio")

    def load(f):
        with open(f) as g:
            return Mesh([g.read()])

    def save(f, mesh, *a, **k):
        saved.append((f, mesh))
        with open(f, "w") as g:
            g.write("merged")

    def merge(ms):
        return Mesh([p for x in ms for p in x.parts], ["merge_meshes"])

    def resolve(x, *a, **k):
        return Mesh(x.parts, x.steps + ["resolve_self_intersection"])

    def step(name):
        return lambda x, *a, **k: (Mesh(x.parts, x.steps + [name]), {})

    for where in (m, m.meshio):
        where.load_mesh, where.save_mesh = load, save
    m.merge_meshes, m.resolve_self_intersection = merge, resolve
    for s in STEPS[2:]:
        setattr(m, s, step(s))
    return m


class Proxy:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


def viewer(saved):
    m = types.ModuleType("paraview.simple")
    for kind in ("CSVReader", "TableToPoints", "Delaunay3D"):
        setattr(m, kind, (lambda kind: lambda *a, **k: Proxy(kind, **k))(kind))

    def save(filename=None, proxy=None, **k):
        saved.append((filename, proxy))
        with open(filename, "w") as g:
            g.write("grid")

    m.SaveData = save
    p = types.ModuleType("paraview")
    p.simple = m
    return p, m


def put(f, text):
    d = os.path.dirname(f)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(f, "w") as g:
        g.write(text)


def listing(d):
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            with open(p) as g:
                out[os.path.relpath(p, d)] = g.read()
    return out


def same(got, want, what):
    if got != want:
        raise Violation(f"{what}: {got}, not {want}")


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.trace()


def run_merge(cfg, ctx):
    files = [FILES[i] for i in cfg[1]]
    for name, verb in itertools.product(NAMES, (0, 1, 2)):
        k = {} if name is None else dict(name=name)
        with ctx.scratch() as d:
            for f in FILES:
                put(f, f"solid {f}")
            os.mkdir("out")
            before = listing(d)
            saved = []
            m = merger(saved)
            with modules(pymesh=m, pymesh_meshio=m.meshio):
                given = list(files)
                r = utilities.merge_stls(given, verbosity=verb, **k)
            ctx.op()
            out = f"{name or 'combined_mesh'}.stl"
            same(os.path.normpath(r), out, "name of the merged file")
            same([os.path.normpath(s[0]) for s in saved], [out], "files saved")
            same(saved[0][1].parts, [f"solid {f}" for f in files], "meshes merged")
            same(saved[0][1].steps, STEPS, "treatment of the merged mesh")
            same(listing(d), {**before, out: "merged"}, "files after merging")
            same(given, files, "the list given")
            ctx.outcome("merged")
    with ctx.scratch() as d, modules(pymesh=None):
        for f in FILES:
            put(f, f"solid {f}")
        before = listing(d)
        ctx.op()
        try:
            utilities.merge_stls(list(files), verbosity=0)
        except Exception:
            same(listing(d), before, "files after a refusal")
            ctx.outcome("refused")
            return
        raise Violation("merging without PyMesh is not refused")


def converted(saved, done):
    """The conversions recorded must be those of the files `done`."""
    for out, proxy in saved:
        same(proxy.kind, "Delaunay3D", "kind of the data saved")
        table = proxy.Input
        same(table.kind, "TableToPoints", "input of the triangulation")
        same((table.XColumn, table.YColumn, table.ZColumn), ("x", "y", "z"), "columns used")
        same(table.Input.kind, "CSVReader", "input of the points")
    got = []
    for out, proxy in saved:
        f = proxy.Input.Input.FileName
        for g in [f] if isinstance(f, str) else f:
            got.append((os.path.abspath(g), os.path.abspath(out)))
    want = [(os.path.abspath(f), os.path.abspath(f)[: -len(".csv")] + ".vtu") for f in done]
    same(sorted(got), sorted(want), "conversions")


def run_directory(cfg, ctx):
    names = [ENTRIES[i] for i in cfg[1]]
    mine = [n for n in names if n.endswith(".csv") and os.sep not in n]
    for place, default, times in itertools.product(PLACES, (False, True), (1, 2)):
        if default and place:
            continue
        with ctx.scratch() as d:
            where = os.path.join(d, "data") if place == "absolute" else place
            for n in names:
                put(os.path.join(where, n), f"text of {n}")
            os.makedirs(where or ".", exist_ok=True)
            put("other.csv" if where else os.path.join("elsewhere", "other.csv"), "not this one")
            before = listing(d)
            for _ in range(times):
                saved = []
                p, m = viewer(saved)
                with modules(paraview=p, paraview_simple=m):
                    try:
                        utilities.convert_all_csv_to_delaunay(*([] if default else [where]))
                    except SystemExit as e:
                        if mine or e.code not in (None, 0):
                            raise Violation(f"exits with {e.code!r} for {names}")
                        ctx.outcome("nothing to convert")
                ctx.op()
                done = [os.path.join(where, n) for n in mine]
                converted(saved, done)
                want = dict(before)
                for f in done:
                    want[os.path.relpath(f[: -len(".csv")] + ".vtu", "." if not os.path.isabs(f) else d)] = "grid"
                same(listing(d), {os.path.normpath(k): v for k, v in want.items()}, "files after converting")
            ctx.outcome("directory")


def run_file(cfg, ctx):
    n = ENTRIES[cfg[1]]
    for where in ("", "data", os.path.join("data", "x.csv", "y"), "run[1]", None):
        with ctx.scratch() as d:
            f = os.path.join(d, n) if where is None else os.path.join(where, n)
            put(f, "points")
            put(os.path.join(os.path.dirname(f), "more.csv"), "points")
            saved = []
            p, m = viewer(saved)
            with modules(paraview=p, paraview_simple=m):
                utilities.csv_to_delaunay(f)
            ctx.op()
            converted(saved, [f])
            ctx.outcome("file")
