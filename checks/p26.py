"""P26: the mesh check accepts exactly closed, consistently wound meshes."""

import contextlib
import io
import itertools
from collections import Counter

import numpy as np
from hypervehicle.components.polygon import Cube
from hypervehicle.geometry import Vector3
from stl.mesh import Mesh

import build
import ref
from mc import Violation

PROPERTY = "P26"
BOUNDS = {
    "quick": "tetrahedron, box, octahedron, thin plates, two separate and two edge-sharing tetrahedra; every "
    "assignment of keep/remove/duplicate/flip/flip with its normal kept to up to 3 triangles "
    "(all triangles of the tetrahedron); every vertex copy, vertex and facet and pairs of copies of the small ones moved by "
    "gaps of 0.3-0.45 and 3 times the distance in 8 directions; rows of 2-9 vertices in 26 directions; 3 distances; 4 criteria selections",
    "thorough": "as quick with up to 4 changed triangles and pairs of "
    "vertex copies of every solid",
}
ASSUMPTIONS = ["outside of rows, the coordinates of distinct vertices are equal or farther apart than the distance"]
EDITS = ["remove", "duplicate", "flip", "relist"]


def hull(v, quads=(), tris=()):
    v = np.array(v, float)
    t = list(tris)
    for a, b, c, d in quads:
        t += [(a, b, c), (a, c, d)]
    return v[np.array(t)]


TETV = [(0, 0, 0), (2, 0, 0), (0, 3, 0), (0, 0, 1)]
TET = [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]
BOXV = [(x, y, z) for x in (0, 1) for y in (0, 2) for z in (-1, 2)]
BOXQ = [(0, 1, 3, 2), (4, 6, 7, 5), (0, 4, 5, 1), (2, 3, 7, 6), (0, 2, 6, 4), (1, 5, 7, 3)]
OCTV = [(1, 0, 0), (-1, 0, 0), (0, 2, 0), (0, -2, 0), (0, 0, 3), (0, 0, -3)]
OCT = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]


def solids():
    tet = hull(TETV, tris=TET)
    # the second one shares the edge between (0,0,0) and (0,0,1)
    back = tet * np.array([-1, -1, 1])
    return {
        "tet": tet,
        "box": hull(BOXV, BOXQ),
        "oct": hull(OCTV, tris=OCT),
        "two": np.concatenate([tet, tet + np.array([5, 7, 11])]),
        "hinge": np.concatenate([tet, back]),
        "inward": tet[:, ::-1],
    }


def thin():
    """Sides so small that the sum of all areas hides one of them."""
    box = hull(BOXV, BOXQ)
    unit = (box - box.min(axis=(0, 1))) / (box.max(axis=(0, 1)) - box.min(axis=(0, 1)))
    return {f"plate {i}": unit * np.where(np.arange(3) == i, 2.0**-13, 1024.0) for i in range(3)}


SOLIDS = solids()
THIN = thin()
MOVES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 1), (1, -1, 1)]
GAPS = [0.3, 0.45, 3.0]
DISTANCES = [None, 1e-6, 1e-4, 0.05]


def configs(tier):
    th = tier == "thorough"
    out = []
    for name, t in SOLIDS.items():
        n = len(t)
        most = n if n <= 4 else (4 if th else 3)
        for k in range(0, most + 1):
            if k == 4 and n > 8:
                continue
            for where in itertools.combinations(range(n), k):
                out.append(["check", name, list(where)])
        copies = list(itertools.product(range(n), range(3)))
        for d in range(len(DISTANCES)):
            for c in copies:
                out.append(["gap", name, d, list(c), None])
            if name in ("tet", "oct") or th:
                for a, b in itertools.combinations(copies, 2):
                    out.append(["gap", name, d, list(a), list(b)])
            out.append(["vertex", name, d])
            out.append(["facet", name, d])
        out.append(["grid", name])
    for name in THIN:
        for k in range(0, 3 if th else 2):
            for where in itertools.combinations(range(12), k):
                out.append(["check", name, list(where)])
    for d in range(len(DISTANCES)):
        for ax in itertools.product((-1, 0, 1), repeat=3):
            if any(ax):
                out.append(["row", d, list(ax)])
    for name in ("box", "swept", "cube", "coarse"):
        out.append(["real", name])
    return out


def component(t, normals=None):
    data = np.zeros(len(t), dtype=Mesh.dtype)
    data["vectors"] = t
    c = Cube(1.0, Vector3(0.0, 0.0, 0.0))
    m = Mesh(data)
    if normals is not None:
        m.normals[:] = normals
    c.mesh = m
    return c


def area(t):
    return np.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])


def verdict(t, normals):
    """(normals sum to zero, every edge once in each direction), from exact coordinates."""
    # a facet is wound as its normal says
    w = (area(t) * normals).sum(axis=1)
    e = Counter()
    for tri, s in zip(t, w):
        p = [tuple(float(x) + 0.0 for x in q) for q in tri]
        if s < 0:
            p = p[::-1]
        for i in range(3):
            e[(p[i], p[(i + 1) % 3])] += 1
    closed = all(v == 1 and e.get((b, a), 0) == 1 for (a, b), v in e.items())
    zero = not len(t) or bool(np.abs(normals.sum(axis=0)).max() <= 1e-9 * np.abs(normals).max())
    return zero, closed


def ask(c, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return c.stl_check(*a, **k)


def repair(c, d):
    with contextlib.redirect_stdout(io.StringIO()):
        return c.stl_repair() if d is None else c.stl_repair(d)


def judge(c, zero, closed, what, ctx):
    before = c.mesh.data.copy()
    for args, kw, want in (
        ((), {}, zero and closed),
        ((True, True), {}, zero and closed),
        ((), {"project_area": True, "matching_lines": False}, zero),
        ((), {"project_area": False}, closed),
        ((False, True), {}, closed),
        ((), {"matching_lines": False}, zero),
        ((False, False), {}, True),
    ):
        got = ask(c, *args, **kw)
        if bool(got) is not want:
            raise Violation(
                f"{what}: verdict {got} for criteria {args or kw or 'default'}; normals sum to "
                f"zero: {zero}, edges paired: {closed}"
            )
        ctx.op()
    if c.mesh.data.tobytes() != before.tobytes():
        raise Violation(f"{what}: checking changed the mesh")


def run(cfg, ctx):
    globals()["run_" + cfg[0]](cfg, ctx)
    ctx.state(cfg)
    ctx.trace()


def run_check(cfg, ctx):
    _, name, where = cfg
    base = SOLIDS[name] if name in SOLIDS else THIN[name]
    seen = set()
    for kinds in itertools.product(EDITS, repeat=len(where)):
        edit = dict(zip(where, kinds))
        t, nrm = [], []
        for i, tri in enumerate(base):
            k = edit.get(i)
            n = area(tri[None])[0]
            if k == "remove":
                continue
            if k == "flip":
                tri, n = tri[::-1], -n
            if k == "relist":
                tri = tri[::-1]
            for _ in range(2 if k == "duplicate" else 1):
                t.append(tri)
                nrm.append(n)
        if not t:
            continue
        t, nrm = np.array(t), np.array(nrm)
        zero, closed = verdict(t, nrm)
        seen.add((zero, closed))
        # the order of the triangles and of their corners makes no difference
        for turn in (0, 1, 2):
            o = np.roll(np.arange(len(t)), turn * 2)
            judge(component(np.roll(t[o], turn, axis=1), nrm[o]), zero, closed, f"{name} {edit}", ctx)
        ctx.state((name, sorted(edit.items())))
    for s in seen:
        ctx.outcome(f"zero {s[0]} closed {s[1]}")


def facet_normals(c, what):
    m = c.mesh
    t = np.asarray(m.vectors, float)
    if np.abs(np.asarray(m.normals, float) - area(t)).max() > 1e-5 * max(1, np.abs(area(t)).max()):
        raise Violation(f"{what}: the facet normals do not match the repaired vertices")


def compare(base, shift, d, name, what, ctx):
    """Repair the solid with its vertex copies moved by multiples of d."""
    dist = 1e-6 if d is None else d
    exact = (base + shift * dist).astype(np.float32)
    c = component(exact)
    if np.any(shift) and dist > 1e-5:
        moved = exact.astype(float)
        _, closed = verdict(moved, area(moved))
        if ask(c, False, True) is not closed:
            raise Violation(f"{what}: the split mesh is judged {not closed}")
    repair(c, d)
    got = np.asarray(c.mesh.vectors, float)
    if got.shape != base.shape:
        raise Violation(f"{what}: {got.shape} instead of {base.shape}")
    eps = 4e-7 * max(1.0, np.abs(base).max())
    far = np.abs(got - exact).max()
    if far > dist + eps:
        raise Violation(f"{what}: a vertex moved by {far}")
    flat, g = exact.reshape(-1, 3).astype(float), got.reshape(-1, 3)
    gap = np.abs(flat[:, None] - flat[None]).max(axis=2)
    near = gap < 1.3 * dist
    same = np.all(g[:, None] == g[None], axis=2)
    must = gap < 0.9 * dist
    if np.any(must & ~same):
        i, j = np.argwhere(must & ~same)[0]
        raise Violation(f"{what}: vertices {flat[i]} and {flat[j]} stay apart")
    if np.any(~near & same):
        i, j = np.argwhere(~near & same)[0]
        raise Violation(f"{what}: vertices {flat[i]} and {flat[j]} were joined")
    alone = near.sum(axis=1) == 1
    if np.any(g[alone] != flat[alone]):
        raise Violation(f"{what}: an isolated vertex moved")
    # joined ones meet in the middle of where they were
    for i in range(len(g)):
        m = flat[near[i]]
        if np.any(g[i] < m.min(axis=0) - eps) or np.any(g[i] > m.max(axis=0) + eps):
            raise Violation(f"{what}: vertex {flat[i]} became {g[i]}")
    facet_normals(c, what)
    small = np.abs(shift).max() < 1
    if small:
        if name != "hinge" and not ask(c):
            raise Violation(f"{what}: the repaired mesh does not pass the check")
        if name == "hinge" and ask(c, False, True):
            raise Violation(f"{what}: a mesh with doubled edges passes the check")
    before = c.mesh.vectors.copy()
    repair(c, d)
    if np.abs(c.mesh.vectors - before).max() > eps:
        raise Violation(f"{what}: repairing again moved a vertex")
    ctx.op(4)


def run_gap(cfg, ctx):
    _, name, d, a, b = cfg
    base, dist = SOLIDS[name], DISTANCES[d]
    if b is None:
        options = [((m, g),) for m in range(len(MOVES)) for g in GAPS]
    else:
        options = [((m, g), (m2, g2)) for m in (0, 4, 6) for m2 in (1, 3, 7) for g in (0.45, 3.0) for g2 in (0.3,)]
    for o in options:
        shift = np.zeros_like(base)
        for at, (m, g) in zip((a, b), o):
            shift[at[0], at[1]] += g * np.array(MOVES[m])
        compare(base, shift, dist, name, f"{name} with {a} {b} moved by {o} of {dist}", ctx)
    ctx.outcome("gap")


def run_vertex(cfg, ctx):
    """All copies of a vertex move together: nothing splits, and nothing joins."""
    _, name, d = cfg
    base, dist = SOLIDS[name], DISTANCES[d]
    for v in np.unique(base.reshape(-1, 3), axis=0):
        for m in MOVES:
            for g in GAPS:
                shift = np.all(base == v, axis=2)[..., None] * g * np.array(m, float)
                compare(base, shift, dist, name, f"{name} with vertex {v} moved by {g} {m}", ctx)
    ctx.outcome("vertex")


def run_facet(cfg, ctx):
    """Whole facets come loose, alone and all of them by different gaps."""
    _, name, d = cfg
    base, dist = SOLIDS[name], DISTANCES[d]
    for i in range(len(base)):
        for m in MOVES:
            for g in GAPS:
                shift = np.zeros_like(base)
                shift[i] = g * np.array(m)
                compare(base, shift, dist, name, f"{name} with facet {i} moved by {g} {m}", ctx)
    for turn in range(len(MOVES)):
        shift = np.zeros_like(base)
        for i in range(len(base)):
            shift[i] = 0.4 * np.array(MOVES[(i + turn) % len(MOVES)]) * (0.5 if i % 2 else 1)
        compare(base, shift, dist, name, f"{name} with all facets moved", ctx)
    ctx.outcome("facet")


def run_grid(cfg, ctx):
    """A sound mesh is not touched by a repair, whatever the distance."""
    _, name = cfg
    for dist in (None, 1e-9, 1e-6, 1e-3, 0.1, 0.4):
        c = component(SOLIDS[name])
        repair(c, dist)
        got = np.asarray(c.mesh.vectors, float)
        if np.abs(got - SOLIDS[name]).max() > 1e-6 * np.abs(SOLIDS[name]).max():
            raise Violation(f"repairing a sound mesh with {dist} moved a vertex")
        facet_normals(c, name)
        ctx.op()
    ctx.outcome("sound")


def run_row(cfg, ctx):
    """Vertices in a row, each close to the next: none travels along the row."""
    _, d, ax = cfg
    dist = DISTANCES[d] or 1e-6
    for n, step in itertools.product(range(2, 10), (0.3, 0.6, 0.9)):
        t = np.zeros((n, 3, 3))
        t[:, 1] = (1, 0, 0)
        t[:, 2] = (0, 2, 0)
        t[:, 0] = -0.5 + step * dist * np.arange(n)[:, None] * np.array(ax)
        exact = t.astype(np.float32)
        c = component(exact)
        repair(c, DISTANCES[d])
        far = np.abs(np.asarray(c.mesh.vectors, float) - exact).max()
        if far > dist + 4e-7:
            raise Violation(f"{n} vertices {step * dist} apart: a vertex moved by {far}")
        ctx.op()
    ctx.outcome("row")


def run_real(cfg, ctx):
    """The mesh of a real component, made by the component itself."""
    _, name = cfg
    if name in ("cube", "coarse"):
        c = Cube(0.5, Vector3(0.0, 0.0, 0.0))
        c.stl_resolution = 2 if name == "coarse" else 4
    else:
        c = build.COMPONENTS["swept"]()
        c.stl_resolution = 3 if name == "box" else 5
    c.generate_patches()
    with contextlib.redirect_stdout(io.StringIO()):
        c.surface()
        m = c.mesh
    t = np.asarray(m.vectors, float)
    scale = np.abs(t).max()
    repair(c, 1e-3 * scale)
    got = np.asarray(c.mesh.vectors, float)
    if np.abs(got - t).max() > 1e-3 * scale:
        raise Violation(f"{name}: repair moved a vertex by {np.abs(got - t).max()}")
    facet_normals(c, name)
    if not ask(c):
        raise Violation(f"{name}: a closed component does not pass the check after repair")
    # open it
    data = c.mesh.data[1:].copy()
    c.mesh = Mesh(data)
    if ask(c) or ask(c, True, False) or ask(c, False, True):
        raise Violation(f"{name}: the component passes the check without its first triangle")
    ctx.op(5)
    ctx.outcome("real")
