"""Reference model: plain NumPy geometry, independent of the code under test."""

import numpy as np

AX = {"x": 0, "y": 1, "z": 2}
REL = 2e-5  # relative tolerance for single precision meshes


def P(v):
    """Coordinates of a Vector3 of the code under test."""
    return np.array([float(v.x), float(v.y), float(v.z)])


def rotm(axis, rad):
    c, s = np.cos(rad), np.sin(rad)
    return {
        "x": np.array([[1, 0, 0], [0, c, -s], [0, s, c]]),
        "y": np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]),
        "z": np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]),
    }[axis]


# Point maps ---------------------------------------------------------------
def rot(axis, deg, point=(0, 0, 0)):
    m, c = rotm(axis, np.deg2rad(deg)), np.array(point, float)
    return lambda p: (np.asarray(p) - c) @ m.T + c


def mirror(axis):
    d = np.ones(3)
    d[AX[axis]] = -1
    return lambda p: np.asarray(p) * d


def offset(fn):
    """fn(x, y, z) -> 3 numbers."""

    def g(p):
        p = np.asarray(p, float)
        q = p.reshape(-1, 3)
        o = np.array([fn(*x) for x in q])
        return (q + o).reshape(p.shape)

    return g


def curve(direction, fun, dash):
    def one(p):
        x, y, z = p
        o, a = fun(x, y), np.arctan(dash(x, y))
        if direction == "x":
            return [x - z * np.sin(a), y, z * np.cos(a) + o]
        return [x, y - z * np.sin(a), z * np.cos(a) + o]

    def g(p):
        p = np.asarray(p, float)
        return np.array([one(q) for q in p.reshape(-1, 3)]).reshape(p.shape)

    return g


def compose(maps):
    def g(p):
        for m in maps:
            p = m(p)
        return p

    return g


# Surfaces -----------------------------------------------------------------
def sample(surf, rs, ss):
    """Grid of points of a surface of the code under test."""
    return np.array([[P(surf(r, s)) for s in ss] for r in rs])


def grid(fn, rs, ss):
    return np.array([[fn(r, s) for s in ss] for r in rs], float)


def tess(g):
    """Triangles of a grid of corner points, cell by cell."""
    g = np.asarray(g, float)
    out = []
    for i in range(g.shape[0] - 1):
        for j in range(g.shape[1] - 1):
            a, b, c, d = g[i, j], g[i + 1, j], g[i + 1, j + 1], g[i, j + 1]
            m = (a + b + c + d) / 4
            out += [[a, b, m], [b, c, m], [c, d, m], [d, a, m]]
    return np.array(out)


def tol(*arrays):
    s = max([1.0] + [float(np.max(np.abs(a))) for a in arrays if np.size(a)])
    return REL * s


def close(a, b, t=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    t = tol(a, b) if t is None else t
    return bool(np.max(np.abs(a - b)) <= t)


def _canon(tri, t):
    """Cyclic canonical form of a triangle on a rounded key."""
    k = [tuple(np.round(v / (50 * t)).astype(int)) for v in tri]
    i = min(range(3), key=lambda n: k[n])
    return np.roll(tri, -i, axis=0)


def same_triangles(a, b, t=None):
    """The same triangles with the same winding, in any order."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if close(a, b, t):
        return True
    t = tol(a, b) if t is None else t
    used = np.zeros(len(b), bool)
    for x in a:
        ok = False
        for s in range(3):
            y = np.roll(x, s, axis=0)
            m = (np.abs(b - y).max(axis=(1, 2)) <= t) & ~used
            w = np.where(m)[0]
            if len(w):
                used[w[0]] = True
                ok = True
                break
        if not ok:
            return False
    return True


def worst(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape}"
    d = np.abs(a - b)
    if d.size == 0:
        return "empty"
    if np.isnan(d).any():
        i = np.unravel_index(np.argmax(np.isnan(d)), d.shape)
        return f"not comparable at {tuple(int(x) for x in i)}: {a[i]!r} vs {b[i]!r}"
    i = np.unravel_index(np.nanargmax(d), d.shape)
    return f"max difference {np.nanmax(d):.3g} at {tuple(int(x) for x in i)}: {a[i]!r} vs {b[i]!r}"


# Solids -------------------------------------------------------------------
def solid(tri, density=1.0):
    """Volume, mass, centre of gravity and inertia about it of the solid inside
    a closed triangulated surface (signed tetrahedra)."""
    tri = np.asarray(tri, float)
    o = tri.reshape(-1, 3).mean(axis=0)
    a, b, c = tri[:, 0] - o, tri[:, 1] - o, tri[:, 2] - o
    det = np.einsum("ij,ij->i", a, np.cross(b, c))
    vol = det.sum() / 6
    cog = (det[:, None] * (a + b + c)).sum(axis=0) / 24 / vol
    # second moments: integral of x_i x_j
    s = a + b + c
    M = (
        np.einsum("t,ti,tj->ij", det, a, a)
        + np.einsum("t,ti,tj->ij", det, b, b)
        + np.einsum("t,ti,tj->ij", det, c, c)
        + np.einsum("t,ti,tj->ij", det, s, s)
    ) / 120
    M = M - vol * np.outer(cog, cog)
    I = density * (np.trace(M) * np.eye(3) - M)
    return vol, density * vol, cog + o, I


def area(tri):
    tri = np.asarray(tri, float)
    return float(
        np.linalg.norm(
            np.cross(tri[:, 1] - tri[:, 0], tri[:, 2] - tri[:, 0]), axis=1
        ).sum()
        / 2
    )


# Mesh topology ------------------------------------------------------------
def weld(points, t):
    """Index of the cluster of points closer than t to each other (chains)."""
    from scipy.spatial import cKDTree

    pts = np.asarray(points, float)
    tree = cKDTree(pts)
    parent = np.arange(len(pts))

    def root(i):
        while parent[i] != i:
            parent[i] = parent[parent[i]]
            i = parent[i]
        return i

    for i, j in tree.query_pairs(t, output_type="ndarray"):
        a, b = root(i), root(j)
        if a != b:
            parent[b] = a
    return np.array([root(i) for i in range(len(pts))])


def edges(tri, t):
    """(odd, unbalanced, used, degenerate): undirected edges with an odd number of
    triangles, edges not used equally in both directions, triangles used."""
    tri = np.asarray(tri, float)
    ids = weld(tri.reshape(-1, 3), t).reshape(-1, 3)
    und, dire = {}, {}
    used = degen = 0
    for (a, b, c) in ids:
        if len({a, b, c}) < 3:
            degen += 1
            continue
        used += 1
        for p, q in ((a, b), (b, c), (c, a)):
            und[frozenset((p, q))] = und.get(frozenset((p, q)), 0) + 1
            dire[(p, q)] = dire.get((p, q), 0) + 1
    odd = [e for e, n in und.items() if n % 2]
    unb = [e for e, n in dire.items() if dire.get((e[1], e[0]), 0) != n]
    pts = tri.reshape(-1, 3)
    show = [[pts[i].round(4).tolist() for i in e] for e in odd[:2]]
    return len(odd), len(unb), used, degen, show
