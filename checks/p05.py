"""P05: the mesh does not depend on how patch work is scheduled."""

import itertools
import time

import numpy as np
from hypervehicle.components import RevolvedComponent, SweptComponent
from hypervehicle.geometry import Line
from hypervehicle.geometry.surface import ParametricSurface

import build
import pool
import ref
from mc import Violation

PROPERTY = "P05"
TIMEOUT = 200
BOUNDS = {
    "quick": "all execution and completion orders of up to 5 patch tasks (with and without "
    "pickled arguments); a second component meshed at every point of the first "
    "one's task sequence; every per-edge resolution of 1-3 of a swept body with and "
    "without reflection and clustering, serial, pooled and in reverse; serial against "
    "pooled meshes of every component type with and without clustering; all sequences of up to 4 mesh requests on 3 components; "
    "real worker pools of 1-4 processes with all 6 forced finishing orders of 3 "
    "patches and the default pool on every component type",
    "thorough": "as quick with all orders of 6 patch tasks, sequences of 5 requests and "
    "real pools of 1-8 processes with all 24 finishing orders of 4 patches",
}
ASSUMPTIONS = [
    "tasks of one pool do not share memory; the in-process executor runs each task "
    "atomically, real processes are exercised with forced finishing orders"
]


def prism(n, x0=0.0, res=1):
    """Open swept body with n patches."""
    secs = []
    for x in (0.0, 1.0):
        pts = []
        for i in range(n):
            a = 0.4 + 2 * np.pi * i / n
            pts.append((x0 + x, (1 + 0.2 * i) * np.cos(a), (1 + 0.1 * x) * np.sin(a)))
        secs.append(build.quad(pts))
    return SweptComponent(secs, close_ends=False, stl_resolution=res, verbosity=0)


def FI(t):
    return t * t


def FJ(t):
    return 1 - (1 - t) ** 3


def clustering(which):
    return {f"{w}_clustering_func": {"i": FI, "j": FJ}[w] for w in which}


def configs(tier):
    th = tier == "thorough"
    out = []
    for n in range(3, 7 if th else 6):
        for order in itertools.permutations(range(n)):
            for iso in (False, True):
                if n == 6 and iso:
                    continue
                out.append(["order", n, list(order), iso])
    for order in itertools.permutations(range(4)):
        out.append(["revolved", 4, list(order), True])
    # meshing another component in the middle of a component's tasks
    for n, m in itertools.product((3, 4, 5), (3, 4)):
        for at in range(n):
            for again in (False, True):
                out.append(["nested", n, m, at, again])
    # sequences of requests on three components
    req = ["m0", "m1", "m2", "s0", "s1", "g", "r0"]
    for k in range(1, 6 if th else 5):
        for seq in itertools.product(req, repeat=k):
            if k == 5 and len(set(seq)) < 3:
                continue
            out.append(["requests", list(seq)])
    # task by task in the same process
    for kind in build.COMPONENTS:
        out.append(["serial", kind])
    # unequal resolutions, clustering and reflections, by every executor
    for s, a, b in itertools.product((1, 2, 3), repeat=3):
        for refl in (False, True):
            for clus in (False, True):
                for how in ("serial", "pooled", "reversed"):
                    out.append(["unequal", s, a, b, refl, clus, how])
    for kind in build.COMPONENTS:
        for clus in ("i", "j", "ij"):
            out.append(["clustered", kind, clus])
    # real worker processes
    for procs in (1, 2, 3, 4) + ((5, 8) if th else ()):
        for order in itertools.permutations(range(4 if th else 3)):
            out.append(["real", procs, list(order)])
    for kind in build.COMPONENTS:
        out.append(["default", kind])
    return out


def expected(c, n):
    """Patches one after another in patch order."""
    rs = np.linspace(0, 1, n + 1)
    return np.concatenate([ref.tess(ref.sample(p, rs, rs)) for p in c.patches.values()])


def compare(c, n, what):
    got = np.asarray(c.mesh.vectors, float)
    want = expected(c, n)
    if not ref.close(got, want):
        raise Violation(f"{what}: {ref.worst(got, want)}")


class Delayed(ParametricSurface):
    """A patch whose evaluation takes time, to force finishing orders."""

    def __init__(self, patch, delay):
        self.patch, self.delay = patch, delay

    def __repr__(self):
        return "delayed"

    def __call__(self, r, s):
        if r == 0 and s == 0:
            time.sleep(self.delay)
        return self.patch(r, s)


class Pools:
    """Sets the executor's schedule for the duration of a block."""

    def __init__(self, **k):
        self.k = k

    def __enter__(self):
        for n, x in self.k.items():
            setattr(pool, n, x)

    def __exit__(self, *a):
        pool.ORDER = pool.BETWEEN = None
        pool.ISOLATE = False


def generated(*comps):
    v = build.vehicle()
    for c in comps:
        v.add_component(c)
    v.generate()
    return v


def run(cfg, ctx):
    t = cfg[0]
    if t in ("order", "revolved"):
        _, n, order, iso = cfg
        c = prism(n) if t == "order" else build.revolved(res=1)
        generated(c)
        pool.LOG.clear()
        with Pools(ORDER=lambda k: order if k == n else range(k), ISOLATE=iso):
            compare(c, 1, f"order {order}")
        ctx.op(n)
        ctx.outcome("scheduled" if n in pool.LOG else "not pooled")
    elif t == "nested":
        _, n, m, at, again = cfg
        a, b = prism(n), prism(m, 5.0)
        generated(a, b)
        if again:
            b.mesh
        busy = []

        def between(k):
            if k == at and not busy:
                busy.append(1)
                b.surface()
                b.mesh

        with Pools(BETWEEN=between):
            compare(a, 1, "outer component")
        compare(b, 1, "inner component")
        ctx.op(n + m)
        ctx.outcome("nested" if busy else "not pooled")
    elif t == "requests":
        cs = [prism(3), prism(4, 5.0, 2), build.revolved(res=1)]
        res = [1, 2, 1]
        v = generated(*cs)
        for r in cfg[1]:
            if r == "g":
                v.generate()
            elif r == "r0":
                cs[0].rotate(10, "x")
            elif r[0] == "m":
                compare(cs[int(r[1])], res[int(r[1])], f"request {r}")
            else:
                cs[int(r[1])].surface()
            ctx.op()
        for i, c in enumerate(cs):
            compare(c, res[i], f"component {i}")
        ctx.outcome("requests")
    elif t == "serial":
        kind = cfg[1]
        c, d = build.COMPONENTS[kind](res=1), build.COMPONENTS[kind](res=1)
        generated(c)
        generated(d)
        if hasattr(d, "_multiprocess"):
            d._multiprocess = False
        compare(d, 1, "serial mesh")
        compare(c, 1, "pooled mesh")
        if not np.array_equal(c.mesh.vectors, d.mesh.vectors):
            raise Violation("serial and pooled meshes differ")
        ctx.op(2)
        ctx.outcome("serial")
    elif t == "unequal":
        _, s, a, b, refl, clus, how = cfg
        c = build.swept(dict(sweep=s, e0=a, e1=b, e2=a, e3=b), sections=2)
        v = build.vehicle()
        k = dict(reflection_axis="y") if refl else {}
        if clus:
            k["clustering"] = clustering("ij")
        v.add_component(c, **k)
        v.generate()
        sizes = ([(s, a), (s, b)] * 2 + [(a, b)] * 2) * (2 if refl else 1)
        want = []
        for p, (i, j) in zip(c.patches.values(), sizes):
            r, q = np.linspace(0, 1, i + 1), np.linspace(0, 1, j + 1)
            if clus:
                r, q = FI(r), FJ(q)
            want.append(ref.tess(ref.sample(p, r, q)))
        want = np.concatenate(want)
        if how == "serial":
            c._multiprocess = False
        with Pools(ORDER=(lambda k: range(k - 1, -1, -1)) if how == "reversed" else None):
            got = np.asarray(c.mesh.vectors, float)
        if not ref.close(got, want):
            raise Violation(f"{how}: {ref.worst(got, want)}")
        ctx.op()
        ctx.outcome("unequal")
    elif t == "clustered":
        _, kind, which = cfg
        both = []
        for multi in (True, False):
            c = build.COMPONENTS[kind](res=2)
            v = build.vehicle()
            v.add_component(c, clustering=clustering(which))
            v.generate()
            if not multi:
                c._multiprocess = False
            both.append(np.asarray(c.mesh.vectors, float))
        if both[0].shape != both[1].shape or not np.array_equal(*both):
            raise Violation(f"serial and pooled meshes differ: {ref.worst(*both)}")
        ctx.op(2)
        ctx.outcome("clustered")
    elif t == "real":
        _, procs, order = cfg
        import multiprocess.pool as mpp

        n = len(order)
        c = prism(n) if n > 2 else None
        generated(c)
        plain = dict(c.patches)
        want = expected(c, 1)
        # patch order[k] finishes k-th
        for k, i in enumerate(order):
            key = list(plain)[i]
            c.patches[key] = Delayed(plain[key], 0.08 * k)
        pool.uninstall()
        init = mpp.Pool.__init__
        created = []

        def sized(self, processes=None, *a, **kw):
            init(self, procs, *a, **kw)
            created.append(self)

        mpp.Pool.__init__ = sized
        try:
            got = np.asarray(c.mesh.vectors, float)
        finally:
            for p in created:
                p.terminate()
            mpp.Pool.__init__ = init
            pool.install()
        if not ref.close(got, want):
            raise Violation(f"{procs} processes, order {order}: {ref.worst(got, want)}")
        ctx.op(n)
        ctx.outcome("real pool" if created else "not pooled")
    elif t == "default":
        import multiprocess.pool as mpp

        c = build.COMPONENTS[cfg[1]](res=1)
        generated(c)
        want = expected(c, 1)
        pool.uninstall()
        init = mpp.Pool.__init__
        created = []

        def remember(self, *a, **kw):
            init(self, *a, **kw)
            created.append(self)

        mpp.Pool.__init__ = remember
        try:
            got = np.asarray(c.mesh.vectors, float)
        finally:
            for p in created:
                p.terminate()
            mpp.Pool.__init__ = init
            pool.install()
        if not ref.close(got, want):
            raise Violation(f"default pool: {ref.worst(got, want)}")
        ctx.op(len(c.patches))
        ctx.outcome("real pool" if created else "not pooled")
    ctx.state(cfg)
    ctx.trace()
