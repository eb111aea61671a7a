"""P25: vector arithmetic, all operation sequences on a set of registers."""

import copy
import itertools
import operator

import numpy as np
from hypervehicle.geometry import Vector3
from hypervehicle.geometry.vector import approximately_equal_vectors, cross_product

from mc import Violation

PROPERTY = "P25"
S2 = float(np.sqrt(0.5))

# Initial register contents: Python ints, floats, NumPy scalars, mixed
VALUES = {
    "f": (1.5, -2.0, 0.25),
    "i": (3, -1, 2),
    "np": (np.float64(0.5), np.float64(2.0), np.float64(-4.0)),
    "mix": (2, 0.5, np.float64(-1.25)),
    "i64": (np.int64(1), np.int64(-2), np.int64(5)),
    "f32": (np.float32(0.5), np.float32(-0.75), np.float32(8)),
    "zero": (0, 0.0, 0),
}
SCALARS = {
    "2": 2,
    "-0.5": -0.5,
    "n3": np.float64(3.0),
    "ni": np.int64(-2),
    "nf": np.float32(0.25),
}
FRAMES = {
    "id": ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "cyc": ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
    "rz": ((S2, S2, 0), (-S2, S2, 0), (0, 0, 1)),
    "gen": ((1 / 3, 2 / 3, 2 / 3), (2 / 3, 1 / 3, -2 / 3), (-2 / 3, 2 / 3, -1 / 3)),
}
ORIGIN = (0.5, -1.0, 2.0)

OPS = (
    ["neg", "add", "sub", "addself", "copy", "deepcopy", "ctor", "fromc", "unit"]
    + [f"mul:{s}" for s in SCALARS]
    + [f"rmul:{s}" for s in ("2", "-0.5", "n3")]
    + [f"div:{s}" for s in SCALARS]
    + [f"imul:{s}" for s in SCALARS]
    + [f"idiv:{s}" for s in SCALARS]
    + ["iadd", "isub", "normalize", "cross"]
    + [f"glob:{f}" for f in FRAMES]
    + [f"globc:{f}" for f in FRAMES]
    + [f"loc:{f}" for f in FRAMES]
    + [f"locc:{f}" for f in FRAMES]
)

SCALES = [1e-100, 1e-30, 1e-12, 1e-8, 1e-4, 1.0, 1e5, 1e11, 1e30, 1e100]

BOUNDS = {
    "quick": "all sequences of up to 2 of %d vector operations on 3 registers, all "
    "register pairs, 7 initial value kinds; single operations on vectors of 10 x 10 magnitudes" % len(OPS),
    "thorough": "all sequences of up to 3 operations on 3 registers",
}


def configs(tier):
    out = [["ctor", k] for k in VALUES] + [["array"], ["errors"], ["near"]]
    out += [["scale", a, b] for a in SCALES for b in SCALES]
    kinds = list(VALUES)
    for k in kinds:
        for a in OPS:
            out.append(["seq", k, [a]])
    for k in kinds if tier == "thorough" else ["f", "i", "np", "f32", "i64"]:
        for a, b in itertools.product(OPS, OPS):
            out.append(["seq", k, [a, b]])
    if tier == "thorough":
        for k in ("mix", "i"):
            for a, b in itertools.product(OPS, OPS):
                out.append(["seq3", k, [a, b]])
    return out


TIGHT = [None]


def ok(v, m, what):
    got = np.array([float(v.x), float(v.y), float(v.z)])
    # single precision operands are among the alphabet
    r = 1e-5 if TIGHT[0] is None else 1e-12
    t = 0.2 * r * (1 + float(np.max(np.abs(m))))
    if got.shape != np.shape(m) or not np.allclose(got, m, rtol=r, atol=t):
        raise Violation(f"{what}: got {got}, expected {m}")


class Machine:
    """Two operand registers a, b and a result register; the model holds arrays."""

    def __init__(self, kind):
        a = VALUES[kind]
        b = (0.75, 2.0, -1.0)
        self.r = [Vector3(*a), Vector3(*b)]
        self.m = [np.array([float(c) for c in a]), np.array(b)]

    def frame(self, name):
        return [Vector3(*[float(c) for c in f]) for f in FRAMES[name]]

    def step(self, op):
        """Applies op to register 0 (and 1); the result replaces register 0 and
        the previous register 0 is kept to see that it did not change."""
        name, _, arg = op.partition(":")
        a, b = self.r[0], self.r[1]
        ma, mb = self.m[0], self.m[1]
        inplace = False
        extra = []
        if name in ("unit", "normalize") and not np.any(ma):
            return False
        if name == "neg":
            res, m = -a, -ma
        elif name == "add":
            res, m = a + b, ma + mb
        elif name == "sub":
            res, m = a - b, ma - mb
        elif name == "addself":
            res, m = a + a, ma + ma
        elif name == "copy":
            res, m = copy.copy(a), ma
        elif name == "deepcopy":
            res, m = copy.deepcopy(a), ma
        elif name == "ctor":
            res, m = Vector3(a), ma
        elif name == "fromc":
            res, m = Vector3.from_coordinates(a.vec), ma
        elif name == "unit":
            res, m = a.unit, ma / np.linalg.norm(ma)
        elif name == "mul":
            s = SCALARS[arg]
            res, m = a * s, ma * float(s)
        elif name == "rmul":
            s = SCALARS[arg]
            res, m = s * a, ma * float(s)
        elif name == "div":
            s = SCALARS[arg]
            res, m = a / s, ma / float(s)
        elif name in ("imul", "idiv"):
            s = SCALARS[arg]
            res = a
            if name == "imul":
                res *= s
                m = ma * float(s)
            else:
                res /= s
                m = ma / float(s)
            inplace = True
        elif name in ("iadd", "isub"):
            res = a
            if name == "iadd":
                res += b
                m = ma + mb
            else:
                res -= b
                m = ma - mb
            # may or may not be in place; only the value is claimed
            self.r[0], self.m[0] = res, m
            ok(res, m, op)
            ok(b, mb, op + " right operand")
            return True
        elif name == "normalize":
            a.normalize()
            res, m, inplace = a, ma / np.linalg.norm(ma), True
        elif name == "cross":
            res, m = cross_product(a, b), np.cross(ma, mb)
        elif name in ("glob", "globc"):
            f = self.frame(arg)
            F = np.array(FRAMES[arg], float)
            c = Vector3(*ORIGIN) if name == "globc" else None
            before = [np.array([q.x, q.y, q.z]) for q in f]
            res = a.transform_to_global_frame(f[0], f[1], f[2], *([c] if c else []))
            m = ma @ F + (np.array(ORIGIN) if c else 0)
            inplace = True
            extra = list(zip(f, before)) + ([(c, np.array(ORIGIN))] if c else [])
        elif name in ("loc", "locc"):
            f = self.frame(arg)
            F = np.array(FRAMES[arg], float)
            c = Vector3(*ORIGIN) if name == "locc" else None
            before = [np.array([q.x, q.y, q.z]) for q in f]
            res = a.transform_to_local_frame(f[0], f[1], f[2], *([c] if c else []))
            m = F @ (ma - (np.array(ORIGIN) if c else 0))
            inplace = True
            extra = list(zip(f, before)) + ([(c, np.array(ORIGIN))] if c else [])
        else:
            raise KeyError(op)
        if not isinstance(res, Vector3):
            raise Violation(f"{op} returned {type(res)}")
        if inplace:
            if res is not a:
                raise Violation(f"{op} returned another object")
            ok(a, m, op)
            self.m[0] = m
        else:
            if res is a or res is b:
                raise Violation(f"{op} returned its operand instead of a new vector")
            ok(res, m, op)
            ok(a, ma, op + " changed its operand")
            # the new vector is independent of the old one
            keep = copy.deepcopy(res)
            a *= 3
            ok(res, m, op + " result shares state with its operand")
            self.r[0], self.m[0] = keep, m
        ok(b, mb, op + " changed its right operand")
        for obj, val in extra:
            ok(obj, val, op + " changed its argument")
        return True

    def observe(self):
        a, b = self.r
        ma, mb = self.m

        def num(x, y, what):
            r = 1e-5 if TIGHT[0] is None else 1e-11
            if not np.allclose(float(x), y, rtol=r, atol=r * (1 + np.linalg.norm(ma) * (1 + np.linalg.norm(mb)))):
                raise Violation(f"{what}: got {x}, expected {y}")

        num(a.dot(b), ma @ mb, "dot")
        num(abs(a), np.linalg.norm(ma), "abs")
        num(a.norm, np.linalg.norm(ma), "norm")
        ok(cross_product(a, b), np.cross(ma, mb), "cross_product")
        ok(cross_product(b, a), np.cross(mb, ma), "cross_product")
        if np.shape(a.vec) != (3,) or not np.allclose(
            a.vec, ma, rtol=1e-5 if TIGHT[0] is None else 1e-11, atol=2e-5 if TIGHT[0] is None else 1e-11
        ):
            raise Violation(f"vec: got {a.vec}, expected {ma}")
        if not bool(a == Vector3(a)):
            raise Violation("a copy is not equal to its original")
        for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
            if bool(a == a + Vector3(*d)) or not bool(a != a + Vector3(*d)):
                raise Violation(f"equal to itself displaced by {d}")
            if bool(approximately_equal_vectors(a, a + 9.0 * (1 + abs(a)) * Vector3(*d))):
                raise Violation(f"approximately equal to a vector displaced along {d}")
        if not bool(approximately_equal_vectors(a, a + Vector3(1e-7, -1e-7, 1e-7))):
            raise Violation("not approximately equal to a nearly equal vector")
        ok(a, ma, "observation changed the vector")
        ok(b, mb, "observation changed the other vector")


def near(ctx):
    """Approximate equality: relative to the second vector, plus an absolute part."""
    for i, base, rel, ab in itertools.product(range(3), (0.0, 1.0, -50.0, 1e4), (None, 1e-6, 0.2), (None, 1e-9, 0.5)):
        k = {}
        if rel is not None:
            k["rel_tol"] = rel
        if ab is not None:
            k["abs_tol"] = ab
        lim = (1e-5 if ab is None else ab) + (1e-2 if rel is None else rel) * abs(base)
        for f, sign in itertools.product((0.0, 0.9, 1.1, 30.0), (1, -1)):
            p = [2.0, 2.0, 2.0]
            q = list(p)
            p[i] = base
            q[i] = base + sign * f * lim
            got = bool(approximately_equal_vectors(Vector3(*q), Vector3(*p), **k))
            if got is not (f < 1):
                raise Violation(f"{q} and {p}: approximately equal {got} with {k}")
            ctx.op()
    # equality is not approximate
    for i, d, base in itertools.product(range(3), (1e-3, 1e-6, 1e-9, 1e-12), (0.0, 0.5, -2.0)):
        p = [base] * 3
        q = list(p)
        q[i] += d
        p, q = Vector3(*p), Vector3(*q)
        if bool(p == q) or bool(q == p) or not bool(p != q):
            raise Violation(f"vectors {d} apart are equal")
        ctx.op(3)


def scale(cfg, ctx):
    """Small and large vectors: every operation is relative to their size."""
    _, f, g = cfg
    dirs = [(1.0, -2.0, 0.5), (0.0, 3.0, 0.0), (-0.25, 0.125, 4.0)]

    def close(got, want, size, what):
        got = np.array([float(got.x), float(got.y), float(got.z)]) if isinstance(got, Vector3) else float(got)
        if not np.all(np.abs(got - want) <= 1e-12 * size):
            raise Violation(f"{what} of magnitudes {f}, {g}: {got} instead of {want}")
        ctx.op()

    for p, q in itertools.product(dirs, repeat=2):
        A, B = f * np.array(p), g * np.array(q)
        a, b = Vector3(*A), Vector3(*B)
        na, nb = f * np.linalg.norm(p), g * np.linalg.norm(q)
        close(a + b, A + B, na + nb, "sum")
        close(a - b, A - B, na + nb, "difference")
        close(-a, -A, na, "negative")
        close(abs(a), na, na, "magnitude")
        close(a.norm, na, na, "norm")
        close(a.unit, A / na, 1.0, "unit vector")
        close(a.dot(b), f * g * np.dot(p, q), na * nb, "dot product")
        close(cross_product(a, b), f * g * np.cross(p, q), na * nb, "cross product")
        close(a * g, A * g, na * g, "product")
        close(g * a, A * g, na * g, "product")
        close(a / g, A / g, na / g, "quotient")
        for F in FRAMES.values():
            fr = [Vector3(*[float(c) for c in row]) for row in F]
            close(Vector3(a).transform_to_global_frame(*fr), np.array(F, float).T @ A, na, "to global frame")
            close(Vector3(a).transform_to_local_frame(*fr), np.array(F, float) @ A, na, "to local frame")
        c = Vector3(a)
        c.normalize()
        close(c, A / na, 1.0, "normalised vector")
        c = Vector3(a)
        c += b
        close(c, A + B, na + nb, "sum in place")
        c = Vector3(a)
        c -= b
        close(c, A - B, na + nb, "difference in place")
        c = Vector3(a)
        c *= g
        close(c, A * g, na * g, "product in place")
        c = Vector3(a)
        c /= g
        close(c, A / g, na / g, "quotient in place")
        same = bool(np.all(A == B))
        if bool(a == b) is not same or bool(a != b) is same:
            raise Violation(f"{a} == {b} is {a == b}")
        close(a, A, 0.0, "operand")
        close(b, B, 0.0, "operand")
        ctx.state((f, g, p, q))
    ctx.outcome("scaled")


def run(cfg, ctx):
    TIGHT[0] = None
    if cfg[0] == "ctor":
        v = VALUES[cfg[1]]
        f = [float(c) for c in v]
        ok(Vector3(*v), f, "Vector3(x,y,z)")
        ok(Vector3(x=v[0], y=v[1], z=v[2]), f, "keywords")
        ok(Vector3(v[0], v[1]), [f[0], f[1], 0], "Vector3(x,y)")
        ok(Vector3(v[0]), [f[0], 0, 0], "Vector3(x)")
        ok(Vector3(x=v[0], z=v[2]), [f[0], 0, f[2]], "Vector3(x,z)")
        ok(Vector3.from_coordinates(v), f, "from_coordinates")
        ok(Vector3.from_coordinates(np.array(f)), f, "from_coordinates(array)")
        ok(Vector3.from_coordinates(list(v)), f, "from_coordinates(list)")
        ok(Vector3.from_coordinates(v[:2]), [f[0], f[1], 0], "from_coordinates of two")
        ok(Vector3.from_coordinates(np.array(f[:1])), [f[0], 0, 0], "from_coordinates of one")
        a = Vector3(*v)
        b = Vector3(a)
        b *= 2
        ok(a, f, "Vector3(v) is not independent of v")
        ctx.op(8)
        ctx.trace()
        ctx.state(cfg)
        return
    if cfg[0] == "array":
        # arrays of coordinates behave element by element
        x, y, z = np.array([1.0, 2.0]), np.array([0.5, -1.0]), np.array([3.0, 4.0])
        a = Vector3(x, y, z)
        b = Vector3(2.0, 3.0, -1.0)

        def cmp(v, e, what):
            g = np.array([v.x, v.y, v.z])
            if not np.allclose(g, e):
                raise Violation(f"array {what}: {g} instead of {e}")

        A, B = np.array([x, y, z]), np.array([[2.0], [3.0], [-1.0]])
        cmp(a + b, A + B, "add")
        cmp(a - b, A - B, "sub")
        cmp(-a, -A, "neg")
        cmp(a * 2.0, A * 2, "mul")
        cmp(2.0 * a, A * 2, "rmul")
        cmp(a / 4.0, A / 4, "div")
        if not np.allclose(abs(a), np.linalg.norm(A, axis=0)):
            raise Violation("array abs")
        if not np.allclose(a.dot(b), (A * B).sum(axis=0)):
            raise Violation("array dot")
        cmp(cross_product(a, b), np.cross(A.T, B.T).T, "cross")
        cmp(b * np.array([1.0, 2.0]), B * np.array([1.0, 2.0]), "mul by array")
        cmp(a, A, "operands")
        for v, e in ((a, A), (b, B)):
            if not np.array_equal(a == v, np.all(A == e, axis=0)):
                raise Violation(f"array equality: {a == v}")
        c = a + Vector3(np.array([0.0, 1e-6]), 0.0, 0.0)
        if np.asarray(a == c).tolist() != [True, False] or np.asarray(c == a).tolist() != [True, False]:
            raise Violation(f"array equality: {a == c}")
        ctx.op(14)
        # in place, with numbers and arrays of numbers
        for k in (2.0, -3, np.float64(0.5), np.array([2.0, -4.0])):
            c, d = Vector3(a), Vector3(b)
            keep = c
            c *= k
            cmp(c, A * k, "imul")
            c /= k
            c /= k
            cmp(c, A / k, "idiv")
            if c is not keep:
                raise Violation("array: an in-place operation returned another object")
            d *= k
            cmp(d, B * k if np.ndim(k) else (B * k)[:, 0], "imul of a plain vector")
            cmp(a, A, "operand after imul")
            cmp(b, B[:, 0], "operand after imul")
            ctx.op(4)
        c = Vector3(a)
        c.normalize()
        cmp(c, A / np.linalg.norm(A, axis=0), "normalize")
        for f in FRAMES:
            F = np.array(FRAMES[f], float)
            fr = [Vector3(*[float(q) for q in row]) for row in FRAMES[f]]
            o = np.array(ORIGIN)[:, None]
            cmp(Vector3(a).transform_to_global_frame(*fr), F.T @ A, "to global")
            cmp(Vector3(a).transform_to_global_frame(*fr, Vector3(*ORIGIN)), F.T @ A + o, "to global")
            cmp(Vector3(a).transform_to_local_frame(*fr), F @ A, "to local")
            cmp(Vector3(a).transform_to_local_frame(*fr, Vector3(*ORIGIN)), F @ (A - o), "to local")
            ctx.op(4)
        cmp(a, A, "operands")
        ctx.trace()
        ctx.state(cfg)
        return
    if cfg[0] == "scale":
        scale(cfg, ctx)
        ctx.trace()
        return
    if cfg[0] == "near":
        near(ctx)
        ctx.trace()
        ctx.state(cfg)
        return
    if cfg[0] == "errors":
        a = Vector3(1.0, 2.0, 3.0)
        for f in (
            lambda: a + 1,
            lambda: a - 1.0,
            lambda: a.dot(2),
            lambda: a == 3,
            lambda: a + (1.0, 2.0, 3.0),
            lambda: a - np.array([1.0, 2.0, 3.0]),
            lambda: a == (1.0, 2.0, 3.0),
            lambda: a.dot((1.0, 2.0, 3.0)),
            lambda: operator.imul(a, "2"),
            lambda: operator.itruediv(a, (2, 2)),
            lambda: Vector3("x"),
            lambda: Vector3(None),
        ):
            try:
                f()
            except Exception:
                ctx.op()
                continue
            raise Violation("an operation on a vector and something else succeeded")
        ok(a, [1, 2, 3], "failed operations changed the vector")
        ctx.trace()
        ctx.state(cfg)
        ctx.outcome("rejected")
        return
    _, kind, seq = cfg
    # exact unless a single precision number can take part
    TIGHT[0] = None if kind == "f32" or any(":nf" in o for o in seq) or cfg[0] == "seq3" else True
    tails = [[o] for o in OPS] if cfg[0] == "seq3" else [[]]
    for tail in tails:
        m = Machine(kind)
        done = []
        for op in seq + tail:
            if not m.step(op):
                ctx.outcome("undefined")
                break
            ctx.op()
            done.append(op)
            ctx.state((kind, np.round(m.m[0], 6).tolist()))
            m.observe()
        else:
            ctx.trace()
            ctx.outcome("compared")
