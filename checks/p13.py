"""P13: the component registry reflects exactly the accepted additions."""

import itertools

from hypervehicle.components.common import OgiveNose
from hypervehicle.components.component import Component
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry import Vector3
from hypervehicle import Vehicle

import build
from mc import Violation

PROPERTY = "P13"
BOUNDS = {
    "quick": "all sequences of 1-4 operations over 13 (additions of 5 types with explicit, "
    "own, both and no names, ghosts, two unsupported kinds with all options, adding an "
    "unnamed component again, configuring) on vehicles of verbosity 0-2; every "
    "component type built with and without a name",
    "thorough": "all sequences of 1-5 operations",
}

# op: kind, own name, explicit name, ghost, component verbosity
OPS = {
    "s0": ("swept", None, None, None, 0),
    "s2": ("swept", None, None, False, 2),
    "so": ("swept", "Own part.", None, None, 1),
    "sb": ("swept", "Own part.", " Given.2", None, 1),
    "r": ("revolved", None, None, None, 1),
    "rg": ("revolved", None, "gh", True, 2),
    "f": ("fin", None, None, None, 1),
    "wn": ("wing", None, "lift", False, 0),
    "c": ("composite", None, None, True, 0),
    "cube": ("cube", None, "box", True, 1),
    "odd": ("odd", "odd", None, None, 2),
    "again": None,
    "conf": None,
}


class Odd(Component):
    componenttype = "balloon"


def make(kind, own, verbosity):
    if kind == "cube":
        c = Cube(0.5, Vector3(0.0, 0.0, 0.0), name=own)
    elif kind == "odd":
        c = Odd(name=own)
    else:
        c = build.COMPONENTS[kind]()
        c.name = own
    c.verbosity = verbosity
    return c


V0 = Vector3(0.0, 0.0, 0.0)
BUILT = dict(build.COMPONENTS)
BUILT["cube"] = lambda **k: Cube(0.5, V0, verbosity=0, **k)
BUILT["sphere"] = lambda **k: Sphere(0.5, V0, verbosity=0, **k)
BUILT["ogive"] = lambda **k: OgiveNose(1.0, 0.2, 3.0, 1.0, verbosity=0, **k)


def configs(tier):
    out = []
    for n in range(1, 6 if tier == "thorough" else 5):
        for seq in itertools.product(OPS, repeat=n):
            if seq.count("conf") > 1 or seq.count("again") > 1 or seq[-1:] == ("again",) and n == 1:
                continue
            for verb in (0, 1, 2) if n < 4 else ((sum(map(len, seq)) + n) % 3,):
                out.append([verb, list(seq)])
    for kind in BUILT:
        for name in (None, "own"):
            out.append(["built", kind, name])
    return out


def snap(c):
    return {k: (v if isinstance(v, (int, str, type(None), bool)) else (id(v), repr(v) if isinstance(v, (list, dict)) else "")) for k, v in vars(c).items()}


OPTIONS = dict(
    reflection_axis="y",
    append_reflection=False,
    curvatures=[("x", lambda x, y: 0.0, lambda x, y: 0.0)],
    clustering={"i_clustering_func": lambda t: t},
    transformations=[("rotate", 10, "x")],
    modifier_function=lambda x, y, z: Vector3(0.0, 0.0, 0.0),
)


def view(v):
    return (
        [id(c) for c in v.components],
        [(n, id(c)) for n, c in v._named_components.items()],
        [(n, id(c)) for n, c in v.get_non_ghost_components().items()],
        repr(v),
        str(v),
    )


def built(cfg, ctx):
    """The name and verbosity given when building a component."""
    _, kind, name = cfg
    c = BUILT[kind](**({"name": name} if name else {}))
    if c.name != name or c.verbosity != 0:
        raise Violation(f"{kind} built with name {name!r} has {c.name!r}, verbosity {c.verbosity}")
    want = f"{c.componenttype} component" if name is None else name
    if str(c) != want:
        raise Violation(f"{kind} is described as {c}, not {want}")
    if kind not in ("cube", "sphere"):
        v = Vehicle()
        v.configure(verbosity=0)
        v.add_component(c)
        if list(v._named_components) != [name or f"{c.componenttype}_1"]:
            raise Violation(f"{kind} is registered as {list(v._named_components)}")
    ctx.op(2)
    ctx.state(cfg)
    ctx.outcome("built")
    ctx.trace()


def run(cfg, ctx):
    if cfg[0] == "built":
        return built(cfg, ctx)
    verb, seq = cfg
    v = Vehicle()
    v.configure(verbosity=verb)
    vname = "vehicle"
    comps, named, counts, ghosts, types = [], {}, {}, {}, []
    verbosity = {}
    last = None
    used = set()

    def check(o):
        if [id(c) for c in v.components] != [id(c) for c in comps]:
            raise Violation(f"after {o}: components {v.components}")
        if [(n, id(c)) for n, c in v._named_components.items()] != [(n, id(c)) for n, c in named.items()]:
            raise Violation(f"after {o}: names {list(v._named_components)}, not {list(named)}")
        want = [(n, id(c)) for n, c in named.items() if not ghosts[id(c)]]
        if [(n, id(c)) for n, c in v.get_non_ghost_components().items()] != want:
            raise Violation(f"after {o}: non-ghost components {list(v.get_non_ghost_components())}")
        s = f"Parameterised {vname}" + (f" with {len(comps)} components" if comps else "")
        r = s + " (" + (", ".join(f"{n} {t}" for t, n in counts.items()) or "no components") + ")"
        if str(v) != s or repr(v) != r:
            raise Violation(f"after {o}: described as {v!r}, not {r!r}")
        numbered = getattr(v, "_enumerated_components", None)  # documented in the X-43 example
        if isinstance(numbered, dict):
            seen, want = {}, []
            for c in comps:
                t = c.componenttype
                seen[t] = seen.get(t, 0) + 1
                want.append((f"{t}_{seen[t]}", id(c)))
            if [(n, id(c)) for n, c in numbered.items()] != want:
                raise Violation(f"after {o}: enumerated {list(numbered)}, not {[n for n, _ in want]}")
        for c in comps:
            if c.verbosity != verbosity[id(c)]:
                raise Violation(f"after {o}: component verbosity {c.verbosity}, not {verbosity[id(c)]}")

    keep = []
    check("start")
    for o in seq:
        if o == "conf":
            verb = (verb + 1) % 3
            vname = "craft"
            v.configure("craft", verbosity=verb)
        elif o == "again":
            if last is None:
                continue
            c = last
            t = c.componenttype
            v.add_component(c, ghost=ghosts[id(c)])
            counts[t] = counts.get(t, 0) + 1
            comps.append(c)
            named[f"{t}_{counts[t]}"] = c
            verbosity[id(c)] = 0 if verb == 0 else max(verbosity[id(c)], verb)
        else:
            kind, own, given, ghost, cv = OPS[o]
            if own and not given or given:
                # distinct names for distinct components
                n = sum(1 for u in used if u[0] == o)
                used.add((o, n))
                own = own and f"{own}{n}{o}"
                given = given and f"{given}{n}"
            c = make(kind, own, cv)
            keep.append(c)
            k = {}
            if given:
                k["name"] = given
            if ghost is not None:
                k["ghost"] = ghost
            if kind in ("cube", "odd"):
                before, mine = view(v), snap(c)
                opts = dict(OPTIONS)
                if own:
                    opts["name"] = "renamed"
                opts.update(k)
                try:
                    v.add_component(c, **opts)
                except Exception:
                    pass
                else:
                    raise Violation(f"a {kind} component was accepted")
                if view(v) != before:
                    raise Violation(f"rejected {kind} changed the vehicle to {v!r}")
                if snap(c) != mine:
                    now = snap(c)
                    raise Violation(f"rejected {kind} was changed: {[k for k in now if now[k] != mine.get(k)]}")
            else:
                v.add_component(c, **k)
                t = c.componenttype
                counts[t] = counts.get(t, 0) + 1
                comps.append(c)
                name = given or own or f"{t}_{counts[t]}"
                named[name] = c
                ghosts[id(c)] = bool(ghost)
                verbosity[id(c)] = 0 if verb == 0 else max(cv, verb)
                if c.name != (given or own):
                    raise Violation(f"after {o}: the component is named {c.name!r}, not {(given or own)!r}")
                if not (given or own):
                    last = c
        ctx.op()
        check(o)
        ctx.state((verb, vname, [c.componenttype for c in comps], list(named), list(counts.items())))
    ctx.outcome(f"{len(comps)} accepted")
    ctx.trace()
