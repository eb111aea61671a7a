"""P09: sensitivities are exact finite differences of the generated geometry."""

import copy
import itertools
import os

import numpy as np
from hypervehicle.utilities import SensitivityStudy
from stl import mesh as stlmesh

import probe
import ref
from mc import Violation

PROPERTY = "P09"
BOUNDS = {
    "quick": "all ordered selections of 1-3 of 4 parameters x 2 layouts x 3 overrides, "
    "x 5 perturbations x values (default, other with a negative angle, integer, irregular digits), analysis and "
    "properties on or off, STL writing on or off; all pairs of consecutive studies "
    "from 9 settings on one study object",
    "thorough": "as quick with 1-4 of 4 parameters, 5 layouts, 7 perturbations and triples "
    "of consecutive studies",
}
ASSUMPTIONS = ["single precision mesh coordinates"]

PARAMS = ["length", "width", "height", "angle"]
NOMINAL = dict(length=2.0, width=0.5, height=0.4, angle=20.0)
VALUES = dict(
    default=NOMINAL,
    other=dict(length=3.5, width=0.8, height=1.1, angle=-35.0),
    ints=dict(length=3, width=1, height=2, angle=10),
    odd=dict(length=1.2345678, width=0.4567891, height=0.3141593, angle=12.3456789),
)
OVERRIDES = dict(
    none=None,
    empty={},
    fixed=dict(angle=0.0, width=0.7, res=2),
)


def fd(params, over, p, pert):
    """Independent generation of both geometries."""
    over = over or {}
    value = params[p]
    changed = dict(params)
    changed[p] = value * (1 + pert / 100)
    out = []
    for kw in (params, changed):
        v = probe.Probe(**{**over, **kw}).create_instance()
        v.generate()
        out.append(v)
    return out[0], out[1], changed[p] - value


def names_of(v):
    return list(v._named_components)


def near(got, want, t, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {got.shape} instead of {want.shape}")
    if not np.all(np.isfinite(got)) or np.max(np.abs(got - want), initial=0) > t:
        raise Violation(f"{what}: {got.tolist()} instead of {want.tolist()}")


def check_table(df, m0, m1, dp, p, what):
    """Every vertex listed, with the displacement of that vertex."""
    a = np.asarray(m0.vectors, float).reshape(-1, 3)
    b = np.asarray(m1.vectors, float).reshape(-1, 3)
    size = max(1.0, np.abs(a).max(), np.abs(b).max())
    cols = [f"d{c}d{p}" for c in "xyz"]
    for c in ["x", "y", "z"] + cols:
        if c not in df.columns:
            raise Violation(f"{what}: no column {c} in {list(df.columns)}")
    pts = df[["x", "y", "z"]].to_numpy(float)
    val = df[cols].to_numpy(float)
    if not np.all(np.isfinite(val)):
        raise Violation(f"{what}: sensitivities that are not finite")
    tv = 4e-7 * size
    d = np.abs(pts[:, None, :] - a[None, :, :]).max(axis=2) <= tv
    if not d.any(axis=1).all():
        raise Violation(f"{what}: lists a point that is not a vertex")
    if not d.any(axis=0).all():
        raise Violation(f"{what}: does not list every vertex")
    exp = (b - a) / dp
    ts = 1e-6 * size / abs(dp) + 1e-5 * np.abs(exp).max()
    for i in range(len(pts)):
        cand = exp[d[i]]
        if np.abs(cand - val[i]).max(axis=1).min() > ts:
            raise Violation(f"{what}: vertex {pts[i].tolist()} has {val[i].tolist()}, not {cand[0].tolist()}")
    if {"dx", "dy", "dz"} <= set(df.columns):
        near(df[["dx", "dy", "dz"]].to_numpy(float), val * dp, 1e-6 * size, f"{what}: displacements")
    if "magnitude" in df.columns:
        near(df["magnitude"].to_numpy(float), np.linalg.norm(val * dp, axis=1), 2e-6 * size, f"{what}: magnitude")


def study(s, cfg, ctx):
    """Runs one study and compares it with independent differences."""
    over = dict(OVERRIDES[cfg["over"]]) if OVERRIDES[cfg["over"]] is not None else None
    params = {p: VALUES[cfg["val"]][p] for p in cfg["params"]}
    over_full = dict(over or {})
    for p in params:
        over_full.pop(p, None)
    base = dict(layout=cfg["layout"], analysis=cfg["analysis"], props=cfg["props"])
    if over is None and cfg["layout"] == "bn" and not cfg["analysis"] and not cfg["props"]:
        over_arg = None
    else:
        over_arg = {**base, **over_full}
    if cfg["over"] == "empty" and over_arg == base and cfg["layout"] == "bn" and not cfg["analysis"] and not cfg["props"]:
        over_arg = {}
    p_given, o_given = copy.deepcopy(params), copy.deepcopy(over_arg)
    k = {}
    if cfg["pert"] is not None:
        k["perturbation"] = cfg["pert"]
    if cfg["stl"] != "default":
        k["write_nominal_stl"] = cfg["stl"] == "prefix"
    if cfg["stl"] == "prefix":
        k["nominal_stl_prefix"] = "nom"
    if over_arg is not None or cfg["over"] == "none":
        k["overrides"] = over_arg
    result = s.dvdp(params, **k)
    ctx.op(1 + len(params))
    if params != p_given or list(params) != list(p_given):
        raise Violation(f"parameters became {params}")
    if over_arg != o_given:
        raise Violation(f"overrides became {over_arg}")
    if list(result) != list(params):
        raise Violation(f"results for {list(result)}, not {list(params)}")
    if s.parameter_sensitivities is not result and s.parameter_sensitivities.keys() != result.keys():
        raise Violation("parameter_sensitivities are not the results returned")
    pert = 5 if cfg["pert"] is None else cfg["pert"]
    for p in params:
        v0, v1, dp = fd(p_given, o_given, p, pert)
        names = names_of(v0)
        if sorted(result[p]) != sorted(names):
            raise Violation(f"{p}: components {sorted(result[p])}, not {sorted(names)}")
        for n in names:
            check_table(
                result[p][n], v0._named_components[n].mesh, v1._named_components[n].mesh, dp, p, f"{p} {n}"
            )
        if cfg["analysis"]:
            sc = s.scalar_sensitivities[p]
            if set(sc) != {"volume", "mass", "cog", "moi"}:
                raise Violation(f"{p}: scalar sensitivities {list(sc)}")
            for q in sc:
                a, b = v0.analysis_results[q], v1.analysis_results[q]
                mag = max(1.0, np.abs(a).max())
                near(sc[q], (np.asarray(b) - a) / dp, 2e-6 * mag / abs(dp), f"{p} {q}")
            t = s.component_scalar_sensitivities[p]
            rows = {n: n for n in names}
            for q in ("mass", "volume", "area"):
                a, b = v0.component_properties[q], v1.component_properties[q]
                for n in rows:
                    near(t.loc[n, q], (b[n] - a[n]) / dp, 2e-6 * max(1, abs(a[n])) / abs(dp), f"{p} {n} {q}")
                ta, tb = getattr(v0, q), getattr(v1, q)
                near(t.loc["vehicle", q], (tb - ta) / dp, 2e-6 * max(1, abs(ta)) / abs(dp), f"{p} vehicle {q}")
        elif s.scalar_sensitivities:
            raise Violation("scalar sensitivities of a vehicle that was not analysed")
        if cfg["props"]:
            ps = s.property_sensitivities[p]
            if sorted(ps) != sorted(v0.properties):
                raise Violation(f"{p}: property sensitivities {sorted(ps)}")
            for q in ps:
                w = (v1.properties[q] - v0.properties[q]) / dp
                near(ps[q], w, 1e-7 * max(1, abs(w)), f"{p} property {q}")
        elif s.property_sensitivities:
            raise Violation("property sensitivities of a vehicle without properties")
    # the nominal vehicle is kept
    v0 = fd(p_given, o_given, list(params)[0], pert)[0]
    for n in names_of(v0):
        got = np.asarray(s.nominal_vehicle_instance._named_components[n].mesh.vectors, float)
        if not ref.close(got, v0._named_components[n].mesh.vectors):
            raise Violation(f"nominal vehicle kept by the study differs in {n}")
    ctx.state((cfg, [sorted(result[p]) for p in result]))
    return v0


def files(v0, stl):
    if stl == "no":
        return {}
    out = {}
    for c, n in zip(v0.components, names_of(v0)):
        if n in v0.get_non_ghost_components():
            base = c.name if c.name else None
            i = [d for d in v0.components if d.componenttype == c.componenttype].index(c)
            if stl == "prefix":
                f = f"nom-{base}.stl" if base else f"nom-{c.componenttype}-{i}.stl"
            else:
                f = f"{base}.stl" if base else f"probe-{c.componenttype}-{i}.stl"
            out[f] = c
    return out


def S(params, over="none", pert=None, val="default", layout="bn", analysis=False, props=False, stl="no"):
    return dict(
        params=list(params), over=over, pert=pert, val=val, layout=layout, analysis=analysis, props=props, stl=stl
    )


def configs(tier):
    th = tier == "thorough"
    out = []
    sels = [list(s) for n in range(1, 5 if th else 4) for s in itertools.permutations(PARAMS, n)]
    layouts = ["bn", "bgp", "wbw", "npgb", "g"] if th else ["bn", "bgp"]
    perts = [None, 5, 1, -10, 50, 0.5, 100] if th else [None, 5, 1, -10, 50]
    for sel in sels:
        for layout in layouts:
            for over in OVERRIDES:
                out.append([S(sel, over, None, "default", layout)])
    for sel in sels:
        if len(sel) > 2:
            continue
        for pert in perts:
            for val in VALUES:
                for an, pr in ((False, False), (True, True)) if not th else itertools.product((False, True), repeat=2):
                    out.append([S(sel, "none", pert, val, "bn" if not an else "bgw"[: 2 + th], an, pr)])
    for an, pr in itertools.product((False, True), repeat=2):
        for stl in ("no", "default", "prefix"):
            for layout in ("bn", "gb", "pw", "wnb"):
                if an and "w" in layout and layout.index("w") == 0:
                    pass
                out.append([S(["width", "length"], "none", 2, "other", layout, an, pr, stl)])
    single = [
        S(["length"]),
        S(["width", "angle"], pert=10),
        S(["angle", "height"], layout="gb", pert=3),
        S(["height"], analysis=True, layout="b"),
        S(["width"], props=True, layout="n"),
        S(["length", "width"], analysis=True, props=True, layout="bn", val="other"),
        S(["length"], over="fixed", val="ints"),
        S(["width"], over="empty", stl="default"),
        S(["height", "length"], pert=-5, layout="wb", stl="prefix"),
    ]
    for n in (2, 3) if th else (2,):
        for seq in itertools.product(range(len(single)), repeat=n):
            out.append([single[i] for i in seq])
    return out


def run(cfg, ctx):
    with ctx.scratch() as d:
        s = SensitivityStudy(probe.Probe, verbosity=0)
        want = {}
        for c in cfg:
            v0 = study(s, c, ctx)
            want.update(files(v0, c["stl"]))
        got = sorted(f for f in os.listdir(d) if not f.endswith("_properties"))
        if got != sorted(want):
            raise Violation(f"nominal STL files {got}, not {sorted(want)}")
        if len(cfg) == 1:
            for f, c in want.items():
                if not ref.close(stlmesh.Mesh.from_file(f).vectors, c.mesh.vectors):
                    raise Violation(f"{f} is not the nominal geometry")
    ctx.outcome(f"{len(cfg)} studies")
    ctx.trace()
