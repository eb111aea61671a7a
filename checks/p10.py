"""P10: combined sensitivity tables list every vertex once with no gaps."""

import csv
import itertools
import os

import numpy as np
from hypervehicle.utilities import SensitivityStudy

import p09
import probe
from mc import Violation

PROPERTY = "P10"
BOUNDS = {
    "quick": "all ordered selections of 1-4 of 4 parameters x 7 layouts (ghosts, unnamed, "
    "reflected, parts touching only in the nominal geometry) x 2 values, x 7 kinds of "
    "output directory, analysis and properties on or off; pairs of studies written in turn",
    "thorough": "as quick with 10 layouts, 3 values and triples of studies",
}
ASSUMPTIONS = p09.ASSUMPTIONS
# no directory given, a new one, an existing one, one holding files, a new one in new ones,
# a relative path, a path ending in a separator
WHERE = ["none", "sub", "existing", "dirty", "deep", "relative", "slash"]


def configs(tier):
    th = tier == "thorough"
    out = []
    sels = [list(s) for n in range(1, 5) for s in itertools.permutations(p09.PARAMS, n)]
    layouts = ["b", "n", "p", "bn", "pg", "gw", "wpn"] + (["ww", "nbgp", "gbw"] if th else [])
    for sel in sels:
        for layout in layouts:
            for val in list(p09.VALUES)[: 3 if th else 2]:
                out.append([[p09.S(sel, "none", None, val, layout)], "sub"])
    for sel in sels:
        if len(sel) > 3:
            continue
        for layout in ("bn", "bg"):
            for an, pr in itertools.product((False, True), repeat=2):
                for where in WHERE:
                    out.append([[p09.S(sel, "none", 4, "other", layout, an, pr)], where])
    single = [
        p09.S(["length"], layout="b"),
        p09.S(["width", "angle"], layout="bn", analysis=True, props=True),
        p09.S(["angle", "height", "width"], layout="gb"),
        p09.S(["height"], layout="n", props=True),
        p09.S(["angle"], layout="p"),
    ]
    for n in (2, 3) if th else (2,):
        for seq in itertools.product(range(len(single)), repeat=n):
            for where in ("none", "sub"):
                out.append([[single[i] for i in seq], where])
    out.append([[], "none"])
    out.append([[], "sub"])
    return out


def distinct(m):
    return list(dict.fromkeys(tuple(float(c) for c in p) for p in np.asarray(m.vectors, float).reshape(-1, 3)))


def check_rows(head, rows, name, mesh, params, per, what, t=0.0):
    """rows: list of lists of floats; per[param]: {vertex: (dx, dy, dz)}."""
    want = ["x", "y", "z"] + [f"d{c}d{p}" for p in params for c in "xyz"]
    if head != want:
        raise Violation(f"{what}: columns {head}, not {want}")
    verts = distinct(mesh)
    if len(rows) != len(verts):
        raise Violation(f"{what}: {len(rows)} rows for {len(verts)} distinct vertices")
    seen = set()
    for r in rows:
        if not all(np.isfinite(r)):
            raise Violation(f"{what}: gap in row {r}")
        key = tuple(float(np.float32(c)) + 0.0 for c in r[:3])
        if key in seen:
            raise Violation(f"{what}: vertex {key} listed twice")
        seen.add(key)
        for i, p in enumerate(params):
            if key not in per[p]:
                raise Violation(f"{what}: {key} is not a vertex of the results for {p}")
            a, b = np.array(r[3 + 3 * i : 6 + 3 * i]), np.array(per[p][key])
            if np.abs(a - b).max() > 1e-9 * (1 + np.abs(b).max()):
                raise Violation(f"{what}: {key} has {a.tolist()} for {p}, not {b.tolist()}")
    if seen != {tuple(c + 0.0 for c in v) for v in verts}:
        raise Violation(f"{what}: vertices differ from those of the nominal mesh")


def read(path):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    return rows[0], [[float(c) if c != "" else float("nan") for c in r] for r in rows[1:]]


def listing(d):
    out = []
    for base, _, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(base, f), d) for f in fs]
    return sorted(out)


def run(cfg, ctx):
    studies, where = cfg
    with ctx.scratch() as d:
        s = SensitivityStudy(probe.Probe, verbosity=0)
        if not studies:
            ctx.op()
            try:
                s.to_csv(None if where == "none" else "out")
            except Exception:
                if os.listdir(d):
                    raise Violation("files written before any study was run")
                ctx.state(("empty", where))
                ctx.outcome("no study")
                ctx.trace()
                return
            raise Violation("sensitivities written before any study was run")
        outdir = d if where == "none" else os.path.join(d, "out")
        if where == "deep":
            outdir = os.path.join(outdir, "a b", "c")
        if where in ("existing", "dirty"):
            os.mkdir(outdir)
        before = set()
        if where == "dirty":
            os.mkdir(os.path.join(outdir, "scalar_sensitivities"))
            for f in ("body_sensitivity.csv", "all_components_sensitivity.csv"):
                with open(os.path.join(outdir, f), "w") as g:
                    g.write("x,y,z,dxdold,dydold,dzdold\n9,9,9,1,1,1\n")
            before = set(listing(outdir))
        expected = set(before)
        for c in studies:
            one(s, c, where, d, outdir, expected, ctx)
        got = set(listing(d)) if where == "none" else set(listing(outdir))
        if where != "none":
            extra = [f for f in listing(d) if not f.startswith("out" + os.sep)]
            if extra:
                raise Violation(f"files outside the requested directory: {extra}")
        if got != expected:
            raise Violation(f"files {sorted(got)}, not {sorted(expected)}")
    ctx.outcome(where)
    ctx.trace()


def one(s, c, where, d, outdir, expected, ctx):
    params = {p: p09.VALUES[c["val"]][p] for p in c["params"]}
    over = dict(layout=c["layout"], analysis=c["analysis"], props=c["props"])
    res = s.dvdp(params, overrides=over, perturbation=c["pert"] or 5, write_nominal_stl=False)
    ctx.op(1 + len(params))
    v = s.nominal_vehicle_instance
    names = p09.names_of(v)
    comb = s.component_sensitivities
    if list(comb) != names:
        raise Violation(f"combined sensitivities of {list(comb)}, not {names}")
    per = {}
    for n in names:
        per[n] = {}
        for p in params:
            t = res[p][n]
            cols = [f"d{a}d{p}" for a in "xyz"]
            per[n][p] = {
                tuple(float(np.float32(q)) + 0.0 for q in x): y
                for x, y in zip(t[["x", "y", "z"]].to_numpy(float), t[cols].to_numpy(float))
            }
        check_rows(
            list(comb[n].columns),
            comb[n].to_numpy(float).tolist(),
            n,
            v._named_components[n].mesh,
            list(params),
            per[n],
            f"combined table of {n}",
        )
    path = s.to_csv({"none": None, "relative": "out", "slash": outdir + os.sep}.get(where, outdir))
    ctx.op()
    want = os.path.join(outdir, "all_components_sensitivity.csv")
    if os.path.realpath(path) != os.path.realpath(want):
        raise Violation(f"returned {path}, not {want}")
    expected.add("all_components_sensitivity.csv")
    total = []
    for n in names:
        f = f"{n}_sensitivity.csv"
        expected.add(f)
        head, rows = read(os.path.join(outdir, f))
        check_rows(head, rows, n, v._named_components[n].mesh, list(params), per[n], f)
        total += rows
    head, rows = read(want)
    if head != ["x", "y", "z"] + [f"d{a}d{p}" for p in params for a in "xyz"]:
        raise Violation(f"combined file has columns {head}")
    key = lambda r: tuple(r)
    if sorted(rows, key=key) != sorted(total, key=key):
        raise Violation("combined file does not hold the rows of all component files")
    sd = os.path.join(outdir, "scalar_sensitivities")
    if c["analysis"]:
        expected.add("scalar_sensitivities/volmass_sensitivity.csv")
        with open(os.path.join(sd, "volmass_sensitivity.csv"), newline="") as f:
            tab = list(csv.reader(f))
        if tab[0][1:] != list(params):
            raise Violation(f"volmass columns {tab[0]}")
        vals = {r[0]: [float(x) for x in r[1:]] for r in tab[1:]}
        keys = {f"{n}_{q}" for n in names + ["vehicle"] for q in ("mass", "volume", "area")}
        if set(vals) != keys or len(tab) - 1 != len(keys):
            raise Violation(f"volmass rows {sorted(vals)}")
        for i, p in enumerate(params):
            t = s.component_scalar_sensitivities[p]
            for n in names + ["vehicle"]:
                for q in ("mass", "volume", "area"):
                    if abs(vals[f"{n}_{q}"][i] - t.loc[n, q]) > 1e-9 * (1 + abs(t.loc[n, q])):
                        raise Violation(f"volmass sensitivity of {n} {q} to {p}: {vals[f'{n}_{q}'][i]}, not {t.loc[n, q]}")
            for q in ("cog", "moi"):
                f = f"{p}_{q}_sensitivity.txt"
                expected.add("scalar_sensitivities/" + f)
                with open(os.path.join(sd, f)) as g:
                    got = np.array([float(x) for x in g.read().split(",")])
                w = np.asarray(s.scalar_sensitivities[p][q], float).ravel()
                if got.shape != w.shape or np.abs(got - w).max() > 1e-6 * (1 + np.abs(w).max()):
                    raise Violation(f"{f}: {got.tolist()}, not {w.tolist()}")
    if c["props"]:
        expected.add("scalar_sensitivities/property_sensitivity.csv")
        with open(os.path.join(sd, "property_sensitivity.csv"), newline="") as f:
            tab = list(csv.reader(f))
        if tab[0][1:] != list(params) or sorted(r[0] for r in tab[1:]) != sorted(v.properties):
            raise Violation(f"property sensitivities {tab}")
        for r in tab[1:]:
            for p, x in zip(params, r[1:]):
                w = s.property_sensitivities[p][r[0]]
                if abs(float(x) - w) > 1e-9 * (1 + abs(w)):
                    raise Violation(f"property sensitivity of {r[0]} to {p}: {x}, not {w}")
    ctx.state((c, where, [len(per[n][p]) for n in names for p in params]))
