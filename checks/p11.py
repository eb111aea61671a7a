"""P11: sensitivities appended to a geometry file match its points in order."""

import csv
import itertools
import os
import xml.etree.ElementTree as ET

import numpy as np
from hypervehicle.utilities import append_sensitivities_to_tri

from mc import Violation

PROPERTY = "P11"
BOUNDS = {
    "quick": "all lists of 1-3 points over an alphabet of 7 (table vertices, vertices moved "
    "by less and more than the tolerance along each axis, unknown points) x 4 splits of the "
    "table over files x 1-3 parameters; x tolerances, rounding, directories, point text "
    "formats, earlier combined files, names of the tables, repeated appending",
    "thorough": "as quick with lists of 4 points and all option combinations for lists of 2",
}
ASSUMPTIONS = [
    "points are clearly inside or outside the match tolerance of at most one table value",
]

# table vertices
A, B, C = (0.0, 0.0, 0.0), (1.0, 0.5, -0.25), (1.0, 0.5, 2.0)
TABLE = [A, B, C, (-3.0, 1e-3, 0.125), (1.0, -0.5, -0.25)]
POINTS = dict(
    A=A,
    B=B,
    C=C,
    b=(1.0 + 4e-6, 0.5 - 4e-6, -0.25 + 4e-6),  # B within 1e-5
    x=(1.0 + 1e-4, 0.5, -0.25),
    y=(1.0, 0.5 + 1e-4, -0.25),
    z=(1.0, 0.5, -0.25 - 1e-4),
    u=(7.0, 7.0, 7.0),
)
PARAMS = ["w", "dxd_1", "Ld"]


def sens(vertex, p):
    """Sensitivity of a table vertex, exercising signs and rounding."""
    i, j = TABLE.index(vertex), PARAMS.index(p)
    base = [0.5 + i, -1.25 * (j + 1), 1e-9 if (i + j) % 2 else 1e-6]
    if i == 1:
        base[1] = -3e-10
    if i == 3:
        base = [1e5 / 3, -1e-9, 0.0]
    return [b * (1 + j) for b in base]


SPLITS = [
    [[0, 1, 2, 3, 4]],
    [[0, 1], [2, 3, 4]],
    [[4, 3], [2], [1, 0]],
    [[2, 1], [1, 0, 3]],  # a vertex shared by two components
]


def base(points, **k):
    d = dict(
        points=list(points), split=0, np=2, tol=None, rnd=None, out="none", fmt="plain", prev="no", name=None, times=1, files="part"
    )
    d.update(k)
    return d


def configs(tier):
    th = tier == "thorough"
    out = []
    letters = "ABCbxyzu"
    for n in range(1, 5 if th else 4):
        for pts in itertools.product(letters, repeat=n):
            if n > 3 and len(set(pts)) < 3:
                continue
            for split in range(4) if n <= 2 else (len(out) % 4,):
                for q in (1, 2, 3) if n <= 2 else (1 + len(out) % 3,):
                    out.append(base(pts, split=split, np=q))
    lists = ["AbCu", "zBA", "u", "Cxb", "xyzB", "uuA"]
    opts = dict(
        tol=[None, 1e-3, 1e-7],
        rnd=[None, 1e-5, 1e-12],
        out=["none", "new", "existing", "deep"],
        fmt=["plain", "tabs", "blank", "sci"],
        prev=["no", "cwd", "dir", "stale"],
        name=[None, "mine.csv"],
        times=[1, 2],
        files=["part", "like"],  # names of the tables: part0_..., or ending with the name of the combined file
    )
    names = list(opts)
    if th:
        for l in lists[:3]:
            for combo in itertools.product(*opts.values()):
                out.append(base(l, split=1, **dict(zip(names, combo))))
    for l in lists:
        for a, b in itertools.combinations(names, 2):
            for va, vb in itertools.product(opts[a], opts[b]):
                out.append(base(l, split=1, **{a: va, b: vb}))
    return out


def text_of(points, fmt):
    rows = []
    for k, p in enumerate(points):
        if fmt == "tabs":
            rows.append("\t".join(repr(c) for c in p))
        elif fmt == "sci":
            rows.append(" ".join(f"{c:.16e}" for c in p))
        else:
            rows.append("  ".join(repr(c) for c in p))
        if fmt == "blank":
            rows.append("   ")
    return "\n" + "\n ".join(rows) + "\n "


def write_tri(path, points, fmt):
    root = ET.Element("VTKFile", type="UnstructuredGrid", version="0.1")
    grid = ET.SubElement(root, "UnstructuredGrid")
    piece = ET.SubElement(grid, "Piece", NumberOfPoints=str(len(points)), NumberOfCells="1")
    pts = ET.SubElement(piece, "Points")
    a = ET.SubElement(pts, "DataArray", NumberOfComponents="3", type="Float64")
    a.text = text_of(points, fmt)
    cells = ET.SubElement(piece, "Cells")
    c = ET.SubElement(cells, "DataArray", type="Int32", Name="connectivity")
    c.text = "\n 0 1 2\n "
    cd = ET.SubElement(piece, "CellData")
    e = ET.SubElement(cd, "DataArray", Name="IntersectComponents")
    e.text = "1"
    ET.ElementTree(root).write(path)


def flat(el):
    """Structure of an element."""
    return (el.tag, sorted(el.attrib.items()), (el.text or "").strip(), [flat(c) for c in el])


def run(cfg, ctx):
    with ctx.scratch() as d:
        points = [POINTS[p] for p in cfg["points"]]
        params = PARAMS[: cfg["np"]]
        head = ["x", "y", "z"] + [f"d{c}d{p}" for p in params for c in "xyz"]
        os.mkdir("tables")
        files = []
        cname = cfg["name"] or "all_components_sensitivity.csv"
        for i, part in enumerate(SPLITS[cfg["split"]]):
            f = f"part{i}_sensitivity.csv" if cfg["files"] == "part" else f"{'ab'[i % 2]}{i}_{cname}"
            f = os.path.join("tables", f)
            with open(f, "w", newline="") as g:
                w = csv.writer(g)
                w.writerow(head)
                for k in part:
                    v = TABLE[k]
                    w.writerow([repr(c) for c in v] + [repr(x) for p in params for x in sens(v, p)])
            files.append(f)
        table = [TABLE[k] for part in SPLITS[cfg["split"]] for k in part]
        given = list(files)
        if cfg["prev"] != "no":
            stale = os.path.join("tables", cname) if cfg["prev"] == "dir" else cname
            if cfg["prev"] == "stale":
                stale = os.path.join(d, cname)
            with open(stale, "w", newline="") as g:
                w = csv.writer(g)
                w.writerow(head)
                for v in [POINTS["u"], A, B]:
                    w.writerow(list(v) + [99.0] * (len(head) - 3))
            given = [stale] + given if cfg["prev"] != "stale" else given + [stale]
        tri = os.path.join(d, "Comp.i.tri")
        write_tri(tri, points, cfg["fmt"])
        outdir = None
        if cfg["out"] != "none":
            outdir = os.path.join(d, "res", "a b", "c") if cfg["out"] == "deep" else os.path.join(d, "res")
            if cfg["out"] == "existing":
                os.mkdir(outdir)
        k = dict(verbosity=0)
        if cfg["tol"] is not None:
            k["match_tolerance"] = cfg["tol"]
        if cfg["rnd"] is not None:
            k["rounding_tolerance"] = cfg["rnd"]
        if cfg["name"] is not None:
            k["combined_sens_fn"] = cfg["name"]
        if outdir is not None:
            k["outdir"] = outdir
        tol = cfg["tol"] or 1e-5
        rnd = cfg["rnd"] or 1e-8

        want, matched = [], 0
        for p in points:
            hit = [v for v in table if all(abs(a - b) < tol for a, b in zip(p, v))]
            row = [0.0] * (3 * len(params))
            if hit:
                matched += 1
                row = [x if abs(x) >= rnd else 0.0 for q in params for x in sens(hit[0], q)]
            want.append(row)

        old = flat(ET.parse(tri).getroot())
        for t in range(cfg["times"]):
            arg = list(given)
            frac = append_sensitivities_to_tri(arg, tri, **k)
            ctx.op()
            if arg != given:
                raise Violation(f"list of file names became {arg}")
            if abs(frac - matched / len(points)) > 1e-12:
                raise Violation(f"matched fraction {frac}, not {matched}/{len(points)}")
            check(tri, old, t + 1, params, want)
            f = os.path.join(outdir or d, cname)
            with open(f, newline="") as g:
                rows = list(csv.reader(g))
            if rows[0] != head:
                raise Violation(f"combined file columns {rows[0]}")
            got = np.array([[float(x) for x in r] for r in rows[1:]])
            exp = np.array([list(p) + w for p, w in zip(points, want)])
            if got.shape != exp.shape or np.any(np.abs(got - exp) > 1e-9 * np.abs(exp)):
                raise Violation(f"combined file rows {got.tolist()}, not {exp.tolist()}")
        ctx.state((cfg, matched))
        ctx.outcome(f"{matched} of {len(points)} matched")
        ctx.trace()


def check(tri, old, times, params, want):
    root = ET.parse(tri).getroot()
    piece = root[0][0]
    n = len(old[3][0][3][0][3])
    added = list(piece)[n:]
    for el in added:
        piece.remove(el)
    if flat(root) != old:
        raise Violation("the rest of the geometry file changed")
    arrays = [a for el in added for a in el.iter("DataArray")]
    names = [a.attrib.get("Name") for a in arrays]
    if names != [f"{p}_sens" for p in params] * times:
        raise Violation(f"arrays added: {names}")
    for j, a in enumerate(arrays):
        if a.attrib.get("NumberOfComponents") != "3":
            raise Violation(f"array {names[j]} has attributes {a.attrib}")
        got = np.array([float(x) for x in a.text.split()])
        i = j % len(params)
        exp = np.array([w[3 * i : 3 * i + 3] for w in want]).ravel()
        if got.shape != exp.shape or np.any(np.abs(got - exp) > 1e-9 * np.abs(exp)):
            raise Violation(f"array {names[j]}: {got.tolist()}, not {exp.tolist()}")
        lines = [l for l in a.text.splitlines() if l.strip()]
        if len(lines) != len(want) or any(len(l.split()) != 3 for l in lines):
            raise Violation(f"array {names[j]}: not one line of three values per point")
