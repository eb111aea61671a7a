"""Writes MANIFEST.json from the check modules: python tools/manifest.py"""

import json
import re
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
TECHNIQUE = {
    "P01": "exhaustive enumeration of option combinations against a point-map model",
    "P02": "exhaustive operation sequences against a state model of geometry and mesh",
    "P03": "exhaustive operation sequences between generations, compared with a fresh vehicle",
    "P04": "exhaustive enumeration of tessellation arguments against a reference tessellation",
    "P05": "exhaustive worker schedules and request orders against serial evaluation",
    "P06": "exhaustive enumeration of resolution and clustering options against a model",
    "P07": "exhaustive enumeration of bodies and resolutions, edge pairing decided on each mesh",
    "P08": "exhaustive enumeration of vehicles, densities and orders against solid integrals",
    "P09": "exhaustive enumeration of studies against explicit finite differences",
    "P10": "exhaustive enumeration of studies and output states against per-parameter results",
    "P11": "exhaustive enumeration of small files, tables and tolerances against a model",
    "P12": "exhaustive vehicles and write sequences against a model of the directory",
    "P13": "exhaustive addition sequences against a registry model",
    "P14": "exhaustive operation sequences on one of two objects against an untouched twin",
    "P15": "exhaustive part lists and operations against the parts added alone",
    "P16": "exhaustive parameter subsets and hangar parameters against a recorded influence model",
    "P17": "exhaustive enumeration of wing inputs against a reference wing",
    "P18": "exhaustive enumeration of fin inputs against a reference fin",
    "P19": "exhaustive chains of patch transformations against point maps",
    "P20": "exhaustive enumeration of generating shapes against closed forms",
    "P21": "exhaustive enumeration of edges, displacements and grids against closed forms",
    "P22": "exhaustive enumeration of small control polygons against closed forms",
    "P23": "exhaustive chains of reparameterisations against an interval model",
    "P24": "exhaustive enumeration of clustering arguments against the defining conditions",
    "P25": "exhaustive operation sequences on vectors against exact rational vectors",
    "P26": "exhaustive small meshes against an edge-counting model",
    "P27": "exhaustive enumeration of edge and nose definitions against closed forms",
    "P28": "exhaustive inconsistent inputs and request sequences against an acceptance model",
    "P29": "exhaustive verbosities and operation sequences against the silent run",
    "P30": "exhaustive file lists and directory contents against recording stand-ins",
    "P31": "exhaustive objects against the names and values their text must show",
}


def main():
    checks = []
    for f in sorted((ROOT / "checks").glob("p[0-9][0-9].py")):
        p = f.stem.upper()
        checks.append(
            dict(
                property=p,
                quick_cmd=f"{PY} checks/run.py {p} --tier quick",
                thorough_cmd=f"{PY} checks/run.py {p} --tier thorough",
                evidence_file=f"evidence/{p}.json",
                technique="model checking: " + TECHNIQUE[p],
                level="model_checking",
                level_note="Every configuration of the bounded alphabet stated in the evidence is "
                "executed on the real code and compared with the reference; nothing is sampled. "
                "Holds within those bounds and the stated numerical tolerance only.",
            )
        )
    ids = [json.loads(l)["id"] for l in open(ROOT / "properties.jsonl")]
    done = {c["property"] for c in checks}
    m = dict(
        version=1,
        setup_cmd=f"{PY} -c 'import hypervehicle, numpy, stl, pandas, scipy'",
        checks=checks,
        not_applicable=[dict(property=p, reason="check not built yet") for p in ids if p not in done],
        notes="All checks run the code in /repo/src of the current working tree (or VERIF_REPO).",
    )
    (ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
