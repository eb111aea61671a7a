"""Makes planted bugs from a description and tries them.

python tools/seed.py SPEC.py [ID ...]

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)],
needs, what, demo (Python source; exit code decides).  Everything is tried in a
scratch copy of /repo; the result is written to seeded/<id>/.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
BASE = "22579a4"
TESTENV = dict(
    PYTHONHASHSEED="0",
    OPENBLAS_NUM_THREADS="1",
    NPY_DISABLE_CPU_FEATURES="X86_V4 AVX512_ICL AVX512_SPR",
    PYTHONDONTWRITEBYTECODE="1",
)
DEMO = """#!/bin/bash
# Run with the repository as working directory.
export PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def original_lines(repo, patch):
    """All removed lines must come from the original tree."""
    bad = []
    f, n = None, 0
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m[1])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh(["git", "-C", repo, "blame", "-s", "-L", f"{n},{n}", f"{BASE}..HEAD", "--", f]).stdout
            if not b.startswith("^"):
                bad.append(l)
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


def trial(s, tests=True, checks=None):
    work = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo = work + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in s["edits"]:
            p = Path(repo, "src/hypervehicle", f)
            t = p.read_text()
            if t.count(old) != 1:
                print(s["id"], "FAIL: text found", t.count(old), "times in", f)
                return False
            p.write_text(t.replace(old, new))
        patch = sh(["git", "-C", repo, "diff"]).stdout
        bad = original_lines(repo, patch)
        if bad:
            print(s["id"], "FAIL: not original lines:", bad)
            return False
        if not any(l.startswith("-") and not l.startswith("---") for l in patch.splitlines()):
            print(s["id"], "warning: only adds lines")
        d = Path(work, "seed")
        d.mkdir()
        (d / "patch.diff").write_text(patch)
        (d / "demo.sh").write_text(DEMO)
        (d / "demo.py").write_text(s["demo"].lstrip("\n"))
        os.chmod(d / "demo.sh", 0o755)
        meta = dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"])
        (d / "meta.json").write_text(json.dumps(meta, indent=1) + "\n")
        scr = work + "/tmp"
        os.mkdir(scr)
        env = dict(os.environ, TMPDIR=scr)
        a = sh(["bash", d / "demo.sh"], cwd="/repo", env=env)
        b = sh(["bash", d / "demo.sh"], cwd=repo, env=env)
        if a.returncode != 0 or b.returncode == 0:
            print(s["id"], "FAIL: demo", a.returncode, b.returncode, a.stderr[-900:], b.stdout[-300:])
            return False
        if tests:
            t = sh(
                [PY, "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "--deselect", "tests/test_hangar.py::test_falcon9", "tests"],
                cwd=repo,
                env=dict(env, PYTHONPATH=repo + "/src", **TESTENV),
            )
            if t.returncode:
                print(s["id"], "FAIL: tests", t.stdout[-400:])
                return False
        got = []
        for c in checks or [s["property"]]:
            r = sh([PY, "checks/run.py", c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"))
            got.append(f"{c}:{r.returncode}")
            if r.returncode not in (0, 1):
                print(r.stdout[-800:], r.stderr[-800:])
        print(s["id"], "ok", b.returncode, b.stdout.strip().replace("\n", " ")[-90:], *got, flush=True)
        out = ROOT / "seeded" / s["id"]
        if out.exists():
            shutil.rmtree(out)
        shutil.copytree(d, out)
        return True
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns["SEEDS"]:
        if len(sys.argv) < 3 or s["id"] in sys.argv[2:]:
            trial(s)
