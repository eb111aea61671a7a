"""Records which components each hangar parameter influences and how it moves them (lib/influence.json)."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "../lib"))
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
import numpy as np
import hangar
import hypervehicle.hangar as hh

out = {}
for n in hangar.NAMES:
    g, v = hangar.make(n, {})
    base = hangar.shape(v)
    out[n] = dict(components=list(base), patches={k: x[0] for k, x in base.items()}, parameters={})
    for p, kind in hangar.parameters(g).items():
        d = getattr(g, p)
        if kind == "flag":
            w = hangar.shape(hangar.make(n, {p: not d})[1])
            out[n]["parameters"][p] = dict(kind=kind, components=list(w), moves={"flag": hangar.motion(base, w)})
            continue
        new = d + 1 if kind == "resolution" else hangar.changed(d, 0.02)
        w = hangar.shape(hangar.make(n, {p: new})[1])
        inf = hangar.influence(base, w)
        for c in base:
            m = np.abs(base[c][1] - w[c][1]).max()
            if 0 < m < 1e-7:
                print("weak", n, p, c, m)
        out[n]["parameters"][p] = dict(kind=kind, influences=inf)
        if kind != "resolution":
            moves = out[n]["parameters"][p]["moves"] = {}
            for rel in (0.02, 0.15):
                for axis in "xyz" if kind == "vector" else "x":
                    try:
                        w = hangar.shape(hangar.make(n, {p: hangar.changed(d, rel, axis)})[1])
                    except Exception as e:
                        print("not possible", n, p, rel, axis, e)
                        continue
                    moves[f"{rel} {axis}"] = hangar.motion(base, w)
        print(n, p, kind, inf)
json.dump(out, open(os.path.join(HERE, "../lib/influence.json"), "w"), indent=1)
