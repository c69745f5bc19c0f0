#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and lib/gen.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import gen, gen2, gen3, gen4, gen5, gen6, gen7, gen8, gen9, gen10
checks, na = [], []
NOTE = ("TLC explores the TLA+ specification of the whole interpreter (spec/) on sessions generated for this property, "
        "checking its invariants and step properties, and every behaviour found is replayed on the interpreter built from "
        "/repo and compared (output, error output, exit status, files). Bounded: the sessions generated from VERIF_SEED. "
        "Trusts TLC, host/LBHost.java (IEEE arithmetic, %g, strtod) and lib/lb.py.")
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in gen.PROPS:
        g = gen.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 lib/check.py %s quick" % i,
                           thorough_cmd="python3 lib/check.py %s thorough" % i,
                           technique="TLA+ specification checked with TLC; every behaviour found replayed on the implementation",
                           level=g.level, level_note=NOTE + (" " + g.note if g.note else "")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through standard input, output, error output, files, signals and one LD_PRELOAD shim (host/shim.c) outside it.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
