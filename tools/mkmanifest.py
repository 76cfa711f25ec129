#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+ specification %s checked with TLC; "
C = {}   # id -> (technique, note)
WIRE = T % "spec/Wire.tla" + "its enumerated cases replayed in the code the generator produces"
C["W01"] = (WIRE + " (Rust)", "scalar bit-pattern, string, array, optional and nesting domains bounded; 14 protocol shapes plus random ones")
C["W02"] = (WIRE + " (TypeScript on node)", "as W01; arrays of enums and enum variants holding arrays of structs are known findings")
C["W03"] = (WIRE + " (both languages, byte-exact, and cross-read)", "as W01")
C["W04"] = (WIRE + " (permuted, extended and reduced bodies)", "reversal, rotation, insertion of five kinds of unknown property, omission of each property")
C["W05"] = (WIRE + " (every single-place damage), and reads of random damaged streams validated by TLC against the specification",
            "byte damage at every position of every n-th body; random multi-package streams; seeds fixed by VERIF_SEED")
exec(open(os.path.join(ROOT, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_more.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = globals().get("NA", {})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks observe the generated code through its public interface", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                 "technique": C[p][0], "level": "model_checking", "level_note": C[p][1]} for p in props if p in C],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not claimed yet: its specification is still being built")} for p in props if p not in C],
     "notes": "See DESIGN.md.  All checks build the clibri CLI from /repo's working tree into /verif/build (git-ignored)."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
