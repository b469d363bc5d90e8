#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import importlib.util
spec = importlib.util.spec_from_file_location("check", os.path.join(here, "check.py"))
c = importlib.util.module_from_spec(spec); spec.loader.exec_module(c)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {
    "model_checking": "Every execution within the stated bounds runs the real client (both runtimes) against a reference environment and is compared with the reference model; exhaustive within the bounds, nothing claimed beyond.",
    "fault_enumeration": "Every fault point of every listed session is tried on the real client (both runtimes) and the outcome compared with what the reference server saw; exhaustive within the bounds.",
    "exploration": "Every input of the bounded alphabets is enumerated, run through the real code (both runtimes) and compared with a reference model; exhaustive within the bounds, nothing claimed beyond.",
}
TECH = {
    "model_checking": "model checking: stateless exhaustive exploration of the real client in a closed environment, deviation-bounded, against a reference SMTP server",
    "fault_enumeration": "model checking: exhaustive enumeration of fault points over real client sessions against a reference SMTP server",
    "exploration": "model checking: bounded-exhaustive enumeration of inputs executed on the real code and compared with a reference model",
}
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import check; check.build()\"",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": TECH[c.LEVELS[p["id"]]],
            "level": c.LEVELS[p["id"]],
            "level_note": NOTE[c.LEVELS[p["id"]]] + " Trusts the harness's reference server, grammars and decoders and the I/O traits' contracts.",
        }
        for p in props
    ],
    "not_applicable": [],
    "notes": "No hooks: the harness uses only the public API of /repo's crate. Bounds, oracles and seeded bugs: DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
