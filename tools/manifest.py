#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property of properties.jsonl."""
import json
TECH = {
    "C26": "bounded-exhaustive enumeration of builder inputs and explicit-state search of histories run through the builders, compared with an independent wire model",
    "C27": "bounded-exhaustive enumeration of values, truncations and byte changes, and explicit-state search of the accounts written by reachable histories",
}
DEFAULT = "explicit-state model checking of the compiled program: exhaustive enumeration of transactions and histories on an in-memory ledger, judged by an independent specification; traces replayed on the real bank"
NOTE = "every transaction and history of the bounded spaces listed in the evidence is executed on the real program code; outside those bounds nothing is claimed. The ledger runtime is a model, bound to the real bank by replaying traces of every run."
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"bash check.sh {i} quick",
            "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": TECH.get(i, DEFAULT),
            "level": "model_checking",
            "level_note": NOTE,
        }
        for i in ids
    ],
    "not_applicable": [],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
