#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
OPS = "explicit-state exploration of all operation sequences of real derived builders against an executable model"
TECH = {
    **{p: OPS for p in "C01 C02 C03 C04 C05 C06 C07 C08 C12 C20".split()},
    "C09": OPS + "; exhaustive presence probes",
    "C10": OPS + "; exhaustive presence and absence probes over the naming space",
    "C11": "exhaustive enumeration of visibility settings x scopes, each (item, scope) pair decided by rustc and compared with the model",
    "C13": OPS + "; exhaustive bound and Clone probes over the generics space",
    "C14": OPS + "; exhaustive probes of what can be written about the error type",
    "C15": "exhaustive enumeration of attribute placements; every expansion compared item by item with the model, bound to rustc's own expansion by exhaustive conformance",
    "C16": "exhaustive enumeration of offences x places x valid contexts, verdict of the real derive compared with the model",
    "C17": "exhaustive enumeration of all combinations of up to t option settings (and full products); every expansion checked for totality and every distinct one compiled under all lints",
    "C18": "exhaustive enumeration of environments x editions x crate roots x shadowing x option sets, each decided by rustc through the real derive; " + OPS,
    "C19": "explicit-state exploration of expansion histories (all sequences of two and three expansions, threads, surroundings) and exhaustive enumeration of equivalent spellings",
    "C21": OPS + "; exhaustive trait and privacy probes",
}
NOTE = ("Exhaustive within stated bounds: every point of the listed option spaces is expanded, every distinct program is compiled by rustc "
        "through the real derive, and every operation sequence up to the reported depth is run on it and compared step by step with the model. "
        "Trusts rustc, syn/darling, the model in mc/gen/src/cfg.rs and mc/rt, and that textually identical expansions behave identically.")
EXTRA = {}
TODO = {}
exec(open(root + "/tools/manifest_extra.py").read()) if os.path.exists(root + "/tools/manifest_extra.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH[i], "level": "model_checking",
                       "level_note": EXTRA.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": TODO.get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks: /repo is used as it is (derive_builder_core::builder_for_struct is public)."},
          open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
