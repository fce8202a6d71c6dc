#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vp/units.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
import units
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {"proof": "contract-based deductive verification of the unmodified C source (CBMC: pre/postconditions and invariants on cbconv & co., all obligations discharged by SAT); counterexamples replayed natively",
        "exploration": "contract-based verification of the unmodified C source: contracts discharged by CBMC where in reach (unbounded or within a stated bound), the same contracts evaluated at run time over stated finite domains (exhaustive or sampled, labelled bounded) where not"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in units.PROPS:
        s = units.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 vp/check.py %s quick" % i, "thorough_cmd": "python3 vp/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": s.get("technique", TECH[s["level"]]),
                       "level": s["level"], "level_note": s.get("note") or (("proof level: every obligation of every contract generated from the current /repo source is discharged; assumes: " if s["level"] == "proof" else
                       "mixed: the obligations that the verifier can discharge without a bound are discharged; the rest is the same contracts evaluated on the real code over stated finite domains, reported as bounded and never counted as proved; assumes: ") + "; ".join(s["assumptions"]))})
    else:
        na.append({"property": i, "reason": units.NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 vp/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the contracts live in /verif/contracts and are linked against the unmodified translation units of /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
