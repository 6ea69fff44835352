#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta.py / checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta, checks
NA = getattr(meta, "NOT_APPLICABLE", {})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(list(meta.PROPS) + list(NA)):
        d = meta.PROPS[p]["property"] if p in meta.PROPS else NA[p]["property"]
        f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "python3 run_check.py --setup",
       "checks": [], "not_applicable": [{"property": p, "reason": NA[p]["reason"]} for p in sorted(NA)],
       "notes": "No hooks: the monitors sit at the public interfaces and in the harnesses. See DESIGN.md; KNOWN_FINDINGS.txt lists repaired and recorded defects."}
for p in sorted(meta.PROPS):
    c = meta.PROPS[p]["check"]
    sans = sorted({checks.UNITS[u].get("san", "asan") for u in c["units"]})
    t = {"asan": "AddressSanitizer+UBSan", "tsan": "ThreadSanitizer", "plain": "optimised build"}
    man["checks"].append({
        "property": p,
        "quick_cmd": "python3 run_check.py %s --tier quick" % p,
        "thorough_cmd": "python3 run_check.py %s --tier thorough" % p,
        "technique": c.get("technique", "runtime monitoring: generated workloads under %s, oracle monitor on every result" % "/".join(t[s] for s in sans)),
        "level": "exploration",
        "level_note": "Held on every generated execution of the real code (counts in the evidence file); nothing is claimed beyond the explored inputs. Trusts the oracle in the harness" + (" and the shims listed in DESIGN.md." if any(checks.UNITS[u].get("shims") for u in c["units"]) else ".")})
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
