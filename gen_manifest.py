"""Writes MANIFEST.json from contracts/meta.json and properties.jsonl."""
import json, os
meta = json.load(open("contracts/meta.json"))
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    m = meta.get(i)
    if m and os.path.exists("contracts/%s.py" % i) and not m.get("na"):
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
                       "technique": m.get("technique", "contract-based deductive verification: VCs from the real source (pyvc), "
                                          "discharged by polynomial normal form, z3 and cvc5"),
                       "level": m.get("level", "proof"), "level_note": m["note"]})
    else:
        na.append({"property": i, "reason": (m or {}).get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
