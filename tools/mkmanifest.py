"""Writes MANIFEST.json from the table of claimed properties below."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]

# id -> (technique, level_note)
T = {
 "C01": ("TLA+ spec of shapes (Options.tla), TLC-enumerated cases replayed into Section.parse, outcomes judged by TLC",
         "Exhaustive over all declared shapes and values within the bounds of MCOptions.cfg; the verdict is TLC's."),
 "C02": ("TLA+ spec of section parsing (Sections.tla), TLC-enumerated cases replayed, outcomes judged by TLC",
         "Exhaustive over declarations and section texts of MCSections; texts are representatives per type."),
 "C03": ("TLA+ automaton of list text (ListText.tla) and parse-history machine (ParseHistory.tla), TLC behaviours replayed and judged",
         "Exhaustive over all texts up to the bound over the significant characters and all histories up to the bound."),
}
extra = V / "tools" / "claims.json"
if extra.exists():
    T.update({k: tuple(v) for k, v in json.loads(extra.read_text()).items()})

checks = []
for p in props:
    if p in T:
        checks.append({
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 harness/check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 harness/check.py %s" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]})
m = {"version": 1, "setup_cmd": "python3 harness/selftest.py",
     "checks": checks,
     "not_applicable": [{"property": p, "reason": "Specification and check not built yet."} for p in props if p not in T],
     "notes": "Specifications in spec/ (TLA+, checked with TLC); see DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
