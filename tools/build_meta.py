"""Writes properties.jsonl and MANIFEST.json from props/catalog.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from props.catalog import CATALOG  # noqa
from props.registry import PROPS  # noqa
try:
    from props.catalog import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for id in sorted(CATALOG):
        c = CATALOG[id]
        assert len(c["title"]) <= 80, (id, len(c["title"]))
        row = {"id": id, "title": c["title"], "statement": c["statement"],
               "quantifier": {"over": c["over"], "text": c["text"]},
               "why_tests_cant": c["why"],
               "anchors": {"files": c["files"], "mechanism": c["mechanism"],
                           "observe_at": c["observe"] or
                           ["Handler.parse and Handler.compile results"],
                           "hook_needed": None}}
        f.write(json.dumps(row, ensure_ascii=False) + "\n")
checks = []
for id in sorted(CATALOG):
    if id in NOT_APPLICABLE:
        continue
    assert id in PROPS, id
    c = CATALOG[id]
    note = c["note"]
    if c["assumptions"]:
        note += " Assumes: " + "; ".join(c["assumptions"]) + "."
    checks.append({"property": id, "quick_cmd": "bin/check " + id,
                   "thorough_cmd": "VERIF_TIER=thorough bin/check " + id,
                   "technique": c["technique"], "level": "exploration",
                   "level_note": note})
assert set(PROPS) == {c["property"] for c in checks}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in
                                  sorted(NOT_APPLICABLE.items())],
               "notes": "Checks run /repo's working tree directly (pure "
                        "Python, nothing to build); see DESIGN.md."},
              f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks")
