"""Rewrites the "fixed" entries of known_findings.json from tools/fixes.txt and
the commits of /repo; keeps the "findings"."""
import json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"],
                     capture_output=True, text=True).stdout.splitlines()
by = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log}
path = os.path.join(VERIF, "known_findings.json")
old = json.load(open(path)) if os.path.exists(path) else {"findings": []}
fixed = []
used = set()
for line in open(os.path.join(VERIF, "tools/fixes.txt"), encoding="utf-8"):
    if not line.strip():
        continue
    prop, subj, what = line.rstrip("\n").split("|", 2)
    used.add("fix: " + subj)
    fixed.append("fixed: property=%s %s %s" % (prop, by["fix: " + subj], what))
for s in by:
    if s.startswith("fix:") and s not in used:
        print("NOT LISTED", s)
json.dump({"findings": old["findings"], "fixed": fixed}, open(path, "w"),
          indent=1, ensure_ascii=False)
