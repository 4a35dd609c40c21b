"""plant.py SPEC.py: each entry of BUGS in SPEC.py is planted in a scratch copy
of /repo, its demonstration and the test suite are run, the property's check is
run against the copy, and the bug is written to seeded/<id>/.

BUGS = [dict(id=, prop=, file=, reps=[(old, new)], demo=PYTHON, needs=, breaks=)]
Options: --nocheck, --notest
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "536bfbd"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONWARNINGS="ignore")
SH = '''#!/bin/sh
# run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env),
                          capture_output=True, text=True)


def not_original(diff, repo):
    """The first removed line that is not of the original repository."""
    path, n, removed = None, 0, 0
    for line in diff.splitlines():
        if line.startswith("--- "):
            path = line[6:]
        elif line.startswith("@@"):
            n = int(line.split()[1].split(",")[0][1:]) - 1
        elif line[:1] in "- " and not line.startswith("---"):
            n += 1
            if line[0] == "-":
                removed += 1
                r = run(["git", "blame", "-s", "-l", "-L%d,%d" % (n, n), "HEAD",
                         "--", path], repo).stdout
                if not r.lstrip("^").startswith(BASE):
                    return line
    return None if removed else "(nothing removed)"


def plant(b, opts):
    work = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    repo = os.path.join(work, "repo")
    out = os.path.join(VERIF, "seeded", b["id"])
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        files = b.get("edits") or [(b["file"], b["reps"])]
        for file, reps in files:
            p = os.path.join(repo, file)
            with open(p, encoding="utf-8") as f:
                s = f.read()
            for old, new in reps:
                if s.count(old) != 1:
                    return "pattern found %d times: %r" % (s.count(old), old)
                s = s.replace(old, new)
            with open(p, "w", encoding="utf-8") as f:
                f.write(s)
        diff = run(["git", "diff"], repo).stdout
        bad = not_original(diff, repo)
        if bad:
            return "changes lines of ours: %r" % bad
        demo = os.path.join(work, "demo")
        os.mkdir(demo)
        with open(os.path.join(demo, "demo.py"), "w", encoding="utf-8") as f:
            f.write(b["demo"].lstrip("\n"))
        with open(os.path.join(demo, "demo.sh"), "w") as f:
            f.write(SH)
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        r = run(["sh", demo + "/demo.sh"], "/repo")
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stderr[-1500:] + r.stdout[-500:]
        r = run(["sh", demo + "/demo.sh"], repo)
        if not r.returncode:
            return "demo passes on the changed tree"
        if "--notest" not in opts:
            r = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                     "--tb=line", "--continue-on-collection-errors",
                     "--ignore=openformats/tests/formats/indesign",
                     "openformats/tests"], repo)
            tail = r.stdout.strip().splitlines()[-1]
            if "6 failed, 589 passed" not in tail:
                return "tests: " + " ".join(
                    l.split("::", 1)[-1] for l in r.stdout.splitlines()
                    if l.startswith("FAILED") and not any(k in l for k in (
                        "invalid_json", "broken_file", "graphic_framee")))
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "patch.diff"), "w", encoding="utf-8") as f:
            f.write(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(demo, n), os.path.join(out, n))
        with open(os.path.join(out, "meta.json"), "w", encoding="utf-8") as f:
            json.dump({"property": b["prop"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]}, f, indent=1,
                      ensure_ascii=False)
            f.write("\n")
        if "--nocheck" in opts:
            return "planted"
        r = run(["bin/check", b["prop"]], VERIF, VP_REPO=repo, VERIF_SEED="1",
                VERIF_TIER="quick")
        last = (r.stdout.strip().splitlines() or [r.stderr[-300:]])
        return "planted; check: %s %s | %s" % (
            {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), last[-1],
            last[0][:200])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    spec, opts = sys.argv[1], sys.argv[2:]
    only = [o for o in opts if not o.startswith("--")]
    for b in runpy.run_path(spec)["BUGS"]:
        if only and b["id"] not in only:
            continue
        print(b["id"], b["prop"], plant(b, opts), flush=True)


main()
