"""Lines of /repo that no check executes: coverage.py [SCALE] [P..]

Runs the checks with tracing on (slow) and prints the executable lines of each
module that none of them reached.  For the design of generators; no check
needs it.
"""
import ast
import collections
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VP_REPO", "/repo")


def executable(path):
    lines = set()
    tree = ast.parse(open(path).read())
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(node):
                if isinstance(n, ast.stmt) and n is not node and not (
                        isinstance(n, ast.Expr) and
                        isinstance(n.value, ast.Constant)):
                    lines.add(n.lineno)
    return lines


def main():
    from props.registry import PROPS
    scale = sys.argv[1] if len(sys.argv) > 1 else "0.05"
    ids = sys.argv[2:] or sorted(PROPS)
    out = tempfile.mkdtemp()
    env = dict(os.environ, VERIF_COV=out, VERIF_SCALE=scale)
    for i in ids:
        subprocess.run([os.path.join(VERIF, "bin", "check"), i], env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    seen = collections.defaultdict(set)
    for f in os.listdir(out):
        for line in open(os.path.join(out, f)):
            name, n = line.rsplit(":", 1)
            seen[name].add(int(n))
    for name in sorted(seen):
        missing = sorted(executable(name) - seen[name])
        if not missing:
            continue
        src = open(name).read().splitlines()
        print("== %s: %d lines" % (os.path.relpath(name, REPO), len(missing)))
        for n in missing:
            print("%5d %s" % (n, src[n - 1]))


if __name__ == "__main__":
    main()
