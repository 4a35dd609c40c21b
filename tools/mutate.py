#!/usr/bin/env python3-vt
"""Mutation testing of the checks: python3-vt tools/mutate.py SAMPLES [SEED [FILE...]]

Changes single expressions or statements of the code under test, drops the
changes that the repository's own tests notice and lists those of the rest
that no check reports (OUT/survivors.txt).  Uses scratch copies of /repo and
/verif under OUT (default /tmp/mut), one per core.
"""
import ast
import os
import random
import shutil
import subprocess
import sys
import threading
import time
import warnings

warnings.simplefilter("ignore")
OUT = os.environ.get("MUT_OUT", "/tmp/mut")
REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOTS = int(os.environ.get("MUT_SLOTS", "8"))
SCALE = os.environ.get("MUT_SCALE", "0.3")
FILES = {
    "transcribers.py": "P01 P10 P11 P21 P30 P40 P60 P62 P70",
    "strings.py": "P02 P04 P24 P40 P52 P10",
    "handlers.py": "P06 P40 P52 P60 P30",
    "utils/compilers.py": "P10 P70 P71 P60 P62 P04",
    "utils/newlines.py": "P10 P11 P21 P30 P60 P70",
    "utils/icu.py": "P07 P21 P24 P06",
    "utils/json.py": "P20 P21 P24 P06",
    "utils/xml.py": "P05 P30 P60 P62 P33 P61",
    "utils/xmlutils.py": "P60 P62 P61 P63 P33",
    "formats/plaintext.py": "P10 P04",
    "formats/srt.py": "P11 P13 P06 P04",
    "formats/vtt.py": "P12 P13 P06 P04",
    "formats/json.py": "P21 P22 P23 P24 P25 P26 P07 P06 P04",
    "formats/android.py": "P30 P31 P32 P33 P34 P06 P04",
    "formats/android_unescaped.py": "P32 P34 P30 P06 P04",
    "formats/po.py": "P40 P41 P42 P06 P04",
    "formats/stringsdict.py": "P60 P61 P06 P04",
    "formats/customizable_xml.py": "P62 P63 P06 P04",
    "formats/github_markdown.py": "P70 P71 P72 P04",
    "formats/github_markdown_v2.py": "P70 P71 P72 P04",
    "formats/docx.py": "P80 P81 P85 P04",
    "formats/pptx.py": "P82 P83 P85 P04",
    "formats/xlsx_unstructured.py": "P84 P85 P04",
    "formats/office_open_xml/parser.py": "P80 P81 P82 P83",
    "formats/yaml": "P50 P51 P52 P53 P54 P06 P04",
}


def span(text, starts, node):
    def at(line, col):
        line_text = text[starts[line - 1]:].split("\n", 1)[0]
        return starts[line - 1] + len(
            line_text.encode("utf-8")[:col].decode("utf-8"))
    return (at(node.lineno, node.col_offset),
            at(node.end_lineno, node.end_col_offset))


def mutants(text):
    starts, at = [], 0
    for line in text.split("\n"):
        starts.append(at)
        at += len(line) + 1
    tree = ast.parse(text)
    docs = set()
    for node in ast.walk(tree):
        body = getattr(node, "body", None)
        if isinstance(body, list) and body \
                and isinstance(body[0], ast.Expr) \
                and isinstance(body[0].value, ast.Constant):
            docs.add(body[0])
            docs.add(body[0].value)
        if isinstance(node, ast.JoinedStr):
            docs.update(ast.walk(node))
        if isinstance(node, ast.Raise):
            docs.update(ast.walk(node))
            docs.discard(node)
    flip = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<",
            ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
            ast.Is: "is not", ast.IsNot: "is"}
    for node in ast.walk(tree):
        if node in docs:
            continue

        def src(n):
            a, b = span(text, starts, n)
            return text[a:b]

        def new(kind, value, target=node):
            a, b = span(text, starts, target)
            return (kind, target.lineno, a, b, value)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            yield new("compare", "(%s %s %s)" % (
                src(node.left), flip[type(node.ops[0])],
                src(node.comparators[0])))
        elif isinstance(node, ast.BoolOp):
            for value in node.values:
                rest = [src(v) for v in node.values if v is not value]
                joiner = " and " if isinstance(node.op, ast.And) else " or "
                yield new("drop operand", "(" + joiner.join(
                    "(%s)" % r for r in rest) + ")")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield new("not", "(%s)" % src(node.operand))
        elif isinstance(node, ast.Constant):
            value = node.value
            if isinstance(value, bool):
                yield new("bool", repr(not value))
            elif isinstance(value, int):
                yield new("int", repr(value + 1))
                if value:
                    yield new("int", repr(value - 1))
            elif isinstance(value, str) and value:
                yield new("text", repr(value[:-1]))
                if len(value) > 1:
                    yield new("text", repr(value[1:]))
                    i = len(value) // 2
                    yield new("text", repr(value[:i] + value[i + 1:]))
        elif isinstance(node, ast.BinOp) and isinstance(
                node.op, (ast.Add, ast.Sub)):
            yield new("left", src(node.left))
            yield new("right", src(node.right))
        elif isinstance(node, (ast.If, ast.While)):
            yield new("true", "True", node.test)
            yield new("false", "False", node.test)
        elif isinstance(node, ast.IfExp):
            yield new("then", src(node.body))
            yield new("else", src(node.orelse))
        elif isinstance(node, (ast.Expr, ast.AugAssign)):
            yield new("drop", "pass")
        elif isinstance(node, ast.Assign) and not isinstance(
                node.value, ast.Constant):
            yield new("none", "None", node.value)
        elif isinstance(node, ast.Break):
            yield new("continue", "continue")
        elif isinstance(node, ast.Continue):
            yield new("pass", "pass")
        elif isinstance(node, ast.Call):
            if node.keywords and len(node.keywords) + len(node.args) > 0:
                for k in node.keywords:
                    a, b = span(text, starts, k)
                    end = b
                    while end < len(text) and text[end] in ", \n":
                        end += 1
                    if k.arg:
                        yield ("keyword", k.lineno, a, end, "")
            if isinstance(node.func, ast.Attribute) and node.func.attr in (
                    "strip", "lstrip", "rstrip", "lower", "upper", "replace",
                    "copy", "sub", "expandtabs"):
                if node.func.attr == "sub":
                    yield new("no call", src(node.args[-1]))
                else:
                    yield new("no call", src(node.func.value))
        elif isinstance(node, ast.Slice):
            if node.lower is not None:
                yield new("lower", "", node.lower)
            if node.upper is not None:
                yield new("upper", "", node.upper)


def run(command, cwd, env, limit):
    job = subprocess.Popen(command, cwd=cwd, env=env, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           start_new_session=True)
    try:
        out, _ = job.communicate(timeout=limit)
        return job.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(job.pid, 9)
        job.communicate()
        return -9, ""


def tests(repo, env):
    code, out = run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q",
                     "--maxfail=7", "-p", "no:cacheprovider",
                     "--ignore=openformats/tests/formats/indesign",
                     "openformats/tests"],
                    repo, {k: v for k, v in env.items() if k != "TMPDIR"},
                    120)
    tail = out.strip().split("\n")[-1]
    return "6 failed, 589 passed" in tail


def work(slot, queue, lock, log):
    repo, verif = "%s/r%d" % (OUT, slot), "%s/v%d" % (OUT, slot)
    temp = "%s/t%d" % (OUT, slot)
    for path, source in ((repo, REPO), (verif, HERE)):
        shutil.rmtree(path, ignore_errors=True)
        shutil.copytree(source, path, symlinks=True,
                        ignore=shutil.ignore_patterns(".git", "seeded"))
    env = dict(os.environ, PYTHONPATH=repo, TMPDIR=temp, VP_REPO=repo,
               VERIF_SHARDS="1", VERIF_SCALE=SCALE, VERIF_SHRINK_S="1",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               TZ="UTC", LANG="C.UTF-8")
    while True:
        shutil.rmtree(temp, ignore_errors=True)
        os.makedirs(temp)
        with lock:
            if not queue:
                return
            name, (kind, line, a, b, value) = queue.pop()
        path = os.path.join(repo, "openformats", name)
        with open(path, encoding="utf-8") as stream:
            text = stream.read()
        changed = text[:a] + value + text[b:]
        result, began = None, time.time()
        try:
            ast.parse(changed)
        except SyntaxError:
            result = "syntax"
        if result is None:
            with open(path, "w", encoding="utf-8") as stream:
                stream.write(changed)
            if not tests(repo, env):
                result = "tests"
            else:
                key = "formats/yaml" if "/yaml/" in name else name
                for prop in FILES[key].split():
                    code, out = run([verif + "/bin/check", prop], verif, env,
                                    600)
                    if code == 1:
                        result = prop
                        break
                    if code != 0:
                        result = "code %s %s" % (code, prop)
                        break
            with open(path, "w", encoding="utf-8") as stream:
                stream.write(text)
        with lock:
            first = text.rfind("\n", 0, a) + 1
            last = text.find("\n", b)
            entry = "%s:%d %s [%s] %.0f s\n    - %s\n    + %s\n" % (
                name, line, kind, result or "SURVIVED", time.time() - began,
                text[first:last].strip(),
                (text[first:a] + value + text[b:last]).strip())
            log.write(entry)
            log.flush()
            if result is None:
                with open(OUT + "/survivors.txt", "a") as stream:
                    stream.write(entry)


def main():
    samples = int(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    only = sys.argv[3:]
    queue = []
    for key in FILES:
        names = [key]
        if key == "formats/yaml":
            names = ["formats/yaml/" + n for n in sorted(os.listdir(
                REPO + "/openformats/formats/yaml")) if n != "__init__.py"
                and n.endswith(".py")]
        for name in names:
            if only and name not in only:
                continue
            with open(os.path.join(REPO, "openformats", name),
                      encoding="utf-8") as stream:
                text = stream.read()
            queue += [(name, m) for m in mutants(text)
                      if m[4] != text[m[2]:m[3]]]
    print(len(queue), "mutants")
    random.Random(seed).shuffle(queue)
    queue = queue[:samples]
    os.makedirs(OUT, exist_ok=True)
    lock = threading.Lock()
    with open(OUT + "/log.txt", "a") as log:
        threads = [threading.Thread(target=work, args=(i, queue, lock, log))
                   for i in range(SLOTS)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()


if __name__ == "__main__":
    main()
