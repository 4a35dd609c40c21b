"""PyPy-side worker: executes generated cases against the real code in /repo.

Protocol: one JSON object per line on stdin ({"case": ...}), one JSON object
per line on stdout:
  {"r": "ok", "nontrivial": bool, "labels": [...], "text": "..."}
  {"r": "violation", "msg": ..., "text": ...}
  {"r": "harness-error", "msg": ...}
Never imported by code running under Hypothesis; replaying a saved case only
needs this file (see harness/replay.py).
"""
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "60"))


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _on_timer(signum, frame):
    raise CaseTimeout()


def safe_repr(v):
    try:
        return repr(v)
    except Exception as e:
        return "<%s>" % e


class Recorder(object):
    """Passed to check functions; collects labels and offers assertions."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.text = None
        self.known = []

    def label(self, *names):
        self.labels.update(names)

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True

    def show(self, text):
        if self.text is None:
            self.text = repr(text) if isinstance(text, bytes) else text

    def fail(self, msg, **info):
        raise Violation(msg + ("".join(
            "\n  %s = %s" % (k, safe_repr(v))
            for k, v in sorted(info.items()))))

    def eq(self, got, want, msg, **info):
        if got != want or type(got) is bool and type(want) is not bool:
            self.fail(msg, got=got, want=want, **info)

    def true(self, cond, msg, **info):
        if not cond:
            self.fail(msg, **info)

    def raises(self, exc, fn, msg, **info):
        try:
            result = fn()
        except exc as e:
            return e
        self.fail(msg + ": nothing raised", result=result, **info)


def _frames_in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    for frame, _ in traceback.walk_tb(tb):
        if os.path.realpath(frame.f_code.co_filename).startswith(root):
            return True
    return False


def run_case(module, case):
    rec = Recorder()
    try:
        if CPU_LIMIT:
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            module.check(case, rec)
        finally:
            if CPU_LIMIT:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as e:
        return {"r": "violation", "msg": str(e), "text": rec.text}
    except CaseTimeout:
        return {"r": "violation", "timeout": True, "text": rec.text,
                "msg": "no result after %.0f s of CPU time" % CPU_LIMIT}
    except Exception as e:
        _, _, tb = sys.exc_info()
        text = traceback.format_exc()
        if _frames_in_repo(tb):
            return {"r": "violation", "text": rec.text,
                    "msg": "unexpected %s raised by the code under test\n%s"
                           % (type(e).__name__, text[-3000:])}
        # the check could not make sense of what it was given: a result of
        # another shape than the interface promises (never on a sound tree)
        return {"r": "violation", "text": rec.text,
                "msg": "the result is not of the expected shape\n"
                       + text[-3000:]}
    return {"r": "ok", "nontrivial": rec.nontrivial,
            "labels": sorted(rec.labels), "text": rec.text}


def load(name):
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    # the property module names the /repo modules it exercises; importing one
    # that the tree broke is a failure of the tree, reported as such
    return importlib.import_module("props.%s_chk" % name)


def trace():
    """Record the lines of the code under test that are executed
    (tools/coverage.py)."""
    lines, inside = set(), {}

    def local(frame, event, arg):
        if event == "line":
            lines.add((frame.f_code.co_filename, frame.f_lineno))
        return local

    def start(frame, event, arg):
        name = frame.f_code.co_filename
        if name not in inside:
            inside[name] = name.startswith(os.path.join(REPO, "openformats"))
        return local if inside[name] else None
    sys.settrace(start)
    return lines


def main():
    name = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", encoding="utf-8")
    os.dup2(2, 1)  # stray prints of the code under test go to stderr
    sys.stdout = sys.stderr
    scratch = tempfile.mkdtemp(prefix="verif-of-")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        signal.signal(signal.SIGVTALRM, _on_timer)
        lines = trace() if os.environ.get("VERIF_COV") else None
        module = load(name)
        out.write(json.dumps({"ready": True}) + "\n")
        out.flush()
        for line in sys.stdin:
            case = json.loads(line)["case"]
            res = run_case(module, case)
            out.write(json.dumps(res) + "\n")
            out.flush()
    finally:
        if lines is not None:
            with open(os.path.join(os.environ["VERIF_COV"],
                                   "%s-%d" % (name, os.getpid())), "w") as f:
                f.writelines("%s:%d\n" % x for x in lines)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
