"""Hypothesis-side driver (CPython, python3-vt).

  check.py <PROP>            run a check (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE     re-run a saved replay file

The parent forks SHARDS child processes; each owns a persistent PyPy worker
and runs Hypothesis with a seed derived from VERIF_SEED and the shard number,
so that a run is a function of the tree and VERIF_SEED.
"""
import argparse
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import shutil
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
PYPY = "/opt/venv/bin/python"
REPO = os.environ.get("VP_REPO", "/repo")
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK_S", "40"))


class HarnessError(Exception):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


class Worker(object):
    def __init__(self, name, scratch):
        self.name, self.scratch = name, scratch
        self.proc = None
        self.history = []

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", LANG="C.UTF-8", LC_ALL="C.UTF-8",
                   PYTHONIOENCODING="utf-8", TMPDIR=self.scratch,
                   PYTHONPATH=REPO)
        self.err = open(os.path.join(self.scratch, "w%d.err" % os.getpid()),
                        "ab")
        self.proc = subprocess.Popen(
            [PYPY, os.path.join(HERE, "worker.py"), self.name],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=self.scratch, encoding="utf-8")
        line = self.proc.stdout.readline()
        if not line:
            raise HarnessError("worker did not start: " + self.tail())
        self.history = []

    def tail(self):
        try:
            with open(self.err.name, "rb") as f:
                return f.read()[-3000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def run(self, case):
        if self.proc is None:
            self.start()
        self.history.append(case)
        try:
            self.proc.stdin.write(json.dumps({"case": case}) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except BrokenPipeError:
            line = ""
        if not line:
            code = self.proc.wait()
            self.proc = None
            raise HarnessError("worker died (%s): %s" % (code, self.tail()))
        res = json.loads(line)
        if res["r"] == "harness-error":
            raise HarnessError(res["msg"] + "\ncase: " + canon(case)[:3000])
        return res

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=20)
            except Exception:
                self.proc.kill()
                self.proc.wait()
            self.proc = None


def run_fresh(name, scratch, cases):
    """Result of the last of `cases` run in order in a new worker."""
    w = Worker(name, scratch)
    try:
        res = None
        for c in cases:
            res = w.run(c)
        return res
    finally:
        w.stop()


class Found(Exception):
    pass


class ShardRun(object):
    def __init__(self, prop, spec, shard, seed, examples, deadline, scratch):
        self.prop, self.spec, self.shard = prop, spec, shard
        self.seed, self.examples = seed, examples
        self.deadline, self.scratch = deadline, scratch
        self.evals = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.failure = None
        self.first_failure_at = None
        self.fail_history = None
        self.timeout_case = None
        self.capped = False

    def account(self, case, res):
        self.evals += 1
        for l in res.get("labels", ()):
            self.labels[l] = self.labels.get(l, 0) + 1
        if res.get("nontrivial"):
            h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
            if h not in self.distinct:
                self.distinct.add(h)
                text = res.get("text")
                if len(self.samples) < 3 and len(self.distinct) % 7 == 3 and (
                        len(canon(case)) < 1500):
                    self.samples.append({"case": case,
                                         "text": text[:1500] if text else None})

    def execute(self, case):
        key = canon(case)
        if self.timeout_case is not None:
            if key == self.timeout_case:
                raise Found("timeout")
            return
        if self.failure is not None:
            if key == self.failure[0] and self.failure[2]:
                raise Found(self.failure[1]["msg"])
            if time.monotonic() - self.first_failure_at > SHRINK_SECONDS:
                return
        elif time.monotonic() > self.deadline:
            self.capped = True
            return
        res = self.worker.run(case)
        if res["r"] == "ok":
            if self.failure is None:
                self.account(case, res)
            return
        self.evals += 1
        if res.get("timeout"):
            self.timeout_case = key
        if self.failure is None:
            self.first_failure_at = time.monotonic()
            self.fail_history = list(self.worker.history)
        self.failure = (key, res, True)
        raise Found(res["msg"])

    def run(self):
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        gen = importlib.import_module("props.%s_gen" % self.spec["module"])
        self.worker = Worker(self.spec["module"], self.scratch)
        try:
            @hypothesis.seed(self.seed * 1009 + self.shard)
            @settings(max_examples=self.examples, database=None, deadline=None,
                      phases=[Phase.generate, Phase.shrink],
                      report_multiple_bugs=False, print_blob=False,
                      suppress_health_check=list(HealthCheck))
            @given(gen.strategy())
            def prop(case):
                self.execute(case)
            try:
                prop()
            except HarnessError:
                raise
            except BaseException as e:
                if self.failure is None:
                    raise HarnessError("hypothesis: %r" % (e,))
        finally:
            self.worker.stop()
        out = {"evals": self.evals, "distinct": sorted(self.distinct),
               "labels": self.labels, "samples": self.samples,
               "capped": self.capped, "failure": None}
        if self.failure is not None:
            case = json.loads(self.failure[0])
            out["failure"] = self.confirm(case)
        return out

    def confirm(self, case):
        name = self.spec["module"]
        res = run_fresh(name, self.scratch, [case])
        if res["r"] == "violation":
            return {"cases": [case], "msg": res["msg"], "text": res["text"]}
        # depends on what ran before it: replay the history that led to it
        hist = self.fail_history
        n = 2
        while True:
            res = run_fresh(name, self.scratch, hist[-n:])
            if res["r"] == "violation":
                return {"cases": hist[-n:], "text": res["text"],
                        "msg": "after the preceding cases of this history: "
                               + res["msg"]}
            if n >= len(hist):
                break
            n *= 4
        raise HarnessError("failure did not reproduce: " + canon(case)[:3000]
                           + "\n" + self.failure[1]["msg"])


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def corpus_cases(prop):
    d = os.path.join(VERIF, "corpus", prop)
    out = []
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".json"):
                with open(os.path.join(d, fn), encoding="utf-8") as f:
                    out.append((fn, json.load(f)))
    return out


def write_replay(prop, spec, failure):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "module": spec["module"],
            "cases": failure["cases"], "message": failure["msg"],
            "document": failure["text"]}
    h = hashlib.sha1(canon(failure["cases"]).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w", encoding="utf-8") as f:
        json.dump(body, f, indent=1, ensure_ascii=False)
    return path


def run_check(prop):
    from props.registry import PROPS
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    tier = os.environ.get("VERIF_TIER") or "quick"
    total = spec["thorough"] if tier == "thorough" else spec["quick"]
    scale = float(os.environ.get("VERIF_SCALE") or "1")
    total = max(SHARDS, int(total * scale))
    cap = float(os.environ.get("VERIF_CAP_S") or
                (3600 * 3 if tier == "thorough" else 420))
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="verif-of-")
    failure, exit_code = None, 0
    merged = {"evals": 0, "distinct": set(), "labels": {}, "samples": [],
              "capped": False}
    known_hit = []
    try:
        # 1. saved regression cases and known findings, without Hypothesis
        w = Worker(spec["module"], scratch)
        try:
            regress = 0
            for fn, case in corpus_cases(prop):
                res = w.run(case)
                regress += 1
                if res["r"] == "violation" and failure is None:
                    failure = {"cases": [case], "msg": res["msg"],
                               "text": res["text"]}
                    if res.get("timeout"):
                        break
            for k in load_known(prop):
                res = w.run(k["case"])
                if res["r"] == "violation":
                    known_hit.append(k)
        finally:
            w.stop()
        merged["evals"] += regress
        # 2. generated cases
        if failure is None:
            procs = []
            for s in range(SHARDS):
                n = total // SHARDS + (1 if s < total % SHARDS else 0)
                outp = os.path.join(scratch, "shard%d.json" % s)
                procs.append((s, outp, subprocess.Popen(
                    [sys.executable, "-B", os.path.abspath(__file__),
                     "--shard", str(s), prop, str(seed), str(n),
                     str(cap), scratch, outp])))
            results = []
            for s, outp, p in procs:
                code = p.wait()
                if code != 0:
                    raise HarnessError("shard %d failed (%s)" % (s, code))
                with open(outp, encoding="utf-8") as f:
                    results.append(json.load(f))
            best = None
            for r in results:
                merged["evals"] += r["evals"]
                merged["distinct"].update(r["distinct"])
                merged["capped"] |= r["capped"]
                for l, c in r["labels"].items():
                    merged["labels"][l] = merged["labels"].get(l, 0) + c
                if len(merged["samples"]) < 4:
                    merged["samples"].extend(r["samples"][:1])
                if r["failure"] is not None:
                    size = sum(len(canon(c)) for c in r["failure"]["cases"])
                    if best is None or size < best[0]:
                        best = (size, r["failure"])
            if best:
                failure = best[1]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    from props.registry import RULES
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": merged["evals"],
            "distinct_nontrivial": len(merged["distinct"]),
            "rule": RULES[prop],
            "samples": merged["samples"][:4],
            "classes": dict(sorted(merged["labels"].items())),
            "regression_cases": regress,
            "requested_cases": total,
            "stopped_early_by_time_cap": merged["capped"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + ".tmp", path)
    if failure:
        rp = write_replay(prop, spec, failure)
        print(failure["msg"][:3000])
        if failure["text"]:
            print("--- document\n%s\n---" % failure["text"][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s held on %d cases (%d distinct non-trivial), %.1f s" % (
        prop, merged["evals"], len(merged["distinct"]), evidence["wall_s"]))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(evidence["coverage"]["classes"], indent=1))
    return 0


def run_shard(argv):
    shard, prop, seed, n, cap, scratch, outp = argv
    from props.registry import PROPS
    run = ShardRun(prop, PROPS[prop], int(shard), int(seed), int(n),
                   time.monotonic() + float(cap), scratch)
    out = run.run()
    with open(outp, "w", encoding="utf-8") as f:
        json.dump(out, f)
    return 0


def replay(path):
    with open(path, encoding="utf-8") as f:
        body = json.load(f)
    scratch = tempfile.mkdtemp(prefix="verif-of-")
    try:
        res = run_fresh(body["module"], scratch, body["cases"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(res, indent=1, ensure_ascii=False))
    if res["r"] == "violation":
        print(res["msg"])
        print("VIOLATION property=%s replay=%s" % (body["property"], path))
        return 1
    return 0


def main():
    try:
        if sys.argv[1] == "--shard":
            return run_shard(sys.argv[2:])
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return run_check(sys.argv[1])
    except HarnessError as e:
        print("HARNESS-ERROR: %s" % e, file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main())
