"""
Framework of the checks: Hypothesis generates JSON-able cases, a persistent
Jython worker executes them against /repo/lib, oracles in Python 3 judge.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings
from hypothesis import errors as hyp_errors

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
JYTHON = "/opt/jy/bin/jython2"
CALL_TIMEOUT = 60.0
STEP_LIMIT = 2000000
SHRINK_BUDGET = 45.0


class Violation(Exception):
    """the code under test broke the property on this case"""


class HarnessError(Exception):
    pass


class Hang(Exception):
    """a call ran into the time limit and, re-run under a line counter, did
    not end within STEP_LIMIT executed lines"""


class Inconclusive(Exception):
    pass


class Abort(BaseException):
    """leaves hypothesis at once"""


class RemoteError(Exception):
    """exception raised by the code under test"""

    def __init__(self, exc, msg, tb):
        Exception.__init__(self, "%s: %s" % (exc, msg))
        self.exc, self.msg, self.tb = exc, msg, tb


class Worker(object):
    def __init__(self, scratch):
        self.scratch = scratch
        self.proc = None
        self.dirs = 0

    def start(self):
        env = {"PATH": "/opt/jy/bin:/usr/local/bin:/usr/bin:/bin",
               "HOME": self.scratch, "TMPDIR": self.scratch,
               "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
               "PYTHONHASHSEED": "0",
               "JYTHONPATH": "%s/lib:/opt/jy/lib" % REPO,
               "VERIF_REPO": REPO}
        self.cwd = os.path.join(self.scratch, "cwd")
        os.makedirs(self.cwd, exist_ok=True)
        self.err = open(os.path.join(self.scratch, "worker.err"), "ab")
        self.proc = subprocess.Popen(
            [JYTHON, os.path.join(HERE, "worker.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            cwd=self.cwd, env=env, start_new_session=True)
        self.buf = b""
        self._exchange({"mod": "base", "fn": "ping", "args": {}}, 180)

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()
            try:
                self.proc.stdin.close()
            except OSError:
                pass
            self.proc.stdout.close()
            self.err.close()
            self.proc = None

    def _exchange(self, req, timeout):
        data = (json.dumps(req) + "\n").encode("ascii")
        fd = self.proc.stdout.fileno()
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
        except OSError:
            raise HarnessError("worker is gone: " + self._stderr())
        deadline = time.monotonic() + timeout
        while b"\n" not in self.buf:
            left = deadline - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([fd], [], [], left)
            if r:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    raise HarnessError("worker died: " + self._stderr())
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def _stderr(self):
        try:
            with open(os.path.join(self.scratch, "worker.err"), "rb") as f:
                return f.read()[-2000:].decode("utf-8", "replace")
        except OSError:
            return ""

    def call(self, fn, args=None, **kw):
        """run jops function 'mod.fn'; returns its value, raises RemoteError
        when the code under test raised"""
        mod, name = fn.split(".")
        if args is None:
            args = {}
        args.update(kw)
        if self.proc is None:
            self.start()
        req = {"mod": mod, "fn": name, "args": args}
        resp = self._exchange(req, CALL_TIMEOUT)
        if resp is None:
            # decide by counting executed lines in a fresh process, not by time
            self.stop()
            self.start()
            req["limit"] = STEP_LIMIT
            resp = self._exchange(req, 240)
            self.stop()
            if resp is None:
                raise Inconclusive("no answer in time from " + fn)
            if "steplimit" in resp:
                raise Hang("%s: no result after %d executed lines"
                           % (fn, STEP_LIMIT))
        if "ok" in resp:
            return resp["ok"]
        if "exc" in resp:
            raise RemoteError(resp["exc"], resp["msg"], resp["tb"])
        raise HarnessError(resp.get("harness") or repr(resp))

    def newdir(self):
        """a fresh directory for one case"""
        self.dirs += 1
        d = os.path.join(self.scratch, "d%d" % self.dirs)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d


class TempDir(object):
    def __init__(self, worker):
        self.worker = worker

    def __enter__(self):
        self.path = self.worker.newdir()
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


class Test(object):
    """One executable check of a property.

    run(case, worker) raises Violation, or returns the collection of labels
    describing the case; the case is non-trivial iff "nontrivial" is among
    the labels.
    """

    def __init__(self, name, strategy, run, quick, thorough=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick = quick
        self.thorough = thorough or quick * 20


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation("%s: got %s, expected %s"
                        % (what, short(got), short(want)))


def close(a, b, tol=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def short(x, n=1500):
    t = json.dumps(x, sort_keys=True, default=repr, ensure_ascii=True)
    return t if len(t) <= n else t[:n] + "..."


def canon(case):
    return json.loads(json.dumps(case))


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def execute(test, case, worker):
    """run one case; every way the code under test may fail becomes a
    Violation"""
    try:
        return test.run(case, worker) or ()
    except RemoteError as e:
        raise Violation("unexpected %s: %s\n%s" % (e.exc, e.msg, e.tb))
    except Hang as e:
        raise Violation(str(e))
    except (Violation, Inconclusive, HarnessError, MemoryError):
        raise
    except OSError as e:
        if isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError)):
            raise Violation("missing output: %s\n%s" % (e, traceback.format_exc()))
        raise
    except Exception as e:
        # the oracle cannot make sense of what it was given; on a tree with
        # the property this does not happen
        raise Violation("unintelligible outcome, %s: %s\n%s"
                        % (type(e).__name__, e, traceback.format_exc()))


# ---------------------------------------------------------------- known findings

def load_findings():
    """known_findings.txt: JSON lines are recorded findings, identified by
    test and exact case (lines starting with 'fixed:' are for the reader);
    regressions.jsonl: cases that failed before a repair and must hold"""
    res = []
    for name, status in (("known_findings.txt", "known"),
                         ("regressions.jsonl", "fixed")):
        path = os.path.join(VERIF, name)
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    if line.startswith("{"):
                        res.append(dict(json.loads(line), status=status))
    return res


def finding_for(prop, test, case, findings):
    for f in findings:
        if f["status"] == "known" and f["property"] == prop \
                and f["test"] == test and f["case"] == case:
            return f
    return None


# ---------------------------------------------------------------- one shard

class Shard(object):
    def __init__(self, prop, seed, tier, index, shards, scratch, out):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.index, self.shards = index, shards
        self.scratch, self.out = scratch, out
        self.mod = importlib.import_module("props." + prop)
        self.worker = Worker(scratch)
        self.findings = load_findings()
        self.evaluations = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.per_test = collections.Counter()
        self.violation = None
        self.inconclusive = 0
        self.deadline = time.monotonic() + float(
            os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "3000"))
        self.truncated = 0

    def run(self):
        try:
            for n, test in enumerate(self.mod.TESTS):
                self.run_test(test, n)
                if self.violation:
                    break
        finally:
            self.worker.stop()
        with open(self.out, "w") as f:
            json.dump({"evaluations": self.evaluations,
                       "keys": sorted(self.keys),
                       "labels": self.labels, "samples": self.samples,
                       "per_test": self.per_test,
                       "inconclusive": self.inconclusive,
                       "truncated": self.truncated,
                       "violation": self.violation}, f)

    def run_test(self, test, n):
        total = test.quick if self.tier == "quick" else test.thorough
        if total == 0:
            # only replays the committed findings
            return
        count = max(1, (total + self.shards - 1) // self.shards)
        state = {"fail": None, "since": None, "log": [], "n": 0}

        def body(raw):
            if state["since"] is not None and \
                    time.monotonic() - state["since"] > SHRINK_BUDGET:
                raise Abort()
            if time.monotonic() > self.deadline and state["since"] is None:
                self.truncated += 1
                return
            case = canon(raw)
            if state["since"] is None:
                state["log"].append(case)
            try:
                labels = execute(test, case, self.worker)
            except Violation as v:
                if finding_for(self.prop, test.name, case, self.findings):
                    return
                size = len(json.dumps(case))
                if state["since"] is None:
                    state["since"] = time.monotonic()
                if state["fail"] is None or size <= state["fail"][0]:
                    state["fail"] = (size, case, str(v))
                if "executed lines" in str(v):
                    raise Abort()
                raise
            except Inconclusive:
                self.inconclusive += 1
                return
            if state["since"] is None:
                state["n"] += 1
                self.evaluations += 1
                self.per_test[test.name] += 1
                for lab in labels:
                    self.labels[test.name + ":" + lab] += 1
                if "nontrivial" in labels:
                    k = key_of([test.name, case])
                    if k not in self.keys:
                        self.keys.add(k)
                        if sum(s["test"] == test.name for s in self.samples) < 2 \
                                and len(json.dumps(case)) < 3000 \
                                and state["n"] > count // 3:
                            self.samples.append({"test": test.name, "case": case})

        fn = given(test.strategy)(body)
        fn = settings(max_examples=count, deadline=None, database=None,
                      report_multiple_bugs=False, print_blob=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=[HealthCheck.too_slow,
                                             HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])(fn)
        fn = hyp_seed(self.seed * 1000003 + self.index * 101 + n)(fn)
        try:
            fn()
        except Abort:
            pass
        except Violation:
            pass
        except (hyp_errors.Flaky, hyp_errors.FlakyFailure):
            if state["fail"] is None:
                raise
        if state["fail"] is not None:
            self.confirm(test, state)

    def confirm(self, test, state):
        """reproduce in a fresh process: alone, or after the cases that
        preceded it (state kept by the code under test between calls)"""
        size, case, msg = state["fail"]
        worker = self.worker

        def fails(cases):
            worker.stop()
            last = None
            for i, c in enumerate(cases):
                try:
                    execute(test, c, worker)
                    last = None
                except Violation as v:
                    last = str(v)
                    if i < len(cases) - 1:
                        return last
                except Inconclusive:
                    return None
            return last

        m = fails([case])
        if m:
            self.violation = {"property": self.prop, "test": test.name,
                              "prefix": [], "case": case, "message": m}
            return
        log = state["log"]
        for start in (log, log + [case]):
            m = fails(start)
            if m:
                prefix, last = self.reduce(fails, start)
                self.violation = {"property": self.prop, "test": test.name,
                                  "prefix": prefix, "case": last, "message": m}
                return
        raise HarnessError("failure does not reproduce: %s %s %s"
                           % (test.name, short(case), msg))

    def reduce(self, fails, cases):
        prefix, last = cases[:-1], cases[-1]
        end = time.monotonic() + SHRINK_BUDGET
        chunk = max(1, len(prefix) // 2)
        while chunk >= 1 and time.monotonic() < end:
            i = 0
            while i < len(prefix) and time.monotonic() < end:
                cand = prefix[:i] + prefix[i + chunk:]
                if fails(cand + [last]):
                    prefix = cand
                else:
                    i += chunk
            if chunk == 1:
                break
            chunk //= 2
        return prefix, last


# ---------------------------------------------------------------- the check

def clean_classes():
    """stale Jython class files must not stand in for their source"""
    for top in ("lib", "bin"):
        for d, _, files in os.walk(os.path.join(REPO, top)):
            for f in files:
                if f.endswith("$py.class") or f.endswith(".pyc"):
                    try:
                        os.unlink(os.path.join(d, f))
                    except OSError:
                        pass


def run_check(prop, tier, seed, shards):
    t0 = time.time()
    clean_classes()
    mod = importlib.import_module("props." + prop)
    shards = shards or getattr(mod, "SHARDS", 6)
    top = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    findings = load_findings()
    try:
        procs = []
        for i in range(shards):
            d = os.path.join(top, "s%d" % i)
            os.makedirs(d)
            out = os.path.join(top, "out%d.json" % i)
            err = open(os.path.join(top, "err%d" % i), "wb")
            procs.append((out, err, subprocess.Popen(
                [sys.executable, os.path.join(VERIF, "check.py"), prop,
                 "--shard", str(i), "--shards", str(shards), "--tier", tier,
                 "--seed", str(seed), "--scratch", d, "--out", out],
                stdout=err, stderr=err, cwd=d)))
        results, problems = [], []
        for i, (out, err, p) in enumerate(procs):
            rc = p.wait()
            err.close()
            if rc != 0 or not os.path.exists(out):
                with open(os.path.join(top, "err%d" % i), "rb") as f:
                    problems.append("shard %d rc %s: %s" % (
                        i, rc, f.read()[-3000:].decode("utf-8", "replace")))
            else:
                with open(out) as f:
                    results.append(json.load(f))
        # replay the committed minimal reproductions
        replayed, regress = 0, None
        w = Worker(os.path.join(top, "s0"))
        for f in findings:
            if f["property"] != prop or "case" not in f:
                continue
            replayed += 1
            test = [t for t in mod.TESTS if t.name == f["test"]][0]
            try:
                execute(test, f["case"], w)
                bad = None
            except Violation as v:
                bad = str(v)
                w.stop()
            if f["status"] == "known":
                if bad:
                    print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
                else:
                    print("note: known finding no longer fails: " + f["what"])
            elif bad and regress is None:
                regress = {"property": prop, "test": f["test"], "prefix": [],
                           "case": f["case"], "message": bad}
        w.stop()
    finally:
        shutil.rmtree(top, ignore_errors=True)

    violations = [r["violation"] for r in results if r["violation"]]
    if regress:
        violations.append(regress)
    keys, labels, per_test = set(), collections.Counter(), collections.Counter()
    samples = []
    for r in results:
        keys.update(r["keys"])
        labels.update(r["labels"])
        per_test.update(r["per_test"])
    for t in mod.TESTS:
        for r in results:
            samples.extend([s for s in r["samples"] if s["test"] == t.name][:1])
            if any(s["test"] == t.name for s in samples):
                break
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:12],
            "cases_per_test": dict(per_test),
            "classes": dict(labels),
            "inconclusive": sum(r["inconclusive"] for r in results),
            "not_run_for_lack_of_time": sum(r["truncated"] for r in results),
            "regression_cases_replayed": replayed,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    if violations:
        v = min(violations, key=lambda v: len(json.dumps(v)))
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, key_of(v["case"])))
        with open(path, "w") as f:
            json.dump(v, f, indent=1, sort_keys=True)
        print("%s / %s: %s" % (prop, v["test"], v["message"]))
        print("case: " + short(v["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        sys.stdout.write("\n".join(problems[:1]) + "\n%d shards failed\n" % len(problems))
        return 2
    if evidence["coverage"]["evaluations"] == 0:
        print("nothing was evaluated")
        return 2
    print("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (
        prop, evidence["coverage"]["evaluations"], len(keys),
        evidence["wall_s"]))
    return 0


def replay(path):
    clean_classes()
    with open(path) as f:
        v = json.load(f)
    mod = importlib.import_module("props." + v["property"])
    test = [t for t in mod.TESTS if t.name == v["test"]][0]
    top = tempfile.mkdtemp(prefix="verif-replay-")
    w = Worker(top)
    try:
        for c in v.get("prefix", []) + [v["case"]]:
            try:
                execute(test, c, w)
            except Violation as e:
                print("%s / %s: %s" % (v["property"], v["test"], e))
                print("VIOLATION property=%s replay=%s"
                      % (v["property"], os.path.abspath(path)))
                return 1
    finally:
        w.stop()
        shutil.rmtree(top, ignore_errors=True)
    print("held")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--shard", type=int, default=None)
    ap.add_argument("--scratch")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    if a.shard is not None:
        Shard(a.prop, a.seed, a.tier, a.shard, a.shards, a.scratch, a.out).run()
        return 0
    try:
        return run_check(a.prop, a.tier, a.seed, a.shards)
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
