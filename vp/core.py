"""Core of the checks: generated cases, shards, replay, evidence.

A property is decided by one or more *subs*.  A sub is a strategy that makes
JSON-able cases and a function that runs one case against the code under test
and asserts.  Everything random in a case is in the case (or derived from a
seed stored in it), so a case can be replayed without hypothesis.
"""
import hashlib
import json
import os
import random
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Bug(AssertionError):
    """The property is violated by this case."""


class Reject(Exception):
    """The case is outside the domain of the property (counted, not run)."""


def need(cond, msg, *args):
    if not cond:
        raise Bug(msg % args if args else msg)


class Ctx:
    """What one execution reports about itself."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.weight = 1

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


class Sub:
    def __init__(self, name, strategy, test, quick, thorough=None, shards=4,
                 rule=""):
        self.name = name
        self.strategy = strategy      # callable -> hypothesis strategy
        self.test = test              # test(case, ctx)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.rule = rule


class Prop:
    def __init__(self, pid, subs):
        self.pid = pid
        self.subs = subs


def canon(case):
    return json.dumps(case, sort_keys=True)


def reset_state(text):
    import numpy as np
    h = int(hashlib.sha256(text.encode()).hexdigest()[:8], 16)
    np.random.seed(h)
    random.seed(h)


def run_case(sub, case):
    """Run one case.  Returns (status, ctx, error text)."""
    text = canon(case)
    case = json.loads(text)
    ctx = Ctx()
    reset_state(text)
    try:
        sub.test(case, ctx)
    except Reject:
        return "reject", ctx, ""
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # any exception on a valid case is a violation
        name = type(e).__name__
        if not isinstance(e, Exception):
            raise
        return "fail", ctx, "%s: %s\n%s" % (name, e, traceback.format_exc())
    return "ok", ctx, ""


# A failure counts if one of REPEATS further runs of the case fails too, or if
# UNREPEATED cases of the property failed only once (state that leaks from
# case to case, races); a single one is the noise of timing or rounding.
REPEATS = 4
UNREPEATED = 3


def derive_seed(*parts):
    h = hashlib.sha256("/".join(map(str, parts)).encode()).hexdigest()
    return int(h[:15], 16)


def run_shard(pid, sub, seed, n, deadline, shrink_s, tier):
    """Generated search over one shard (runs in its own process)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = shrink_s

    out = {"sub": sub.name, "evaluations": 0, "rejected": 0,
           "nontrivial": set(), "labels": {}, "samples": [],
           "failure": None, "skipped": 0, "unrepeated": []}
    best = {}

    class Fail(Exception):
        pass

    def body(case):
        if time.monotonic() > deadline and out["failure"] is None:
            out["skipped"] += 1
            return
        status, ctx, err = run_case(sub, case)
        if status == "reject":
            out["rejected"] += 1
            return
        out["evaluations"] += 1
        if out["failure"] is None:
            for lab in set(ctx.labels):
                out["labels"][lab] = out["labels"].get(lab, 0) + 1
            if ctx.is_nontrivial:
                text = canon(case)
                out["nontrivial"].add(
                    hashlib.sha256(text.encode()).hexdigest()[:16])
                if len(out["samples"]) < 3 and len(text) < 3000:
                    out["samples"].append(json.loads(text))
        if status == "fail" and out["failure"] is None and \
                len(out["unrepeated"]) < 3 and not any(
                    run_case(sub, case)[0] == "fail" for _ in range(REPEATS)):
            # the same case in the same process did not fail again
            out["unrepeated"].append({"case": json.loads(canon(case)),
                                      "error": err})
            return
        if status == "fail":
            text = canon(case)
            cur = {"case": json.loads(text), "error": err}
            if not best or len(text) <= len(canon(best["case"])):
                best.update(cur)
            out["failure"] = cur
            raise Fail(err.splitlines()[0] if err else "fail")

    wrapped = settings(
        max_examples=n, deadline=None, database=None, derandomize=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
        print_blob=False, phases=(Phase.generate, Phase.shrink),
    )(given(sub.strategy())(body))
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        import io
        import contextlib
        sink = io.StringIO()
        with contextlib.redirect_stdout(sink), \
                contextlib.redirect_stderr(sink):
            wrapped()
    except Fail:
        pass
    except BaseException as e:
        if out["failure"] is None:
            raise
        out["failure"]["error"] += "\n(search ended with %r)" % (e,)
    if out["failure"] is not None and best:
        out["failure"] = best
    out["nontrivial"] = sorted(out["nontrivial"])
    return out


def run_fixed(pid, sub, cases):
    out = {"sub": sub.name, "evaluations": 0, "rejected": 0,
           "nontrivial": set(), "labels": {}, "samples": [],
           "failure": None, "skipped": 0, "unrepeated": []}
    for case in cases:
        status, ctx, err = run_case(sub, case)
        if status == "reject":
            out["rejected"] += 1
            continue
        out["evaluations"] += 1
        out["labels"]["corpus"] = out["labels"].get("corpus", 0) + 1
        if ctx.is_nontrivial:
            out["nontrivial"].add(
                hashlib.sha256(canon(case).encode()).hexdigest()[:16])
        if status == "fail":
            out["failure"] = {"case": case, "error": err}
            break
    out["nontrivial"] = sorted(out["nontrivial"])
    return out


# --------------------------------------------------------------------------
# process pool: one forked process per task, killed when a violation is found

def _child(fn, path):
    import pickle
    code = 0
    try:
        res = ("ok", fn())
    except BaseException:
        res = ("error", traceback.format_exc())
        code = 3
    with open(path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(path + ".tmp", path)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def _kill(pid):
    import signal
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def run_tasks(tasks, jobs, hard_deadline, on_result):
    """tasks: list of (key, fn).  on_result(key, status, value) -> stop?"""
    import pickle
    tmp = tempfile.mkdtemp(prefix="vprun-")
    pending = list(enumerate(tasks))
    running = {}
    stopped = False
    timed_out = []
    try:
        while (pending and not stopped) or running:
            while pending and len(running) < jobs and not stopped:
                i, (key, fn) = pending.pop(0)
                path = os.path.join(tmp, "r%d" % i)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                        # scratch directory of this task
                        d = os.path.join(tmp, "d%d" % i)
                        os.mkdir(d)
                        os.environ["TMPDIR"] = d
                        tempfile.tempdir = d
                        os.chdir(d)
                        null = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(null, 1)
                        os.dup2(null, 2)
                        _child(fn, path)
                    finally:
                        os._exit(4)
                running[pid] = (key, path)
            try:
                pid, st = os.waitpid(-1, os.WNOHANG)
            except ChildProcessError:
                pid = 0
            if pid and pid in running:
                key, path = running.pop(pid)
                _kill(pid)     # anything it left behind in its group
                if os.path.exists(path):
                    with open(path, "rb") as f:
                        status, value = pickle.load(f)
                else:
                    status, value = "error", "worker died, status %s" % st
                if on_result(key, status, value):
                    stopped = True
                    for p in list(running):
                        _kill(p)
                continue
            if time.monotonic() > hard_deadline:
                stopped = True
                for p in list(running):
                    timed_out.append(running[p][0])
                    _kill(p)
                    try:
                        os.waitpid(p, 0)
                    except OSError:
                        pass
                    running.pop(p)
                continue
            if not pid:
                time.sleep(0.01)
    finally:
        for p in list(running):
            _kill(p)
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return timed_out
