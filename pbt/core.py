"""Property checks as generated-case campaigns.

A check is a set of subs.  A sub has a Hypothesis strategy producing plain JSON
cases and a function deciding one case against its oracle.  Because cases are
plain data, a shrunk failing case *is* the replay file, and replaying it does not
involve Hypothesis at all.
"""
import collections
import hashlib
import json
import os
import random
import signal
import time
import traceback

from .env import REPO, ROOT


class Violation(Exception):
    def __init__(self, message, signature=None):
        super().__init__(message)
        self.signature = signature


class Skip(Exception):
    """The case is outside the domain, or an internal helper does not exist any more."""


class CaseTimeout(KeyboardInterrupt):
    pass


class StopCampaign(KeyboardInterrupt):
    pass


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, shards, case_timeout, rule, enumerated=None, hang=False):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards = quick, thorough, shards
        self.case_timeout, self.rule = case_timeout, rule
        self.enumerated, self.hang = enumerated, hang


class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid, self.rule, self.assumptions, self.subs = pid, rule, list(assumptions), {}

    def sub(self, name, strategy=None, quick=100, thorough=None, shards=1, case_timeout=60, rule="", enumerated=None, hang=False):
        """`strategy`: a function returning a Hypothesis strategy (called in the worker).
        `enumerated`: a function (tier) -> list of cases, run in full before the generated ones
        (regression seeds and small exhaustive families).
        `hang`: every case ends within a small fraction of the limit, so that one that does not
        end within four times the limit in a process of its own is a failure.  Without it, that
        holds only if a quarter of all cases do not end."""
        def deco(f):
            self.subs[name] = Sub(name, strategy, f, quick, thorough or quick * 12, shards, case_timeout, rule, enumerated, hang)
            return f
        return deco


class Ctx:
    """Given to the deciding function of a case: collects labels and verdicts."""
    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.notes = {}

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def skip(self, why=""):
        raise Skip(why)

    def fail(self, message, signature=None):
        raise Violation(message, signature)

    def require(self, cond, message, signature=None):
        if not cond:
            raise Violation(message() if callable(message) else message, signature)

    def helper(self, module, name):
        """An internal function of the code under test, if it (still) exists."""
        import importlib
        try:
            return getattr(importlib.import_module(module), name)
        except (ImportError, AttributeError):
            raise Skip("no %s.%s" % (module, name))

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc:
            return True
        return False


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, ensure_ascii=False).encode()).hexdigest()[:16]


def _frames(tb):
    return [(f.filename, f.name) for f in traceback.extract_tb(tb)]


def decide(sub, case):
    """Runs one case.  Returns (status, info, ctx); status is one of
    ok, skip, fail, timeout, inconclusive, harness (the check's own code cannot be run)."""
    import numpy as np
    ctx = Ctx()
    random.seed(0)
    np.random.seed(0)

    fired = []

    def on_alarm(signum, frame):
        fired.append(1)
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.case_timeout, 1.0)
    try:
        try:
            sub.run(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return "ok", None, ctx
    except BaseException as e:
        return _verdict(sub, ctx, e, fired)


def _verdict(sub, ctx, error, fired):
    try:
        if fired:
            # the code under test may have swallowed the interruption; what it did afterwards decides nothing
            raise CaseTimeout()
        raise error
    except Skip as e:
        return "skip", {"message": str(e)}, ctx
    except CaseTimeout:
        return "timeout", {"message": "case exceeded %gs" % sub.case_timeout}, ctx
    except (MemoryError, RecursionError) as e:
        return "inconclusive", {"message": type(e).__name__}, ctx
    except Violation as e:
        return "fail", {"message": str(e), "signature": e.signature or "%s:assert" % sub.name}, ctx
    except Exception as e:
        repo, root = os.path.realpath(REPO) + os.sep, os.path.join(ROOT, "pbt") + os.sep
        ours = [(fn, n) for fn, n in _frames(e.__traceback__)
                if os.path.realpath(fn).startswith((repo, root))]
        text = traceback.format_exc()
        if ours and os.path.realpath(ours[-1][0]).startswith(repo):
            fn, n = ours[-1]
            sig = "%s@%s:%s" % (type(e).__name__, os.path.realpath(fn)[len(repo):], n)
            return "fail", {"message": "unexpected %s: %s in %s\n%s" % (type(e).__name__, e, sig, text[-3000:]), "signature": sig}, ctx
        if not isinstance(e, (ImportError, NameError, SyntaxError, OSError)) and not str(e).startswith("module "):
            # what the code returned does not have the documented form (a radical where a
            # rational value is due, None in place of a pair, a missing key): the oracle cannot read it
            return "fail", {"message": "the result cannot be read: %s: %s\n%s" % (type(e).__name__, e, text[-3000:]),
                            "signature": "%s:unreadable:%s" % (sub.name, type(e).__name__)}, ctx
        return "harness", {"message": text[-4000:]}, ctx


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("kind") == "finding"]


def matches_known(known, sub, info):
    import fnmatch
    for k in known:
        if k.get("sub") in (None, sub) and fnmatch.fnmatchcase(info.get("signature", ""), k["signature"]):
            return k
    return None


class Campaign:
    """Runs the cases of one shard of one sub and keeps the statistics."""
    def __init__(self, check, sub, tier, seed, shard, budget_s, shrink_s):
        self.check, self.sub, self.tier, self.seed, self.shard = check, sub, tier, seed, shard
        self.t0 = time.monotonic()
        self.budget_s, self.shrink_s = budget_s, shrink_s
        self.known = load_known(check.pid)
        self.evals = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.status = collections.Counter()
        self.samples = []
        self.best = None
        self.first_fail_t = None
        self.first = None
        self.harness_errors = []
        self.known_hits = collections.Counter()
        self.slowest = (0.0, None)
        self.stopped = None
        self._memo = {}
        self.hung = None

    def one(self, case, shrinking_allowed=True):
        """Returns True if the case is a failure (new violation)."""
        now = time.monotonic()
        if self.best is not None and now - self.first_fail_t > self.shrink_s:
            self.stopped = "shrink budget"
            raise StopCampaign()
        if self.best is None and now - self.t0 > self.budget_s:
            self.stopped = "time budget"
            raise StopCampaign()
        key = case_key(case)
        if key in self._memo:
            return self._memo[key]
        status, info, ctx = decide(self.sub, case)
        dt = time.monotonic() - now
        if dt > self.slowest[0]:
            self.slowest = (dt, case)
        searching = self.best is None
        if searching:
            self.evals += 1
            self.status[status] += 1
            for l in ctx.labels:
                self.labels[l] += 1
            if status in ("ok", "fail") and ctx.is_nontrivial:
                if key not in self.keys and len(self.samples) < 4:
                    self.samples.append(case)
                self.keys.add(key)
        bad = False
        if status == "timeout" and searching:
            if self.hung is None or len(json.dumps(case)) < len(json.dumps(self.hung)):
                self.hung = case
            if self.is_hanging():
                self.stopped = "cases do not end"
                raise StopCampaign()
        if status == "harness":
            if len(self.harness_errors) < 3:
                self.harness_errors.append({"case": case, "message": info["message"]})
        elif status == "fail":
            k = matches_known(self.known, self.sub.name, info)
            if k is not None:
                self.known_hits[k["id"]] += 1
            else:
                bad = True
                if self.first_fail_t is None:
                    self.first_fail_t = time.monotonic()
                    self.first = {"case": case, **info}
                size = len(json.dumps(case))
                if self.best is None or size <= self.best["size"]:
                    self.best = {"case": case, "size": size, **info}
        self._memo[key] = bad
        if len(self._memo) > 20000:
            self._memo.clear()
        return bad

    def is_hanging(self):
        k = self.status["timeout"]
        return k >= 2 and self.sub.hang or k >= 5 and 4 * k >= self.evals

    def run(self, n):
        try:
            if self.shard == 0 and self.sub.enumerated is not None:
                for case in self.sub.enumerated(self.tier):
                    if self.one(case):
                        raise StopCampaign()
            if self.sub.strategy is not None and n > 0:
                self._hypothesis(n)
        except StopCampaign:
            pass
        except Exception:
            if self.best is None:
                self.harness_errors.append({"case": None, "message": traceback.format_exc()[-4000:]})
        return self.result()

    def _hypothesis(self, n):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        class _Bad(Exception):
            pass

        strategy = self.sub.strategy()

        @hypothesis.seed(self.seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink), print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet)
        @given(case=strategy)
        def test(case):
            if self.one(case):
                raise _Bad()
        try:
            test()
        except _Bad:
            pass
        except hypothesis.errors.Flaky:
            pass
        except BaseExceptionGroup as g:
            if g.subgroup(StopCampaign):
                return
            raise

    def result(self):
        return {
            "sub": self.sub.name, "shard": self.shard, "seed": self.seed, "evaluations": self.evals,
            "keys": sorted(self.keys), "labels": dict(self.labels), "status": dict(self.status),
            "samples": self.samples, "best": self.best, "first": self.first,
            "harness_errors": self.harness_errors, "known_hits": dict(self.known_hits),
            "stopped": self.stopped, "hung": self.hung if self.sub.hang and self.hung is not None or self.is_hanging() else None, "wall_s": round(time.monotonic() - self.t0, 2),
            "slowest_s": round(self.slowest[0], 2),
            "slowest_case": self.slowest[1] if self.slowest[0] > 10 else None,
        }
