"""Monitoring core: cases, monitors, evidence and verdicts.

A check module (harness/checks/<id>.py) defines

    PROPERTY  : the id
    RULE      : how cases are made and what makes one non-trivial
    SCENARIOS : [(name, quick_cases, thorough_cases, function)]

Every function takes one `Case` and drives the real Kats code with it.  It
reports what it observed with `case.check` (an oracle decision), `case.event`
(a counted observation) and `case.state` (a distinct state / input signature).
A case is wholly determined by (VERIF_SEED, property, scenario, index).
"""
import collections
import hashlib
import json
import math
import os
import random
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violated(Exception):
    """The oracle refuted the property on this case."""

    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Skip(BaseException):
    """The case is outside the property's domain; it is counted, not judged."""


class Stuck(BaseException):
    """The code used far more CPU time than the case can need."""


def digest(*parts):
    return hashlib.sha256("|".join(map(str, parts)).encode()).digest()


def show(x, limit=600):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:  # a broken repr must not hide the verdict
        s = f"<unprintable {type(x).__name__}: {e}>"
    return s if len(s) <= limit else s[:limit] + "..."


class Case:
    def __init__(self, prop, scenario, index, seed, tier, log):
        self.prop, self.scenario, self.index = prop, scenario, index
        self.seed, self.tier, self.log = seed, tier, log
        d = digest(seed, prop, scenario, index)
        self.rng = np.random.RandomState(int.from_bytes(d[:4], "big"))
        self.py = random.Random(d)
        self.desc = {}
        self.checks = 0

    # --- what the case is
    def note(self, **kw):
        for k, v in kw.items():
            self.desc[k] = v if isinstance(v, (int, float, bool, str, type(None))) else show(v, 300)

    def choice(self, seq):
        return seq[int(self.rng.randint(len(seq)))]

    def chance(self, p):
        return bool(self.rng.rand() < p)

    def int(self, lo, hi):
        """Uniform integer in [lo, hi]."""
        return int(self.rng.randint(lo, hi + 1))

    # --- what was observed
    def event(self, name, n=1):
        self.log.events[name] += n

    def state(self, *sig):
        self.log.states.add(digest(self.scenario, *sig)[:8].hex())

    def check(self, ok, what, **detail):
        """One oracle decision over an observation."""
        self.checks += 1
        self.log.events["oracle decisions"] += 1
        if not bool(ok):
            raise Violated(what, {k: show(v) for k, v in detail.items()})

    def fail(self, what, **detail):
        self.check(False, what, **detail)

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, **detail):
        """got equals want up to rounding; NaN and inf positions agree."""
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(what + " (shape)", got=g.shape, want=w.shape, **detail)
        ok = same(g, w, rtol, atol)
        if not ok:
            bad = np.argwhere(~np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
            first = tuple(int(i) for i in bad[0]) if len(bad) else ()
            self.fail(what, **{"first": first, "n_bad": len(bad), "got": g[first] if g.ndim else g,
                               "want": w[first] if w.ndim else w, **detail})
        self.check(True, what)

    def raises(self, types, what, fn, *a, **k):
        """fn must refuse with one of `types`."""
        try:
            r = fn(*a, **k)
        except types:
            self.event("refusals observed")
            self.check(True, what)
            return
        self.fail(what + " (no error raised)", result=r)

    def known(self, finding, what, **detail):
        """A recorded genuine defect showed itself (see known_findings.json)."""
        self.log.known[finding] += 1
        if finding not in self.log.findings:
            self.fail(f"unlisted finding {finding}: {what}", **detail)


def same(g, w, rtol=1e-7, atol=1e-9):
    return bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))


class Log:
    def __init__(self, findings=()):
        self.events = collections.Counter()
        self.states = set()
        self.known = collections.Counter()
        self.findings = set(findings)
        self.samples = []
        self.violations = []
        self.errors = []
        self.cases = 0
        self.skipped = 0
        self.per_scenario = collections.Counter()


CPU_LIMIT = 150  # CPU seconds for a single case; the slowest needs a few
WALL_LIMIT = 330  # and elapsed seconds, for code that waits for ever


def _stuck(signum, frame):
    raise Stuck()


def run_case(module, scenario, fn, index, seed, tier, log):
    case = Case(module.PROPERTY, scenario, index, seed, tier, log)
    np.random.seed(int.from_bytes(digest("g", seed, scenario, index)[:4], "big"))
    random.seed(digest("p", seed, scenario, index))
    log.cases += 1
    signal.signal(signal.SIGPROF, _stuck)
    signal.signal(signal.SIGALRM, _stuck)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, WALL_LIMIT)
    try:
        fn(case)
        log.per_scenario[scenario] += 1
        if case.checks:
            log.events["cases judged"] += 1
        if case.checks and case.desc and len(log.samples) < 2:
            log.samples.append({"scenario": scenario, "index": index,
                                "oracle_decisions": case.checks, "case": case.desc})
        return
    except Skip:
        log.skipped += 1
        return
    except Violated as v:
        what, detail = v.what, v.detail
    except Stuck:
        what, detail = f"no result within {CPU_LIMIT} CPU seconds, {WALL_LIMIT} s", {}
    except (MemoryError, OSError, KeyboardInterrupt) as e:
        log.errors.append(f"{scenario}#{index}: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
        return
    except Exception as e:
        what = f"unexpected {type(e).__name__}: {show(str(e), 300)}"
        detail = {"traceback": traceback.format_exc()[-2500:]}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
    log.violations.append({"property": module.PROPERTY, "scenario": scenario, "index": index,
                           "seed": seed, "tier": tier, "what": what, "detail": detail,
                           "case": case.desc})


def plan(module, tier):
    """Interleave the scenarios, so that a run cut short still covers all."""
    todo = []
    for name, quick, thorough, fn in module.SCENARIOS:
        n = quick if tier == "quick" else thorough
        todo += [((i + 0.5) / n, name, i, fn) for i in range(n)]
    todo.sort(key=lambda t: (t[0], t[1]))
    return [(name, i, fn) for _, name, i, fn in todo]
