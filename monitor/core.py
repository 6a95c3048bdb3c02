"""Monitor runtime: observation context, violations, and JSON plumbing shared by all checks."""
from __future__ import annotations

import collections
import hashlib
import json
import signal
import sys
import traceback

import numpy as np


class Violation(Exception):
    """An observed execution contradicts the property.  `what` names the mechanism, not the case."""

    def __init__(self, what, /, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Inconclusive(Exception):
    """The monitor could not decide (watchdog, or the harness could not set the case up)."""


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, (int, str, bool)) or o is None:
        return o
    try:
        return jsonable(np.asarray(o).tolist())
    except Exception:  # pylint: disable=broad-except
        return repr(o)


def digest(o):
    return hashlib.sha1(json.dumps(jsonable(o), sort_keys=True).encode()).hexdigest()[:16]


class Ctx:
    """What one worker observed: counters of monitored events, and comparison helpers that raise Violation."""

    def __init__(self):
        self.events = collections.Counter()
        self.worst = {}
        self.sets = {}
        self._nontrivial = False

    def obs(self, name, n=1):
        self.events[name] += n

    def seen(self, name, key):
        """Count distinct observed keys (interleavings, shapes, states)."""
        s = self.sets.setdefault(name, set())
        if len(s) < 50000:
            s.add(str(key))

    def nontrivial(self):
        self._nontrivial = True

    def begin(self):
        self._nontrivial = False

    def take_nontrivial(self):
        return self._nontrivial

    def check(self, cond, what, /, **detail):
        self.events["assertions"] += 1
        if not cond:
            raise Violation(what, **detail)

    def close(self, actual, expected, tol, what, /, angles=(), **detail):
        """|actual-expected| <= tol componentwise (NaN never close); components in `angles` compared modulo 2 pi."""
        self.events["comparisons"] += 1
        a = np.asarray(actual, dtype=float)
        e = np.asarray(expected, dtype=float)
        if a.shape != e.shape:
            raise Violation(what + ": shape", **{**detail, "actual": a.shape, "expected": e.shape})
        d = a - e
        for i in angles:
            d[i] = (d[i] + np.pi) % (2 * np.pi) - np.pi
        d = np.abs(d)
        tol = np.broadcast_to(np.asarray(tol, dtype=float), d.shape)
        ok = d <= tol
        if d.size:
            with np.errstate(all="ignore"):
                r = float(np.max(np.where(tol > 0, d / np.where(tol > 0, tol, 1), np.where(d > 0, np.inf, 0))))
            if not r <= self.worst.get(what, -1):
                self.worst[what] = r
        if not np.all(ok):
            i = np.argwhere(~ok)[0].tolist()
            raise Violation(what, **{**detail, "actual": a, "expected": e, "tol": tol, "first_bad": i})

    def raises(self, fn, types, what, /, **detail):
        """fn must raise one of types."""
        self.events["refusals"] += 1
        try:
            r = fn()
        except types:
            return
        except Exception as ex:  # pylint: disable=broad-except
            raise Violation(what + ": wrong error type", **{**detail, "got": repr(ex)}) from ex
        raise Violation(what + ": not refused", **{**detail, "got": repr(r)})


class Watchdog:
    """Generous per-case wall clock guard; firing is inconclusive, never a verdict."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def onalarm(_s, _f):
            raise Inconclusive("watchdog")
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(self.seconds)

    def __exit__(self, *a):
        signal.alarm(0)


class Runaway(BaseException):
    """Raised inside the code under test when it made more calls than any legitimate step could."""


class BoundedWork:
    """Logical (call-count) bound on the work of one operation, so that 'never returns' is decided without a clock."""

    def __init__(self, max_calls):
        self.max_calls = max_calls

    def __enter__(self):
        self.n = 0

        def prof(_frame, event, _arg):
            if event == "call":
                self.n += 1
                if self.n > self.max_calls:
                    sys.setprofile(None)
                    raise Runaway()
        sys.setprofile(prof)
        return self

    def __exit__(self, et, ev, tb):
        sys.setprofile(None)
        return False


def describe(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    return {"error": repr(ex)[:500], "where": [f"{f.filename.rsplit('/', 3)[-1]}:{f.name}" for f in tb[-4:]]}
