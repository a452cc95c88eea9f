"""Concrete contract checks on the real code: directed search for failing inputs and bounded stand-in."""
import ast
import copy
import json
import math
import os
import random
import signal
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
import warnings

warnings.simplefilter("ignore")
import numpy as np  # noqa: E402

np.seterr(all="ignore")


class Bad(Exception):
    """the contract is violated"""


def need(c, msg):
    if not c:
        raise Bad(msg)


def close(a, b, rel=1e-5, ab=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    sc = max(float(np.max(np.abs(a), initial=0.0)), float(np.max(np.abs(b), initial=0.0)))
    return bool(np.max(np.abs(a - b), initial=0.0) <= rel * sc + ab * min(sc, 1.0))


class Feed:
    """argument arrays for a history of calls: new ones, and one array object whose contents change between the calls
    (the way a search space hands out its centre)"""

    def __init__(self, rng):
        self.rng, self.buf = rng, None

    def __call__(self, x):
        if self.buf is not None and self.buf.shape == np.shape(x) and self.rng.random() < 0.7:
            self.buf[...] = x
            return self.buf
        b = np.array(x, float)
        if self.buf is None or self.rng.random() < 0.3:
            self.buf = b
        return b


# numeric literals of the pinned source: those beyond them are tried first
USUAL = {0, 1, 2, 3, 4, 10, 100, 0.5, 1e-5, 1e-4, 1e-10, 2000, 1000, 20, 15, 48, 0.025, 0.125, 0.12, 0.2, 1e-20, 64, 5, 30, 40}


def around(x):
    """values just below, at and above a threshold, and of its magnitude"""
    x = float(x)
    return [x, x * (1 - 1e-3), x * (1 + 1e-3), x * 0.5, x * 2, x * 0.1, x * 10, x * 0.9, x * 1.1]


def near_ints(lits, lo, hi):
    """integers next to the literals, the new ones with more weight"""
    out = []
    for x in lits:
        if float(x).is_integer():
            for d in (-1, 0, 1, 2):
                if lo <= int(x) + d <= hi:
                    out += [int(x) + d] * (1 if x in USUAL else 6)
    return out


def some(rng, lits, k=4):
    new = [x for x in lits if x not in USUAL]
    old = [x for x in lits if x in USUAL]
    r = rng.sample(new, min(len(new), k)) + rng.sample(old, min(len(old), k))
    return [float(x) for x in r[:k]]


def mined(files):
    """numeric literals of the current source (thresholds a change may have introduced)"""
    out = set()
    for f in files:
        try:
            t = ast.parse(open(os.path.join(REPO, f)).read())
        except (OSError, SyntaxError):
            continue
        for x in ast.walk(t):
            if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
                if math.isfinite(x.value):
                    out.add(x.value)
    return sorted(out)


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout


def run_limited(fn, case, secs=30):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    try:
        fn(case)
        return None
    except Bad as ex:
        return str(ex)
    except Timeout:
        return f"the call did not finish within {secs} s"
    finally:
        signal.alarm(0)
