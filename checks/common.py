"""Helpers shared by the check modules."""
import math

import numpy as np

from vlib import rec


def seeds(seed, n, salt):
    return [dict(kind='scen', i=i, seed=rec.sub(seed, i, salt)) for i in range(n)]


def count(tier, quick, thorough):
    return quick if tier == 'quick' else thorough


class Out:
    """Collects one case's outcome; keeps at most a few messages."""
    def __init__(self):
        self.viol, self.obs, self.sig, self.sample, self.stat = [], {}, [], None, None

    def bad(self, msg):
        if msg.startswith('['):             # a recognised mechanism: one message each, whatever else is found
            if not any(v.startswith(msg[:msg.index(']') + 1]) for v in self.viol):
                self.viol.append(msg)
        elif sum(not v.startswith('[') for v in self.viol) < 6:
            self.viol.append(msg)

    def hit(self, key, n=1):
        self.obs[key] = self.obs.get(key, 0) + int(n)

    def check(self, ok, key, msg):
        self.hit(key)
        if not ok:
            self.bad(msg() if callable(msg) else msg)
        return ok

    def done(self):
        return dict(viol=self.viol, obs=self.obs, sig=self.sig, sample=self.sample, stat=self.stat)


def eqn(a, b):
    """Exact equality with nan equal to nan, shapes included."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    try:
        return bool(np.all((a == b) | ((a != a) & (b != b))))
    except TypeError:
        return bool(np.all(a == b))


def near(a, b, rtol=1e-9, atol=0.):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        return bool(np.all(same | (np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))))


def binom_z(nacc, p):
    """z-score of sum(nacc - p) for independent (martingale) Bernoulli(p)."""
    nacc, p = np.asarray(nacc, dtype=float), np.asarray(p, dtype=float)
    v = float((p * (1 - p)).sum())
    return float((nacc - p).sum()) / math.sqrt(v) if v > 25 else 0.


def refused(fn):
    """Did the call refuse (exit or raise) ?"""
    try:
        fn()
    except (SystemExit, Exception):
        return True
    return False
