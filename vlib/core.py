"""Laws, cases and verdicts: the vocabulary the check modules share.

A *law* is one executable statement over generated cases: a Hypothesis strategy that
produces plain JSON-able data and a function that builds real phasor objects from that
data, compares them with an independent oracle, and raises `Broken` on disagreement.
"""
import sys

# Hypothesis lives in the tooling venv; appended last so that the numpy, scipy, ... that
# phasor is developed with keep priority.
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)

import py39_compat  # noqa  (same shim the repository's own tests are run with)
import hypothesis  # noqa
from hypothesis import strategies as st  # noqa
import numpy as np  # noqa


class Broken(Exception):
    """The property is violated on this case."""


class Law(object):
    def __init__(self, name, strategy, check, n=100, thorough=None, rule='', shards=1):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.n = n
        self.thorough = thorough if thorough is not None else n * 8
        self.rule = rule
        self.shards = shards


class Registry(object):
    """Collects the laws of one property's check module."""

    def __init__(self, prop, title=''):
        self.prop = prop
        self.title = title
        self.laws = []
        self.findings = []

    def law(self, strategy, n=100, thorough=None, rule='', shards=1):
        def deco(fn):
            self.laws.append(Law(fn.__name__, strategy, fn, n, thorough, rule, shards))
            return fn
        return deco

    def finding(self, key):
        """Registers a probe of a listed known finding: it returns True while the defect is there."""
        def deco(fn):
            self.findings.append((key, fn))
            return fn
        return deco


# ---------------------------------------------------------------- comparisons

def maxabs(x):
    x = np.asarray(x)
    if x.size == 0:
        return 0.0
    return float(np.max(np.abs(x)))


def close(got, want, what='', rtol=1e-7, atol=0.0, scale=None):
    """|got-want| <= atol + rtol*max(|want| over the whole array, scale)."""
    g = np.asarray(got)
    w = np.asarray(want)
    if g.dtype == object:
        g = np.asarray(g.tolist(), dtype=complex)
    try:
        d = g - w
    except ValueError:
        raise Broken('%s: shapes %r and %r do not combine' % (what, g.shape, w.shape))
    if not np.all(np.isfinite(w)):
        raise AssertionError('oracle not finite for %s: %r' % (what, w))
    if not np.all(np.isfinite(g)):
        raise Broken('%s: result is not finite: %s (expected %s)' % (what, show(g), show(w)))
    ref = max(maxabs(w), 0.0 if scale is None else float(scale))
    err = maxabs(d)
    if not err <= atol + rtol * ref:
        raise Broken('%s: got %s expected %s (error %.3g, allowed %.3g)' % (
            what, show(g), show(w), err, atol + rtol * ref))


class Placer(object):
    """puts elements into a system under their plain names"""
    def __init__(self, sys_):
        self.sys = sys_

    def __call__(self, name, obj):
        setattr(self.sys.own, name, obj)
        return getattr(self.sys, name)

    def port(self, p):
        return p


def show(x):
    x = np.asarray(x)
    if x.ndim == 0:
        return '%r' % (x.item(),)
    s = np.array2string(x.ravel()[:6], precision=9, threshold=6)
    return s + ('' if x.size <= 6 else '...(%d)' % x.size)


def require(cond, msg, *a):
    if not cond:
        raise Broken(msg % a if a and '%' in msg else ': '.join([msg] + [repr(x) for x in a]))


def expect_raises(fn, excs, what):
    try:
        fn()
    except excs:
        return
    raise Broken('%s: expected %r, but it was accepted' % (what, excs))


# ---------------------------------------------------------------- strategies

def logf(lo, hi, per_decade=40, signed=False):
    """log-uniform positive floats on a fixed grid from 10**lo to 10**hi (rounded to 4 digits)."""
    a = int(round(lo * per_decade))
    b = int(round(hi * per_decade))
    s = st.integers(a, b).map(lambda k: float('%.4g' % (10 ** (k / float(per_decade)))))
    if signed:
        s = st.tuples(s, st.booleans()).map(lambda t: -t[0] if t[1] else t[0])
    return s


def linf(lo, hi, steps=1000):
    """uniform floats on a grid."""
    return st.integers(0, steps).map(lambda k: float('%.6g' % (lo + (hi - lo) * k / float(steps))))


def cplx(mag=2.0):
    """complex as [re, im]"""
    f = linf(-mag, mag, 400)
    return st.tuples(f, f).map(list)


def C(pair):
    return complex(pair[0], pair[1])


def chance(p):
    """True about p of the time (False shrinks)."""
    k = int(round(p * 100))
    return st.integers(0, 99).map(lambda v: v >= 100 - k)
