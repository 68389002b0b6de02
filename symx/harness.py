"""Harness description and the two modes (symbolic / concrete replay) of the h object."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

from . import core
from .core import Abs, And, is_sym


class AssumeFailed(Exception):
    pass


class Harness:
    def __init__(self, name, fn, quick, thorough=None, bounds="", setup=None, timeout_ms=20000, functions=()):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.bounds = bounds
        self.setup = setup  # extra patches, called in the symbolic worker
        self.timeout_ms = timeout_ms
        self.functions = list(functions)

    def configs(self, tier):
        c = self.thorough if tier == "thorough" else self.quick
        return c() if callable(c) else c


class SymH:
    symbolic = True

    def __init__(self, ex, cfg):
        self.ex = ex
        self.cfg = cfg

    def real(self, name, lo=None, hi=None):
        return self.ex.real(name, lo, hi)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self.ex.int(name, lo, hi)

    def bool(self, name):
        return self.ex.int(name, 0, 1) == 1

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.ex.int(name, 0, len(seq) - 1).__index__()]

    def assume(self, c):
        self.ex.assume(c)

    def check(self, c, label, margin=None):
        self.ex.check(c, label, margin)

    def check_eq(self, a, b, label, tol=1e-6):
        if not is_sym(a) and not is_sym(b):
            self.ex.check(_close(a, b, tol), label)
            return
        d = a - b
        if not is_sym(d) and math.isnan(d):
            self.ex.check(False, label)
            return
        self.ex.check(And(d <= tol, -d <= tol), label, Not_(And(d <= 1e-3, -d <= 1e-3)))

    def check_le(self, a, b, label, tol=1e-6):
        d = a - b
        self.ex.check(d <= tol, label, d >= 1e-3)

    def observe(self, label, v):
        self.ex.observations.append((label, v))

    def fresh(self, hint="f"):
        return self.ex.fresh_real(hint)


def Not_(c):
    return core.Not(c)


def _close(a, b, tol):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class ConcreteH:
    symbolic = False

    def __init__(self, assignment, cfg):
        self.a = assignment
        self.cfg = cfg
        self.failed = []
        self.obs = []
        self.details = {}

    def _get(self, name, default):
        v = self.a.get(name)
        return Fraction(v) if v is not None else Fraction(default)

    def real(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None else 0)
        return float(self._get(name, d))

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self._get(name, lo))

    def bool(self, name):
        return bool(int(self._get(name, 0)))

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[int(self._get(name, 0))]

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, label, margin=None):
        if not bool(c):
            self.failed.append(label)

    def check_eq(self, a, b, label, tol=1e-6):
        if not _close(a, b, tol):
            self.failed.append(label)
            self.details[label] = [repr(a), repr(b)]

    def check_le(self, a, b, label, tol=1e-6):
        if not (a <= b + tol):
            self.failed.append(label)
            self.details[label] = [repr(a), repr(b)]

    def observe(self, label, v):
        self.obs.append((label, core.eval_obs(None, v)))
