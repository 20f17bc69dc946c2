"""Inputs and data families shared by the property checks."""
from __future__ import annotations

from fractions import Fraction

from . import terms as tm
from . import spec
from .ctx import *

METHODS = ("NAIVE", "AUTO", "AVL", "MERGESORT")
FAST = ("AVL", "MERGESORT")
COV = ("distance_covariance_sqr", "u_distance_covariance_sqr", "distance_covariance")
STATS = ("distance_stats_sqr", "u_distance_stats_sqr", "distance_stats")
CORR = ("distance_correlation_sqr", "u_distance_correlation_sqr", "distance_correlation")
AFINV = ("distance_correlation_af_inv_sqr", "distance_correlation_af_inv")

PAIR = ["generic", "ties", {"x": "constant"}, {"y": "constant"}, "small", "tiny", "huge", "offset", "sorted",
        {"x": "sorted", "y": "reversed"}, {"y": "=x"}, "binary", "positive", {"x": "negative", "y": "tiny"},
        {"x": "huge", "y": "tiny"}, "constant", "columns"]
TRIPLE = PAIR + [{"z": "constant"}, {"z": "=x"}, {"z": "=y"}, {"x": "ties", "y": "ties", "z": "binary"},
                 {"z": "zero", "x": "tiny"}]


class In:
    """A symbolic call input: store, array values, specification samples and shapes."""

    def __init__(self, C):
        self.C, self.S = C, C.S
        self.st = C.S.state()
        self.arr, self.smp, self.shape = {}, {}, {}

    def add(self, name, form="1d", n="n", p="p", lo=4, **kw):
        """form: 1d, col, mat."""
        S = self.S
        nt = S.size(n, lo) if isinstance(n, str) else tm.const(n)
        if form == "1d":
            smp, shp = spec.Sample(name, nt, 1, 1), (n,)
        elif form == "col":
            smp, shp = spec.Sample(name, nt, 1, 2), (n, 1)
        else:
            pt = S.size(p, 1) if isinstance(p, str) else tm.const(p)
            smp, shp = spec.Sample(name, nt, pt, 2), (n, p)
        self.arr[name] = S.array(self.st, name, smp.dims, **kw)
        self.smp[name], self.shape[name] = smp, shp
        return self.arr[name]

    def matrix(self, name, n="n", lo=4, **kw):
        nt = self.S.size(n, lo)
        self.arr[name] = self.S.array(self.st, name, (nt, nt), **kw)
        self.shape[name] = (n, n)
        return self.arr[name]

    def overlap(self, a, b, form="1d", n="n", p="p", lo=4, shift=1, **kw):
        """Two samples that are overlapping views of one array: rows from 0 and rows from shift."""
        whole = self.add(a, form, n, p, lo + shift, **kw)
        base = self.smp[a]
        rows = tm.sub(base.n, tm.const(shift))
        for name, off in ((a, 0), (b, shift)):
            v = tuple(tm.fresh("w") for _ in whole.dims)
            for q, d in zip(v, (rows,) + tuple(whole.dims[1:])):
                self.C.I.bounds[q.a[0]] = (0, float("inf"))
            self.arr[name] = Arr(whole.root, (rows,) + tuple(whole.dims[1:]), v, (tm.add(v[0], tm.const(off)),) + v[1:])
            self.smp[name] = spec.Sample(name, rows, base.p, base.nd,
                                         lambda i, k, off=off: base.at(tm.add(i, tm.const(off)), k))
        return self

    def points(self, families=None, sizes=None, **kw):
        return self.C.points(self.shape, sizes or sizes_for(self.C, self.shape), families or PAIR, **kw)


def sizes_for(C, shape, ns=None, **fixed):
    names = sorted({d for s in shape.values() for d in s if isinstance(d, str)})
    ns = ns or ((5, 4, 7, 8, 11) if not C.thorough else (5, 4, 6, 7, 8, 9, 11, 13, 16, 17))
    out = []
    for k, n in enumerate(ns):
        sy = {"e": (Fraction(1, 2), Fraction(3, 2), Fraction(5, 4))[k % 3]}
        for j, d in enumerate(names):
            if d[0] in "pq":
                sy[d] = 1 + (k + j) % 3 if k != 1 else n + 1 + j        # one size has more columns than rows
            elif d == "n":
                sy[d] = n
            else:
                sy[d] = max(2, n - 1 + j)
        sy.update(fixed)
        out.append(sy)
    return out


def pair(C, fx="1d", fy="1d", lo=4, **kw):
    i = In(C)
    i.add("x", fx, "n", "p", lo, **kw)
    i.add("y", fy, "n", "q", lo, **kw)
    return i


VARIANTS = ("same", "overlap", "f8/di", "di/f8", "f4/f8", "du/f4")


def variant(C, how, fx="1d", fy="1d", lo=4, p=2, **kw):
    """Pairs of samples that are one object, overlapping views of one array, or of different dtypes."""
    i = In(C)
    if how == "overlap":
        return i.overlap("x", "y", fx, "n", p, lo, **kw)
    a, _, b = how.partition("/")
    i.add("x", fx, "n", p, lo, **(dict(kw, dt=a) if b else kw))
    if how == "same":
        i.arr["y"], i.smp["y"] = i.arr["x"], i.smp["x"]
    else:
        i.add("y", fy, "n", p, lo, **dict(kw, dt=b))
    return i


def method(C, m):
    v = C.S.enum("DistanceCovarianceMethod", m)
    if v is MISSING:
        raise Missing(f"DistanceCovarianceMethod.{m}")
    return v


def cmode(C, m):
    v = C.S.enum("CompileMode", m)
    if v is MISSING:
        raise Missing(f"CompileMode.{m}")
    return v


def want_of(fn, X, Y, e=spec.ONE):
    """Specification of the two-sample functions by name."""
    u = fn.startswith("u_")
    base = fn[2:] if u else fn
    st = spec.stats_sqr(X, Y, e, u)
    if base == "distance_covariance_sqr":
        return st["covariance_xy"]
    if base == "distance_covariance":
        return spec.root(st["covariance_xy"])
    if base == "distance_correlation_sqr":
        return st["correlation_xy"]
    if base == "distance_correlation":
        return spec.root(st["correlation_xy"])
    if base == "distance_stats_sqr":
        return st
    if base == "distance_stats":
        return {k: spec.root(v) for k, v in st.items()}
    raise KeyError(fn)
