"""Deciding equality of extracted terms.

Two terms are equal when value numbering gave them the same node; otherwise they are compared by
identity testing: both are interpreted over the rationals (floats where roots are irrational) at
points drawn from families of data (generic, tied, degenerate, scaled).  Nothing of the analysed
program is executed: only the terms the analysis extracted from its source are interpreted.
"""
from __future__ import annotations

import random
from fractions import Fraction

from . import terms as tm
from .values import *

OOB = "index out of range"


class Point:
    def __init__(self, label, syms, data, seed=0, ties="stable", forced=None, force_neg=(), garbage=0, bits=0):
        self.bits = bits
        self.neg_any = False
        self.origin = None      # what the data were generated from
        self.remake = None      # symbol values -> the same kind of point with other sizes
        self.label, self.syms, self.data, self.seed = label, dict(syms), data, seed
        self.ties, self.forced, self.force_neg, self.garbage = ties, forced or {}, force_neg, garbage

    def evaluator(self):
        data, syms = self.data, self.syms

        def tensors(name, idx):
            f = data.get(name)
            if f is None:
                raise tm.EvalError(f"no data for {name}")
            try:
                return f(idx)
            except IndexError:
                raise tm.EvalError(OOB)
        E = tm.Evaluator(syms, tensors, self.seed, self.forced, self.force_neg, self.ties, self.garbage, self.bits)
        E.neg_any = self.neg_any
        return E

    def with_(self, **kw):
        p = Point(self.label, self.syms, self.data, self.seed, self.ties, self.forced, self.force_neg, self.garbage,
                  self.bits)
        p.origin, p.neg_any, p.remake = self.origin, self.neg_any, self.remake
        for k, v in kw.items():
            setattr(p, k, v)
        return p

    def key(self):
        return (self.label, tuple(sorted(self.syms.items())), self.origin, self.seed, self.ties, self.garbage,
                self.bits, tuple(sorted((t.id, b) for t, b in self.forced.items())), tuple(sorted(self.force_neg)))

    def describe(self):
        s = ", ".join(f"{k}={v}" for k, v in sorted(self.syms.items()))
        extra = "".join([" (rounded below zero)" if self.force_neg else "",
                         f" with {len(self.forced)} size test(s) forced" if self.forced else ""])
        return f"{self.label} data, {s}{extra}"


def table(fn, dims):
    """Total function on a finite grid from fn(idx)."""
    cache = {}

    def get(idx):
        for i, d in zip(idx, dims):
            if not 0 <= i < d:
                raise IndexError
        if len(idx) != len(dims):
            raise IndexError
        if idx not in cache:
            cache[idx] = fn(idx)
        return cache[idx]
    return get


# ---------------------------------------------------------------- data families

def col(rng, kind, idx):
    if kind == "generic":
        return Fraction(rng.randint(-240, 240), 4)
    if kind == "float":
        return rng.gauss(0, 1)
    if kind == "ties":
        return rng.randint(0, 2)
    if kind == "sorted":
        return Fraction(idx[0] * idx[0] + idx[0], 2) + sum(idx[1:])
    if kind == "reversed":
        return -3 * idx[0] - Fraction(idx[0] * idx[0], 7) + sum(idx[1:])
    if kind == "constant":
        return Fraction(7, 10)
    if kind == "zero":
        return 0
    if kind == "tiny":
        return Fraction(rng.randint(-240, 240), 10 ** 40)
    if kind == "small":
        return Fraction(rng.randint(-240, 240), 10 ** 9)
    if kind == "huge":
        return rng.randint(-240, 240) * 10 ** 40
    if kind == "offset":
        return 10 ** 7 + Fraction(rng.randint(-50, 50), 8)
    if kind == "positive":
        return Fraction(rng.randint(1, 300), 7)
    if kind == "negative":
        return -Fraction(rng.randint(1, 300), 7)
    if kind == "columns":       # columns of very different scales
        return Fraction(rng.randint(-240, 240), 4 * 10 ** (7 * (sum(idx[1:]) % 3)))
    if kind == "binary":
        return rng.randint(0, 1)
    raise KeyError(kind)


def data_for(arrays, syms, kinds, seed, sym_arrays=(), int_arrays=()):
    """arrays: name -> dims (numbers or symbol names); kinds: default kind or name->kind."""
    out = {}
    for name, dims in arrays.items():
        ds = tuple(syms[d] if isinstance(d, str) else d for d in dims)
        kind = kinds if isinstance(kinds, str) else kinds.get(name, kinds.get("*", "generic"))
        if kind.startswith("="):
            out[name] = ("copy", kind[1:], ds)
            continue
        rng = random.Random(f"{seed}/{name}/{kind}")
        vals = {}
        grid = [()]
        for d in ds:
            grid = [g + (k,) for g in grid for k in range(d)]
        for idx in grid:
            v = col(rng, kind, idx)
            if name in int_arrays:
                v = int(v)
            vals[idx] = v
        if name in sym_arrays:
            for idx in grid:
                if len(idx) >= 2 and idx[-2] > idx[-1]:
                    vals[idx] = vals[idx[:-2] + (idx[-1], idx[-2])]
        out[name] = table(vals.__getitem__, ds)
    for name, f in list(out.items()):
        if isinstance(f, tuple):
            src = out[f[1]]
            nd = len(arrays[f[1]])

            def cp(idx, src=src, nd=nd):
                return src(tuple(idx[:nd]) + (0,) * (nd - len(idx)))
            out[name] = table(cp, f[2])
    return out


# ---------------------------------------------------------------- comparison

def close(a, b, scale=1.0, tol=1e-7):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b or tol < 1e-10 and abs(a - b) <= Fraction(tol) * max(abs(a), abs(b), Fraction(tol))
    fa, fb = float(a), float(b)
    if fa != fa or fb != fb:
        return fa != fa and fb != fb
    if fa in (float("inf"), float("-inf")) or fb in (float("inf"), float("-inf")):
        return fa == fb
    return abs(fa - fb) <= tol * max(abs(fa), abs(fb)) + 1e-9 * scale


def unknowns(t):
    """Reasons why a term is not completely known."""
    out = []
    for x in tm.walk(t):
        if x.op == "opq" and isinstance(x.a[0], str):
            if x.a[0].startswith("?"):
                out.append(x.a[0][1:].partition("#")[0])
            elif x.a[0].startswith("@pre"):
                out.append("value of an unfinished loop")
    return sorted(set(out))


def size_tests(*ts):
    """Closed comparisons of sizes."""
    out = set()
    for t in ts:
        for x in tm.walk(t):
            if x.op == "cmp" and not x.fv and not x.data:
                out.add(x)
    return sorted(out, key=lambda x: x.id)


LARGE = (100, 300, 1000, 3000, 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 8)


def size_probes(ts, pts, bounds, most=40):
    """Sizes at which comparisons of sizes change their value, and comparisons that only change for large sizes."""
    base = pts[0]
    sizes, large = [], []
    for c in size_tests(*ts):
        names = sorted({x.a[0] for x in tm.walk(c) if x.op == "s"})
        if not names or any(q not in base.syms for q in names):
            continue
        names = [q for q in names if q in tm.INTSYM and isinstance(base.syms[q], int)]

        def val(pt, **kw):
            E = pt.with_(syms=dict(pt.syms, **kw), forced={}, force_neg=()).evaluator()
            return E.ev(c, {}) != 0
        try:
            if len({val(p) for p in pts}) > 1:
                continue
            was = val(base)
            for q in names:
                lo, hi = bounds.get(q, (1, 0))
                hit = [v for v in range(max(int(max(lo, 0)), 0), most + 1) if v <= hi and val(base, **{q: v}) != was]
                if hit:
                    v = min(hit, key=lambda v: abs(v - base.syms[q]))
                    if (q, v) not in sizes:
                        sizes.append((q, v))
                elif any(v <= hi and val(base, **{q: v}) != was for v in LARGE):
                    large.append(c)
        except (tm.EvalError, ArithmeticError, KeyError):
            continue
    return sizes, large
