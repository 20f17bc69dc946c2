"""Obligations: what was analysed, by which rule, and what came out of it."""
from __future__ import annotations

import random
import time
from fractions import Fraction

from . import terms as tm
from . import equiv as eq
from .driver import Session
from .interp import Inst, num_term
from .values import *


class UnknownVal(Exception):
    pass


class Raised:
    """Observed exception."""

    def __init__(self, name, site=None, args=()):
        self.name, self.site, self.args = name, site, args

    def __repr__(self):
        s = self.site
        return f"raises {self.name}" + (f" at {s[0]}:{s[2]} in {s[1]}" if s else "")


class SpecArr:
    """Array given by the specification: element term as a function of the indices."""

    def __init__(self, dims, fn):
        self.dims, self.fn = tuple(d if isinstance(d, tm.T) else tm.const(d) for d in dims), fn
        self.vars = tuple(tm.fresh("s") for _ in self.dims)
        self.body = fn(*self.vars)


ANY = object()       # specification: any value


# ---------------------------------------------------------------- evaluating values

def grid(dims):
    out = [()]
    for d in dims:
        out = [g + (k,) for g in out for k in range(d)]
    return out


def ev_value(v, st, E, I):
    if v is ANY:
        return ANY
    if isinstance(v, tm.T):
        return E.ev(v, {})
    if isinstance(v, SNum):
        return E.ev(v.t, {})
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return Fraction(v) if v == v and abs(v) != float("inf") else v
    if isinstance(v, (int, Fraction)):
        return v
    if isinstance(v, SpecArr):
        dims = [int(E.ev(d, {})) for d in v.dims]
        return ("array", tuple(dims), [E.ev(v.body, {w.a[0]: k for w, k in zip(v.vars, g)}) for g in grid(dims)])
    if isinstance(v, Arr):
        c = I.read(v, st)
        if c.mask is not None:
            raise UnknownVal("filtered array")
        dims = [int(E.ev(d, {})) for d in c.dims]
        if not dims:
            return E.ev(c.body, {})
        return ("array", tuple(dims), [E.ev(c.body, {w.a[0]: k for w, k in zip(c.vars, g)}) for g in grid(dims)])
    if isinstance(v, Phi):
        return ev_value(v.a if E.ev(v.c, {}) != 0 else v.b, st, E, I)
    if isinstance(v, tuple):
        return ("seq", [ev_value(x, st, E, I) for x in v])
    if isinstance(v, dict):
        return ("rec", {k: ev_value(x, st, E, I) for k, x in v.items()})
    if isinstance(v, Ref):
        r = st.objs.get(v.id)
        if isinstance(r, Inst):
            return ("rec", {k: ev_value(x, st, E, I) for k, x in r.attrs.items() if not k.startswith("@")})
        if isinstance(r, list):
            return ("seq", [ev_value(x, st, E, I) for x in r])
        if isinstance(r, Inst) is False and hasattr(r, "attrs"):
            return ("rec", {k: ev_value(x, st, E, I) for k, x in r.attrs.items()})
        raise UnknownVal(f"object {r!r}"[:80])
    if isinstance(v, SymSeq):
        n = int(E.ev(v.dim, {}))
        out = []
        for k in range(n):
            t = num_term(v.value)
            if t is None and isinstance(v.value, Arr):
                raise UnknownVal("sequence of arrays")
            if t is None:
                raise UnknownVal("sequence")
            out.append(E.ev(t, {v.var.a[0]: k}))
        return ("seq", out)
    if isinstance(v, Unknown):
        raise UnknownVal(v.reason)
    if v is None or isinstance(v, (str, EnumVal)):
        return ("obj", v)
    raise UnknownVal(f"value {v!r}"[:80])


def value_terms(v, st, I, out=None):
    """All terms in a value; None when some part is unknown."""
    out = [] if out is None else out
    if v is ANY:
        return out
    if isinstance(v, tm.T):
        out.append(v)
    elif isinstance(v, SNum):
        out.append(v.t)
    elif isinstance(v, (bool, int, float, Fraction)):
        out.append(tm.const(v))
    elif isinstance(v, SpecArr):
        out += [*v.dims, v.body]
    elif isinstance(v, Arr):
        c = I.read(v, st)
        out += [*c.dims, c.body]
    elif isinstance(v, Phi):
        out.append(v.c)
        value_terms(v.a, st, I, out)
        value_terms(v.b, st, I, out)
    elif isinstance(v, tuple):
        for x in v:
            value_terms(x, st, I, out)
    elif isinstance(v, dict):
        for x in v.values():
            value_terms(x, st, I, out)
    elif isinstance(v, Ref):
        r = st.objs.get(v.id)
        if isinstance(r, Inst):
            for x in r.attrs.values():
                value_terms(x, st, I, out)
        elif isinstance(r, list):
            for x in r:
                value_terms(x, st, I, out)
        else:
            raise UnknownVal(f"object {r!r}"[:80])
    elif isinstance(v, SymSeq):
        out.append(v.dim)
        value_terms(v.value, st, I, out)
    elif isinstance(v, Unknown):
        raise UnknownVal(v.reason)
    return out


def canon(v, st, I):
    """Structure with hash-consed leaves, for identity."""
    if isinstance(v, tm.T):
        return v
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, (bool, int, float, Fraction)):
        return tm.const(v)
    if isinstance(v, (SpecArr, Arr)):
        if isinstance(v, Arr):
            c = I.read(v, st)
            dims, vs, body, mask = c.dims, c.vars, c.body, c.mask
        else:
            dims, vs, body, mask = v.dims, v.vars, v.body, None
        if mask is not None:
            return object()
        if not dims:
            return body
        m = {w.a[0]: tm.var(f"canon~{k}") for k, w in enumerate(vs)}
        return ("array", dims, tm.subst(body, m))
    if isinstance(v, tuple):
        return ("seq",) + tuple(canon(x, st, I) for x in v)
    if isinstance(v, dict):
        return ("rec",) + tuple((k, canon(x, st, I)) for k, x in sorted(v.items()))
    if isinstance(v, Ref):
        r = st.objs.get(v.id)
        if isinstance(r, Inst):
            return ("rec",) + tuple((k, canon(x, st, I)) for k, x in sorted(r.attrs.items())
                                    if not k.startswith("@"))
        if isinstance(r, list):
            return ("seq",) + tuple(canon(x, st, I) for x in r)
    if v is None or isinstance(v, (str, EnumVal)):
        return ("obj", v)
    return object()


def same(a, b, tol=1e-7):
    """Compare observed values; returns None or a description of the difference."""
    if a is ANY or b is ANY:
        return None
    if isinstance(a, Raised) or isinstance(b, Raised):
        if isinstance(a, Raised) and isinstance(b, Raised):
            return None
        return f"{fmt(a)} instead of {fmt(b)}"
    ta, tb = isinstance(a, tuple), isinstance(b, tuple)
    if ta != tb:
        if ta and a[0] == "array" and len(a[2]) == 1 and all(d == 1 for d in a[1]) and not a[1]:
            return same(a[2][0], b, tol)
        return f"{fmt(a)} instead of {fmt(b)}"
    if not ta:
        return None if eq.close(a, b, 1e-9, tol) else f"{fmt(a)} instead of {fmt(b)}"
    if a[0] != b[0]:
        return f"{fmt(a)} instead of {fmt(b)}"
    if a[0] == "array":
        if a[1] != b[1]:
            return f"shape {a[1]} instead of {b[1]}"
        sc = max([1e-300] + [abs(float(x)) for x in b[2] if x == x and abs(x) != float("inf")])
        for k, (x, y) in enumerate(zip(a[2], b[2])):
            if not eq.close(x, y, sc, tol):
                return f"element {grid(a[1])[k]}: {fmt(x)} instead of {fmt(y)}"
        return None
    if a[0] == "seq":
        if len(a[1]) != len(b[1]):
            return f"{len(a[1])} values instead of {len(b[1])}"
        for k, (x, y) in enumerate(zip(a[1], b[1])):
            d = same(x, y, tol)
            if d:
                return f"item {k}: {d}"
        return None
    if a[0] == "rec":
        for k in b[1]:
            if k not in a[1]:
                return f"no field {k}"
            d = same(a[1][k], b[1][k], tol)
            if d:
                return f"field {k}: {d}"
        return None
    return None if a == b else f"{fmt(a)} instead of {fmt(b)}"


def fmt(x):
    if isinstance(x, Raised):
        return repr(x)
    if isinstance(x, tuple):
        if x[0] == "array":
            return f"array of shape {x[1]}"
        if x[0] == "seq":
            return f"{len(x[1])} values"
        if x[0] == "obj":
            return repr(x[1])
        return "object"
    try:
        return f"{float(x):.6g}"
    except Exception:
        return str(x)[:40]


# ---------------------------------------------------------------- outcomes

def guard_of(s, base_pc):
    return [c for c in s.pc if c not in base_pc]


def known(t):
    return not any(x.op == "opq" and isinstance(x.a[0], str) and (x.a[0][0] == "?" or x.a[0].startswith("@pre"))
                   for x in tm.walk(t))


class Observer:
    """Evaluates one outcome at points."""

    def __init__(self, o, S, accepted=()):
        """accepted: outcomes of calls which have to return; what may be raised inside their loops is no refusal."""
        self.o, self.S, self.I = o, S, S.I
        self.raised = []
        self.fuzzy = False
        usual = {(exc.name, exc.site) for a in accepted for s, exc in a.raised
                 if not all(known(c) for c in guard_of(s, a.base_pc))}
        for s, exc in o.raised:
            g = guard_of(s, o.base_pc)
            if all(known(c) for c in g):
                self.raised.append((g, exc))
            elif (exc.name, exc.site) not in usual:
                self.fuzzy = True

    def at(self, E):
        for g, exc in self.raised:
            try:
                if all(E.ev(c, {}) != 0 for c in g):
                    return Raised(exc.name, exc.site, exc.args)
            except KeyError:
                continue        # guard speaks about an index inside a loop
        if not self.o.returned:
            if self.fuzzy or self.o.crash:
                raise UnknownVal("no analysable path returns")
            return Raised("an exception")
        return ev_value(self.o.value, self.o.st, E, self.I)
