"""Hash-consed value-number terms.

A term denotes a real number (or 0/1 for a condition) as a function of symbolic
sizes, symbolic scalars, tensor elements and index variables.  Terms are built
by smart constructors that keep a light normal form (sums and products are
flattened, like terms collected, constants folded, conditions on constants
decided, sums split over flattened axes), so that most equal values get the
same value number.  `Evaluator` evaluates a term at a point; it is used only to
decide equality of two terms (identity testing), never to run the program.
"""
from __future__ import annotations

import math
import weakref
import random
from fractions import Fraction

_intern: dict = {}
_counter = [0]


class T:
    __slots__ = ("op", "a", "fv", "h", "id", "data", "__weakref__")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("a term has no truth value")


def _mk(op, a):
    key = (op, a)
    t = _intern.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.a = op, a
    fv = set()
    h = 0
    data = op in ("e", "uninit", "perm", "draw", "opq")
    if op == "v":
        fv = {a[0]}
    elif op in BIND:
        var, dim, body = a[0], a[1], a[2]
        fv = (body.fv - {var}) | dim.fv
        h = max(body.h, dim.h) + 1
        data = data or body.data or dim.data
        for x in a[3:]:
            if isinstance(x, T):
                fv = fv | x.fv
                h = max(h, x.h)
                data = data or x.data
        if op == "scatter":
            # a = (var, dim, idxbody, valbody, pos, default)
            fv = ((a[2].fv | a[3].fv) - {var}) | dim.fv | a[4].fv | a[5].fv
            h = max(a[2].h, a[3].h, dim.h) + 1
            h = max(h, a[4].h, a[5].h)
    else:
        if op == "mu":
            data = True
        for x in a:
            if isinstance(x, T):
                fv = fv | x.fv
                h = max(h, x.h)
                data = data or x.data
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        fv = fv | y.fv
                        h = max(h, y.h)
                        data = data or y.data
    if op in ("mudef", "muslot"):
        fv = set(fv) - set(a[0])
    if op == "s":
        data = a[1] if len(a) > 1 else False
    t.fv = frozenset(fv)
    t.h = h
    t.data = bool(data)
    _counter[0] += 1
    t.id = _counter[0]
    _intern[key] = t
    return t


BIND = {"sum", "prod", "amax", "amin", "argsort", "scatter"}


_fresh = [0]


def local(prefix):
    """A variable used only inside one operation on terms."""
    _counter[0] += 1
    return _mk("v", (f"{prefix}~L{_counter[0]}",))


def fresh(prefix="v"):
    _fresh[0] += 1
    return _mk("v", (f"{prefix}~{_fresh[0]}",))


def const(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if math.isfinite(x):
            x = Fraction(x)
        else:
            return _mk("c", ("nan" if x != x else ("inf" if x > 0 else "-inf"),))
    if isinstance(x, Fraction) and x.denominator == 1:
        x = int(x)
    return _mk("c", (x,))


def is_const(t):
    return t.op == "c"


def cval(t):
    """Finite rational value of a constant term, or None."""
    if t.op == "c" and not isinstance(t.a[0], str):
        return t.a[0]
    return None


ZERO = None
ONE = None


def sym(name, data=False):
    return _mk("s", (name, data))


def var(name):
    return _mk("v", (name,))


def elem(name, *idx):
    return _mk("e", (name,) + tuple(idx))


def _spec(t):
    return t.op == "c" and isinstance(t.a[0], str)


def _split(t):
    """t -> (constant part, [(coef, term)])"""
    if t.op == "c":
        if isinstance(t.a[0], str):
            return 0, [(1, t)]
        return t.a[0], []
    if t.op == "+":
        return t.a[0], list(t.a[1:])
    return 0, [(1, t)]


def add(*ts, coefs=None):
    c = 0
    acc = {}
    if coefs is None:
        coefs = [1] * len(ts)
    for k, t in zip(coefs, ts):
        if k == 0:
            continue
        c0, parts = _split(t)
        c += k * c0
        for co, p in parts:
            acc[p] = acc.get(p, 0) + k * co
    items = [(co, p) for p, co in acc.items() if co != 0]
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][0] == 1:
        return items[0][1]
    items.sort(key=lambda it: it[1].id)
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    items = [(int(co) if isinstance(co, Fraction) and co.denominator == 1 else co, p)
             for co, p in items]
    return _mk("+", (c,) + tuple(items))


def scale(k, t):
    return add(t, coefs=[k])


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, b, coefs=[1, -1])


def _factors(t):
    """t -> (coef, [(base, int exp)])"""
    if t.op == "c" and not isinstance(t.a[0], str):
        return t.a[0], []
    if t.op == "*":
        return 1, list(t.a)
    if t.op == "+" and t.a[0] == 0 and len(t.a) == 2:
        co, p = t.a[1]
        c2, f = _factors(p)
        return co * c2, f
    return 1, [(t, 1)]


def mul(*ts):
    c = 1
    acc = {}
    for t in ts:
        c0, fs = _factors(t)
        c *= c0
        for b, e in fs:
            acc[b] = acc.get(b, 0) + e
    if c == 0:
        if any(_spec(b) for b in acc):
            return const(float("nan"))
        return ZERO
    items = []
    for b, e in acc.items():
        if e == 0:
            continue
        if b.op in ("cmp", "and", "or", "not") and e > 1:
            e = 1
        items.append((b, e))
    if not items:
        return const(c)
    if len(items) == 1 and items[0][1] == 1:
        base = items[0][0]
    else:
        items.sort(key=lambda it: it[0].id)
        base = _mk("*", tuple(items))
    return base if c == 1 else scale(c, base)


def ipow(t, k):
    """t**k for an integer k."""
    if k == 0:
        return ONE
    if k == 1:
        return t
    c, fs = _factors(t)
    if c == 0:
        if k > 0:
            return ZERO
        return const(float("inf"))
    ck = Fraction(c) ** k
    if not fs:
        return const(ck)
    items = []
    parts = []
    for b, e in fs:
        if b.op == "abs" and (e * k) % 2 == 0:
            parts.append((b.a[0], e * k))
        elif b.op == "pow":
            ev = cval(b.a[1])
            if ev is not None and ev > 0:
                parts.append(("pw", b.a[0], ev * e * k))
            else:
                parts.append((b, e * k))
        elif b.op == "c":  # inf / nan
            v = float(b.a[0])
            try:
                parts.append(("t", const(v ** (e * k)) if v ** (e * k) != 0 else ZERO))
            except ZeroDivisionError:
                parts.append(("t", const(float("inf"))))
        else:
            parts.append((b, e * k))
    res = [const(ck)]
    for p in parts:
        if p[0] == "t":
            res.append(p[1])
        elif p[0] == "pw":
            res.append(power(p[1], const(p[2])))
        else:
            res.append(_rawpow(*p))
    return mul(*res)


def _rawpow(b, e):
    if e == 1:
        return b
    if b.op == "*":
        return mul(*[_rawpow(x, y * e) for x, y in b.a])
    return _mk("*", ((b, e),))


def div(a, b):
    bv = cval(b)
    if bv is not None and bv != 0:
        return scale(Fraction(1) / bv, a)
    return mul(a, ipow(b, -1))


def nonneg(t):
    """Structural non-negativity."""
    op = t.op
    if op == "c":
        v = t.a[0]
        return (not isinstance(v, str) and v >= 0) or v == "inf"
    if op in ("abs", "cmp", "and", "or", "not"):
        return True
    if op == "s":
        return not t.a[1] and t.a[0] not in SIGNED
    if op == "v":
        return True
    if op == "*":
        return all(e % 2 == 0 or nonneg(b) for b, e in t.a)
    if op == "+":
        return t.a[0] >= 0 and all(c >= 0 and nonneg(p) for c, p in t.a[1:])
    if op in ("sum", "amax", "amin", "prod"):
        return nonneg(t.a[2])
    if op == "pow":
        return True
    if op == "ite":
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if op == "argsort":
        return True
    return False


SIGNED: set = set()


def power(b, e):
    ev = cval(e)
    if ev is not None:
        if ev == int(ev):
            return ipow(b, int(ev))
        bv = cval(b)
        if bv is not None:
            if bv == 0 and ev > 0:
                return ZERO
            if bv == 1:
                return ONE
            if bv > 0 and ev == Fraction(1, 2):
                bf = Fraction(bv)
                n, d = math.isqrt(bf.numerator), math.isqrt(bf.denominator)
                if n * n == bf.numerator and d * d == bf.denominator:
                    return const(Fraction(n, d))
        if b.op == "pow":
            inner = cval(b.a[1])
            if nonneg(b.a[0]) or inner is not None:
                return power(b.a[0], mul(b.a[1], e))
    else:
        if b.op == "pow" and nonneg(b.a[0]):
            return power(b.a[0], mul(b.a[1], e))
        if cval(b) == 1:
            return ONE
    if b.op == "*" and len(b.a) == 1 and b.a[0][1] % 2 == 0 and ev is not None:
        base, k = b.a[0]
        if (k * ev) == int(k * ev):
            return ipow(absv(base), int(k * ev))
    if b.op == "*" and len(b.a) == 1 and nonneg(b.a[0][0]):
        base, k = b.a[0]
        return power(base, scale(k, e))
    return _mk("pow", (b, e))


def absv(t):
    v = cval(t)
    if v is not None:
        return const(abs(v))
    if nonneg(t):
        return t
    if t.op == "abs":
        return t
    # canonical sign
    if t.op == "+" and t.a[1][0] < 0:
        t = neg(t)
        if nonneg(t):
            return t
    c, fs = _factors(t)
    if c != 1 and fs:
        return scale(abs(c), absv(mul(*[_rawpow(b, e) for b, e in fs])))
    return _mk("abs", (t,))


def cmp(rel, a, b):
    """rel in == < <= ; others are derived."""
    if rel == "!=":
        return not_(cmp("==", a, b))
    if rel == ">":
        return cmp("<", b, a)
    if rel == ">=":
        return cmp("<=", b, a)
    d = sub(a, b)
    v = cval(d)
    if v is not None:
        return const({"==": v == 0, "<": v < 0, "<=": v <= 0}[rel])
    if a.op == "c" and b.op == "c":
        x, y = float(a.a[0]), float(b.a[0])
        return const({"==": x == y, "<": x < y, "<=": x <= y}[rel])
    # normalise the scale by the leading coefficient
    if d.op == "+":
        lead = abs(Fraction(d.a[1][0]))
        if lead != 1:
            d = scale(1 / lead, d)
        if rel == "==" and d.op == "+" and d.a[1][0] < 0:
            d = neg(d)
    if rel == "==" :
        c, fs = _factors(d)
        if len(fs) == 1 and fs[0][1] > 0 and fs[0][0].op in ("abs",):
            return cmp("==", fs[0][0].a[0], ZERO)
        if len(fs) == 1 and fs[0][0].op == "pow" and fs[0][1] > 0:
            e = cval(fs[0][0].a[1])
            if e is not None and e > 0 and nonneg(fs[0][0].a[0]):
                return cmp("==", fs[0][0].a[0], ZERO)
    if rel == "<" and nonneg(d):
        return ZERO
    if rel == "<=" and nonneg(neg(d)):
        return ONE
    return _mk("cmp", (rel, d))


def asbool(t):
    """A choice between true and false is its condition."""
    if t.op == "ite" and t.a[0].op in ("cmp", "and", "not", "ite"):
        a, b = t.a[1], t.a[2]
        if a.op == "c" and b.op == "c" and not isinstance(a.a[0], str) and not isinstance(b.a[0], str):
            x, y = a.a[0] != 0, b.a[0] != 0
            if x == y:
                return ONE if x else ZERO
            return asbool(t.a[0]) if x else not_(asbool(t.a[0]))
        if a.op == "c" and a.a[0] == 0:
            return and_(not_(asbool(t.a[0])), asbool(b))
        if b.op == "c" and b.a[0] == 0:
            return and_(asbool(t.a[0]), asbool(a))
    elif t.op == "not":
        x = asbool(t.a[0])
        return t if x is t.a[0] else not_(x)
    return t


def not_(t):
    if t.op == "c":
        return const(0 if t.a[0] != 0 else 1)
    if t.op == "not":
        return t.a[0]
    return _mk("not", (t,))


def and_(*ts):
    out = []
    for t in ts:
        if t.op == "c":
            if t.a[0] == 0:
                return ZERO
            continue
        if t.op == "and":
            out.extend(t.a)
        else:
            out.append(t)
    u = sorted(set(out), key=lambda x: x.id)
    if not u:
        return ONE
    for x in u:
        if not_(x) in u:
            return ZERO
    if len(u) == 1:
        return u[0]
    return _mk("and", tuple(u))


def or_(*ts):
    return not_(and_(*[not_(t) for t in ts]))


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "c":
        return a if c.a[0] != 0 else b
    if c.op == "not":
        return ite(c.a[0], b, a)
    return _mk("ite", (c, a, b))


def truth(t):
    """Term used as a condition: t != 0, unless it is a condition already."""
    if t.op in ("cmp", "and", "not"):
        return t
    if t.op == "c":
        return const(0 if t.a[0] == 0 else 1)
    if t.op == "ite" and all(x.op in ("cmp", "and", "not", "c") for x in t.a[1:]):
        return t
    return cmp("!=", t, ZERO)


def fn(name, *args):
    vs = [cval(a) for a in args]
    if all(v is not None for v in vs):
        try:
            if name == "floor":
                return const(math.floor(vs[0]))
            if name == "ceil":
                return const(math.ceil(vs[0]))
            if name == "floordiv":
                return const(vs[0] // vs[1])
            if name == "mod":
                return const(vs[0] % vs[1])
            if name == "log2" and vs[0] > 0:
                x = math.log2(vs[0])
                if x == int(x):
                    return const(int(x))
        except (ZeroDivisionError, OverflowError):
            pass
    if name in ("floordiv", "mod") and cval(args[1]) == 1:
        return args[0] if name == "floordiv" else ZERO
    if name in ("floor", "ceil", "trunc") and is_int_term(args[0]):
        return args[0]
    return _mk("fn", (name,) + tuple(args))


INTSYM: set = set()


def is_int_term(t):
    if t.op == "c":
        return isinstance(t.a[0], int)
    if t.op == "v":
        return True
    if t.op == "s":
        return t.a[0] in INTSYM
    if t.op == "+":
        return isinstance(t.a[0], int) and all(isinstance(c, int) and is_int_term(p) for c, p in t.a[1:])
    if t.op == "*":
        return all(e > 0 and is_int_term(b) for b, e in t.a)
    if t.op == "fn":
        return t.a[0] in ("floor", "ceil", "trunc") or (
            t.a[0] in ("floordiv", "mod") and is_int_term(t.a[1]) and is_int_term(t.a[2]))
    if t.op in ("argsort", "cmp", "and", "not", "perm"):
        return True
    if t.op == "ite":
        return is_int_term(t.a[1]) and is_int_term(t.a[2])
    if t.op == "sum":
        return is_int_term(t.a[2])
    return False


def opq(name, *args):
    """Opaque value: uninterpreted function symbol of its arguments."""
    return _mk("opq", (name,) + tuple(args))


def linalg(kind, i, j, n, entries):
    """Element (i, j) of a function of a small matrix given by its entries (row by row)."""
    return _mk("opq", (kind, i, j, n) + tuple(entries))


def uninit(name, *idx):
    return _mk("uninit", (name,) + tuple(idx))


def perm(source, draw, dim, *idx):
    """Element of a random permutation: source, draw args, size, position last."""
    return _mk("perm", (source, tuple(draw), dim) + tuple(idx))


_mudefs = {}
_mutag = [0]


def mudef(itervar, cond, slots):
    """Loop as a value.

    slots: list of (vars, dims, init, post); posts and cond mention the state through
    mustate("@", k, *idx) and the iteration number through itervar (or None).
    Structurally equal loops get the same definition.
    """
    it = var("it~@")
    ms = []
    for k, (vs, dims, init, post) in enumerate(slots):
        names = tuple(f"mv~@{k}.{j}" for j in range(len(vs)))
        m = {v.a[0]: var(n) for v, n in zip(vs, names)}
        init = subst(init, m)
        if itervar is not None:
            m[itervar.a[0]] = it
        ms.append(_mk("muslot", (names, init, subst(post, m)) + tuple(dims)))
    if itervar is not None and cond is not None:
        cond = subst(cond, {itervar.a[0]: it})
    canon = _mk("mudef", (("st~@", "it~@"), "@", cond) + tuple(ms))
    d = _mudefs.get(canon)
    if d is not None:
        return d
    _mutag[0] += 1
    tag = str(_mutag[0])
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "v":
            n = x.a[0]
            if n == "st~@" or n == "it~@":
                r = var(n[:3] + tag)
            elif n.startswith("mv~@"):
                r = var(f"mv~{tag}:" + n[4:])
            else:
                r = x
        elif x.op == "opq" and isinstance(x.a[0], str) and x.a[0].startswith("@st:@:"):
            r = _mk("opq", (f"@st:{tag}:" + x.a[0][6:],) + tuple(go(y) for y in x.a[1:]))
        elif x.op == "muslot" and x.a[0] and x.a[0][0].startswith("mv~@"):
            r = _mk("muslot", (tuple(f"mv~{tag}:" + n[4:] for n in x.a[0]),) + tuple(go(y) for y in x.a[1:]))
        elif x.op in ("c", "s"):
            r = x
        else:
            r = _rebuild(x, go)
        memo[x] = r
        return r
    d = _mk("mudef", ((f"st~{tag}", f"it~{tag}"), tag, None if cond is None else go(cond)) + tuple(go(x) for x in ms))
    _mudefs[canon] = d
    return d


NOCOUNT = None


def mu(d, k, count, *idx):
    """Value of slot k of loop d after `count` iterations (None: until its condition fails)."""
    return _mk("mu", (d, k, count) + tuple(idx))


def mustate(tag, k, *idx):
    return _mk("opq", (f"@st:{tag}:{k}", var(f"st~{tag}")) + tuple(idx))


# ---------------------------------------------------------------- binders

def _bound(h):
    return f"#{h}"


def _close(op, v, dim, bodies, rest=()):
    h = max([b.h for b in bodies] + [dim.h]) + 1
    name = _bound(h)
    bv = var(name)
    bs = [subst(b, {v.a[0]: bv}) for b in bodies]
    return _mk(op, (name, dim) + tuple(bs) + tuple(rest))


def _dim_factors(dim):
    c, fs = _factors(dim)
    out = [] if c == 1 else [const(c)]
    for b, e in fs:
        if e < 1:
            return None
        out.extend([b] * e)
    return out


def _replace(t, mapping):
    """Replace whole sub-terms (no capture handling needed: free variables only)."""
    memo = {}

    def go(x):
        if x in mapping:
            return mapping[x]
        if x in memo:
            return memo[x]
        memo[x] = r = _rebuild(x, go)
        return r
    return go(t)


def unflatten(v, dim, body):
    """If v (ranging over d1*d2) occurs only as v//d2 and v%d2, return the two-level form."""
    cands = set()

    def scan(x):
        if v.a[0] not in x.fv:
            return
        if x.op == "fn" and x.a[0] in ("floordiv", "mod") and x.a[1] is v:
            cands.add(x.a[2])
            return
        for y in x.a:
            if isinstance(y, T):
                scan(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        scan(z)
    scan(body)
    for d2 in cands:
        d1 = div(dim, d2)
        i, j = local("i"), local("j")
        mapping = {fn("floordiv", v, d2): i, fn("mod", v, d2): j}
        nb = _replace(body, mapping)
        if v.a[0] not in nb.fv and not any(d2 is x for x in ()):
            return i, d1, j, d2, nb
    return None


def sum_(v, dim, body):
    dv = cval(dim)
    if dv is not None and dv <= 0:
        return ZERO
    if cval(body) == 0:
        return ZERO
    if v.a[0] not in body.fv:
        return mul(dim, body)
    if dv is not None and dv <= 4 and dv == int(dv):
        return add(*[subst(body, {v.a[0]: const(k)}) for k in range(int(dv))])
    uf = unflatten(v, dim, body)
    if uf:
        i, d1, j, d2, nb = uf
        return sum_(i, d1, sum_(j, d2, nb))
    # linear in the body
    if body.op == "+":
        c0, parts = body.a[0], body.a[1:]
        out = [mul(const(c0), dim)] if c0 else []
        for co, p in parts:
            out.append(scale(co, sum_(v, dim, p)))
        return add(*out)
    c, fs = _factors(body)
    outer = [(b, e) for b, e in fs if v.a[0] not in b.fv]
    if outer or c != 1:
        inner = [(b, e) for b, e in fs if v.a[0] in b.fv]
        return mul(const(c), *[_rawpow(b, e) for b, e in outer],
                   sum_(v, dim, mul(*[_rawpow(b, e) for b, e in inner])))
    # sum of a delta: sum_v [v == t] * rest
    for b, e in fs:
        if b.op == "cmp" and b.a[0] == "==" and e == 1:
            d = b.a[1]
            if d.op == "+":
                for co, p in d.a[1:]:
                    if p is v and abs(co) == 1:
                        t = add(v, scale(-1 if co == 1 else 1, d))
                        if v.a[0] not in t.fv:
                            rest = mul(*[_rawpow(x, y) for x, y in fs if x is not b])
                            inb = and_(cmp("<=", ZERO, t), cmp("<", t, dim))
                            return ite(inb, subst(rest, {v.a[0]: t}), ZERO)
            elif d is v:
                rest = mul(*[_rawpow(x, y) for x, y in fs if x is not b])
                return ite(cmp("<", ZERO, dim), subst(rest, {v.a[0]: ZERO}), ZERO)
    # order nested sums canonically
    if body.op == "sum" and (body.a[1].id, ) < (dim.id, ) and v.a[0] not in body.a[1].fv:
        w = local("w")
        inner_body = subst(body.a[2], {body.a[0]: w})
        return _close("sum", w, body.a[1], [_close("sum", v, dim, [inner_body])]) \
            if w.a[0] in _close("sum", v, dim, [inner_body]).fv else _close("sum", v, dim, [body])
    return _close("sum", v, dim, [body])


def prod_(v, dim, body):
    dv = cval(dim)
    if dv is not None and dv <= 4:
        return mul(*[subst(body, {v.a[0]: const(k)}) for k in range(int(dv))])
    if v.a[0] not in body.fv:
        return power(body, dim)
    return _close("prod", v, dim, [body])


def extremum(op, v, dim, body):
    if v.a[0] not in body.fv:
        return body
    dv = cval(dim)
    if dv is not None and 0 < dv <= 4:
        t = subst(body, {v.a[0]: ZERO})
        for k in range(1, int(dv)):
            u = subst(body, {v.a[0]: const(k)})
            t = ite(cmp("<" if op == "amax" else ">", t, u), u, t)
        return t
    return _close(op, v, dim, [body])


def argsort(v, dim, body, idx):
    return _close("argsort", v, dim, [body], (idx,))


def scatter(v, dim, idxbody, valbody, pos, default):
    """Value at pos after a[idx(v)] = val(v) for v in order."""
    if idxbody is v:
        inb = and_(cmp("<=", ZERO, pos), cmp("<", pos, dim))
        return ite(inb, subst(valbody, {v.a[0]: pos}), default)
    return _close("scatter", v, dim, [idxbody, valbody], (pos, default))


def _rebuild(t, go):
    """Rebuild a non-binder term with transformed children (binders: children too, no renaming)."""
    op, a = t.op, t.a
    if op in ("c", "s", "v"):
        return t
    if op == "+":
        return add(*([const(a[0])] + [go(p) for _, p in a[1:]]), coefs=[1] + [c for c, _ in a[1:]])
    if op == "*":
        return mul(*[ipow(go(b), e) for b, e in a])
    if op == "pow":
        return power(go(a[0]), go(a[1]))
    if op == "abs":
        return absv(go(a[0]))
    if op == "cmp":
        return cmp(a[0], go(a[1]), ZERO)
    if op == "not":
        return not_(go(a[0]))
    if op == "and":
        return and_(*[go(x) for x in a])
    if op == "ite":
        c = go(a[0])
        if c.op == "c":
            return go(a[1]) if c.a[0] != 0 else go(a[2])
        return ite(c, go(a[1]), go(a[2]))
    if op == "fn":
        return fn(a[0], *[go(x) for x in a[1:]])
    if op == "perm":
        return perm(a[0], [go(x) if isinstance(x, T) else x for x in a[1]], *[go(x) for x in a[2:]])
    if op in BIND:
        name, dim = a[0], a[1]
        v = local("b")
        nd = go(dim)
        if op == "scatter":
            # first open, then transform (go must not capture: v is fresh)
            ib, vb = subst(a[2], {name: v}), subst(a[3], {name: v})
            return scatter(v, nd, go(ib), go(vb), go(a[4]), go(a[5]))
        body = go(subst(a[2], {name: v}))
        if op == "sum":
            return sum_(v, nd, body)
        if op == "prod":
            return prod_(v, nd, body)
        if op in ("amax", "amin"):
            return extremum(op, v, nd, body)
        return argsort(v, nd, body, go(a[3]))
    return _mk(op, tuple(go(x) if isinstance(x, T) else x for x in a))


def subst(t, m):
    """Capture-avoiding substitution of index variables / symbols by name."""
    smap = {k[1:]: v for k, v in m.items() if k.startswith("$")} if any(k[0] == "$" for k in m) else None
    key = None
    if not smap:
        m = {k: v for k, v in m.items() if k in t.fv}
        if not m:
            return t
        if t.op == "v":
            return m[t.a[0]]
        key = (t, tuple(sorted((k, v.id) for k, v in m.items())))
        r = _subst_cache.get(key)
        if r is not None:
            return r[0]
    names = frozenset(k for k in m if k[0] != "$")
    memo = {}

    def go(x):
        if not smap and not (x.fv & names):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "v":
            r = m.get(x.a[0], x)
        elif x.op == "s":
            r = smap.get(x.a[0], x)
        elif x.op in BIND and not smap:
            # rename the bound variable and substitute in one pass
            v = _unused(x, m)
            name, dim = x.a[0], x.a[1]
            nd = go(dim)
            m2 = {k: val for k, val in m.items() if k != name}
            m2[name] = v
            if x.op == "scatter":
                r = scatter(v, nd, subst(x.a[2], m2), subst(x.a[3], m2), go(x.a[4]), go(x.a[5]))
            else:
                body = subst(x.a[2], m2)
                if x.op == "sum":
                    r = sum_(v, nd, body)
                elif x.op == "prod":
                    r = prod_(v, nd, body)
                elif x.op in ("amax", "amin"):
                    r = extremum(x.op, v, nd, body)
                else:
                    r = argsort(v, nd, body, go(x.a[3]))
        else:
            r = _rebuild(x, go)
        memo[x] = r
        return r
    r = go(t)
    if key is not None:
        if len(_subst_cache) > 400000:
            _subst_cache.clear()
        _subst_cache[key] = (r, tuple(m.values()))      # the values stay alive: their numbers are not reused
    return r


_subst_cache = {}


def _unused(x, m):
    """A variable that occurs neither in x nor in the values put into it (the same one every time)."""
    used = set(x.fv)
    for k in x.fv:
        v = m.get(k)
        if v is not None:
            used |= v.fv
    k = 0
    while f"b~L{k}" in used:
        k += 1
    return var(f"b~L{k}")


ZERO = const(0)
ONE = const(1)
TWO = const(2)
HALF = const(Fraction(1, 2))


def walk(t, seen=None):
    """All distinct sub-terms."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                stack.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        stack.append(z)
    return seen


def show(t, depth=6):
    op, a = t.op, t.a
    if depth <= 0:
        return "..."
    s = lambda x: show(x, depth - 1)
    if op == "c":
        return str(a[0])
    if op in ("s", "v"):
        return str(a[0])
    if op == "e":
        return f"{a[0]}[{','.join(s(x) for x in a[1:])}]"
    if op == "+":
        out = [str(a[0])] if a[0] else []
        for c, p in a[1:]:
            out.append(s(p) if c == 1 else f"{c}*{s(p)}")
        return "(" + " + ".join(out) + ")"
    if op == "*":
        return "*".join(s(b) if e == 1 else f"{s(b)}^{e}" for b, e in a)
    if op == "pow":
        return f"{s(a[0])}^({s(a[1])})"
    if op == "cmp":
        return f"[{s(a[1])} {a[0]} 0]"
    if op == "sum":
        return f"SUM({a[0]}<{s(a[1])}: {s(a[2])})"
    if op in BIND:
        return f"{op}({a[0]}<{s(a[1])}: {', '.join(s(x) for x in a[2:])})"
    if op == "perm":
        return f"perm[{a[0]}]({','.join(s(x) for x in a[3:])})"
    return f"{op}({', '.join(s(x) if isinstance(x, T) else str(x) for x in a)})"


# ---------------------------------------------------------------- evaluation

class EvalError(Exception):
    pass


def _h(*args):
    return random.Random(repr(args)).random()


class _MuRun:
    """Iterates one loop term at a point, remembering every state."""

    def __init__(self, ev, d, env):
        self.E, self.d, self.env = weakref.proxy(ev), d, env
        _, self.tag, self.cond = d.a[:3]
        self.slots = d.a[3:]
        self.grids = []
        for s in self.slots:
            pts = [()]
            for x in s.a[3:]:
                m = int(ev.ev(x, env))
                pts = [p + (k,) for p in pts for k in range(m)]
                if len(pts) > 4096:
                    raise EvalError("state too large")
            self.grids.append((s.a[0], pts))
        self.states = [self.table(1, env)]
        self.done = False

    def table(self, which, e0):
        out = []
        for s, (names, pts) in zip(self.slots, self.grids):
            e2 = dict(e0)
            t = {}
            body = s.a[which]
            for p in pts:
                e2.update(zip(names, p))
                t[p] = self.E.ev(body, e2)
            out.append(t)
        return out

    def step(self):
        if self.done:
            return
        k = len(self.states) - 1
        if k > 5000:
            raise EvalError("loop does not terminate")
        cur = self.states[-1]
        ver = len(self.E.mustates)
        self.E.mustates.append(cur)
        e2 = dict(self.env)
        e2["st~" + self.tag] = ver
        e2["it~" + self.tag] = k
        if self.cond is not None and self.E.ev(self.cond, e2) == 0:
            self.done = True
            return
        self.states.append(self.table(2, e2))

    def at(self, n):
        while not self.done and (n is None or len(self.states) <= n):
            self.step()
        if n is None:
            return self.states[-1]
        return self.states[min(max(n, 0), len(self.states) - 1)]


def nroot(x, q, bits):
    """q-th root of a positive fraction to the given number of significant bits."""
    size = x.numerator.bit_length() - x.denominator.bit_length()
    s = bits - size // q + 2
    num = (x.numerator << (q * s)) // x.denominator if s >= 0 else x.numerator // (x.denominator << (-q * s))
    if q == 2:
        r = math.isqrt(num)
    else:
        r = 1 << (num.bit_length() // q + 1)
        while True:
            t = ((q - 1) * r + num // r ** (q - 1)) // q
            if t >= r:
                break
            r = t
    return Fraction(r, 1) / (Fraction(2) ** s)


class Evaluator:
    """Evaluate terms at one point.

    syms:    symbol name -> number
    tensors: name -> callable(idx tuple) -> number
    seed:    seeds uninterpreted functions, random permutations and uninitialised memory
    forced:  term -> bool, overriding the value of comparison nodes
    negate:  set of fingerprints of closed values forced negative
    """

    def __init__(self, syms, tensors, seed=0, forced=None, force_neg=(), ties="stable", garbage=0, bits=0):
        self.bits = bits
        self.inexact = False
        self.syms, self.tensors, self.seed = syms, tensors, seed
        self.forced = forced or {}
        self.force_neg = set(force_neg)
        self.neg_any = False        # also inside arrays
        self.ties = ties
        self.garbage = garbage
        self.memo = {}
        self.limit = 3_000_000
        self.cmps = {}
        self.forced_hits = 0
        self.vec = {}
        self.mustates = []

    def fingerprint(self, v):
        if isinstance(v, bool) or v != v or v in (float("inf"), float("-inf")) or v == 0:
            return None
        return float(f"{abs(float(v)):.9e}")

    def __call__(self, t, env=None):
        return self.ev(t, env or {})

    def ev(self, t, env):
        op = t.op
        if op == "c":
            v = t.a[0]
            if isinstance(v, str):
                return float(v)
            return v
        if op == "v":
            return env[t.a[0]]
        if op == "s":
            try:
                return self.syms[t.a[0]]
            except KeyError:
                raise EvalError(f"no value for symbol {t.a[0]}")
        key = (t.id,) + tuple(env[x] for x in sorted(t.fv)) if t.fv else t.id
        r = self.memo.get(key)
        if r is not None:
            return r
        self.limit -= 1
        if self.limit < 0:
            raise EvalError("evaluation budget")
        r = self._ev(t, env)
        if self.force_neg and t.data and (not t.fv or self.neg_any) and op not in ("cmp", "and", "not"):
            fp = self.fingerprint(r)
            if fp in self.force_neg:
                self.forced_hits += 1
                r = -abs(r)
            elif fp is not None and op == "+":
                # comparisons normalise their left side by a constant factor
                for f in self.force_neg:
                    q = max(fp / f, f / fp)
                    if q < 33 and abs(q - round(q)) < 1e-8:
                        self.forced_hits += 1
                        r = -abs(r)
                        break
        self.memo[key] = r
        return r

    def _ev(self, t, env):
        op, a = t.op, t.a
        ev = self.ev
        if op == "e":
            return self.tensors(a[0], tuple(int(ev(x, env)) for x in a[1:]))
        if op == "+":
            s = a[0]
            for c, p in a[1:]:
                s = s + c * ev(p, env)
            return s
        if op == "*":
            r = 1
            for b, e in a:
                x = ev(b, env)
                if e < 0:
                    if x == 0:
                        x = float("inf") if e % 2 == 0 or math.copysign(1, x) > 0 else float("-inf")
                    else:
                        try:
                            x = float(x) ** e if isinstance(x, float) else Fraction(1) / x ** -e
                        except OverflowError:
                            x = float("inf")
                elif e != 1:
                    try:
                        x = x ** e
                    except OverflowError:
                        x = float("inf")
                r = r * x
            return r
        if op == "pow":
            b, e = ev(a[0], env), ev(a[1], env)
            try:
                if b == 0 and e < 0:
                    return float("inf")
                if b == 0 and e > 0:
                    return 0
                if b == 1:
                    return 1
                if not isinstance(b, float) and not isinstance(e, float):
                    e = Fraction(e)
                    if e.denominator == 1 and abs(e) < 64:
                        return Fraction(b) ** int(e)
                    if e.denominator == 2 and b >= 0 and abs(e) < 64:
                        fb = Fraction(b)
                        rn, rd = math.isqrt(fb.numerator), math.isqrt(fb.denominator)
                        if rn * rn == fb.numerator and rd * rd == fb.denominator:
                            return Fraction(rn, rd) ** e.numerator
                    if self.bits and b > 0 and e.denominator <= 256 and abs(e.numerator) <= 1024:
                        self.inexact = True
                        return nroot(Fraction(b) ** e.numerator, e.denominator, self.bits)
                if b < 0 and e != int(e):
                    return float("nan")
                return float(b) ** e
            except OverflowError:
                return float("inf")
        if op == "abs":
            return abs(ev(a[0], env))
        if op == "cmp":
            if t in self.forced:
                return int(self.forced[t])
            d = ev(a[1], env)
            r = self.decide(a[0], d, a[1], env)
            if not t.fv:
                self.cmps[t] = (r, d)
            return r
        if op == "not":
            return 1 - int(ev(a[0], env) != 0)
        if op == "and":
            for x in a:
                if ev(x, env) == 0:
                    return 0
            return 1
        if op == "ite":
            return ev(a[1], env) if ev(a[0], env) != 0 else ev(a[2], env)
        if op == "sum":
            n = int(ev(a[1], env))
            e2 = dict(env)
            s = 0
            for k in range(n):
                e2[a[0]] = k
                s = s + ev(a[2], e2)
            return s
        if op == "prod":
            n = int(ev(a[1], env))
            e2 = dict(env)
            s = 1
            for k in range(n):
                e2[a[0]] = k
                s = s * ev(a[2], e2)
            return s
        if op in ("amax", "amin"):
            n = int(ev(a[1], env))
            e2 = dict(env)
            vals = []
            for k in range(n):
                e2[a[0]] = k
                vals.append(ev(a[2], e2))
            if not vals:
                raise EvalError("empty extremum")
            return max(vals) if op == "amax" else min(vals)
        if op == "argsort":
            fvs = (a[2].fv | a[1].fv) - {a[0]}
            key = ("as", a[0], a[1].id, a[2].id) + tuple(env[x] for x in sorted(fvs))
            order = self.vec.get(key)
            if order is None:
                n = int(ev(a[1], env))
                e2 = dict(env)
                vals = []
                for k in range(n):
                    e2[a[0]] = k
                    vals.append(ev(a[2], e2))
                if self.ties == "stable":
                    order = sorted(range(n), key=lambda i: (vals[i], i))
                else:
                    order = sorted(range(n), key=lambda i: (vals[i], _h(self.seed, key, i)))
                self.vec[key] = order
            i = int(ev(a[3], env))
            if not -len(order) <= i < len(order):
                raise EvalError("index out of range")
            return order[i]
        if op == "scatter":
            n = int(ev(a[1], env))
            p = ev(a[4], env)
            e2 = dict(env)
            for k in range(n - 1, -1, -1):
                e2[a[0]] = k
                if ev(a[2], e2) == p:
                    return ev(a[3], e2)
            return ev(a[5], env)
        if op == "uninit":
            return 1e3 * (1 + _h("garbage", self.garbage, a[0], tuple(ev(x, env) for x in a[1:])))
        if op == "mu":
            n = None if a[2] is None else int(ev(a[2], env))
            tabs = self.run_mu(a[0], n, env)
            idx = tuple(int(ev(x, env)) for x in a[3:])
            try:
                return tabs[a[1]][idx]
            except KeyError:
                raise EvalError("index out of range")
        if op == "opq" and isinstance(a[0], str) and a[0].startswith("@st:"):
            tabs = self.mustates[ev(a[1], env)]
            idx = tuple(int(ev(x, env)) for x in a[2:])
            try:
                return tabs[int(a[0].rpartition(":")[2])][idx]
            except KeyError:
                raise EvalError("index out of range")
        if op == "opq" and a[0] in LINALG:
            key = ("lin", a[0]) + tuple(x.id for x in a[4:]) + tuple(env[v] for v in sorted(set().union(*[x.fv for x in a[4:]])))
            tab = self.vec.get(key)
            if tab is None:
                n = a[3]
                vals = [ev(x, env) for x in a[4:]]
                if self.bits:
                    self.inexact = True
                else:
                    vals = [float(x) for x in vals]
                tab = self.vec[key] = small_matrix(a[0], [vals[k * n:k * n + n] for k in range(n)], self.bits)
            i, j = int(ev(a[1], env)), int(ev(a[2], env))
            try:
                if i < 0 or j < 0:
                    raise IndexError
                return tab[i][j]
            except IndexError:
                raise EvalError("index out of range")
        if op == "opq":
            vals = []
            for x in a[1:]:
                if isinstance(x, T):
                    v = ev(x, env)
                    vals.append(float(f"{float(v):.7e}") if v == v else "nan")
                else:
                    vals.append(x)
            return 0.5 + _h("opq", self.seed, a[0], tuple(vals))
        if op == "perm":
            n = int(ev(a[2], env))
            draw = tuple(ev(x, env) if isinstance(x, T) else x for x in a[1])
            key = ("perm", a[0], draw, n)
            order = self.vec.get(key)
            if order is None:
                order = list(range(n))
                same = isinstance(self.seed, tuple)     # every draw gives the same permutation
                r = random.Random(repr((self.seed, n) if same else (self.seed, a[0], draw, n)))
                if same or r.random() < 0.75:
                    r.shuffle(order)
                self.vec[key] = order
            i = int(ev(a[3], env))
            return order[i]
        if op == "fn":
            return self.fn(a[0], [ev(x, env) for x in a[1:]])
        raise EvalError(f"cannot evaluate {op}")

    def run_mu(self, d, n, env):
        """State table of loop d after n iterations (n None: until the condition fails)."""
        key = ("mu", d.id) + tuple(env[x] for x in sorted(d.fv))
        rec = self.vec.get(key)
        if rec is None:
            rec = self.vec[key] = _MuRun(self, d, dict(env))
        return rec.at(n)

    def decide(self, rel, d, dt, env):
        if d != d:
            return 0
        if d != 0 and dt.data and (isinstance(d, float) or self.bits and self.inexact) and self.rounded_zero(dt, d, env):
            d = 0
        return int({"==": d == 0, "<": d < 0, "<=": d <= 0}[rel])

    def rounded_zero(self, t, d, env, depth=0):
        """A value that is zero up to rounding, relative to the size of its parts."""
        if t.op == "+":
            big = 0
            for c, p in _split(t)[1]:
                x = self.ev(p, env)
                if x == x and abs(x) != float("inf"):
                    big = max(big, abs(Fraction(c) * Fraction(x)))
            return abs(Fraction(d)) * (10 ** 12 if isinstance(d, float) else 2 ** (self.bits // 2)) <= big \
                if d == d and abs(d) != float("inf") else False
        if depth > 4:
            return False
        if t.op == "*":
            parts = [b for b, e in t.a if e > 0]
        elif t.op in ("abs", "pow"):
            parts = [t.a[0]]
        elif t.op == "ite":
            parts = [t.a[1] if self.ev(t.a[0], env) != 0 else t.a[2]]
        else:
            return False
        for b in parts:
            if b.op in ("+", "*", "abs", "pow", "ite"):
                x = self.ev(b, env)
                if x != 0 and (isinstance(x, float) or self.bits) and self.rounded_zero(b, x, env, depth + 1):
                    return True
        return False

    def fn(self, name, v):
        try:
            if name == "floor":
                return math.floor(v[0])
            if name == "ceil":
                return math.ceil(v[0])
            if name == "trunc":
                return math.trunc(v[0])
            if name == "round":
                return round(v[0]) if len(v) == 1 else round(float(v[0]), int(v[1]))
            if name == "floordiv":
                return v[0] // v[1]
            if name == "mod":
                return v[0] % v[1]
            if name == "log2":
                return math.log2(v[0]) if v[0] > 0 else (float("-inf") if v[0] == 0 else float("nan"))
            if name == "log":
                return math.log(v[0]) if v[0] > 0 else (float("-inf") if v[0] == 0 else float("nan"))
            if name == "exp":
                return math.exp(v[0])
            if name == "isnan":
                return int(v[0] != v[0])
            if name == "isinf":
                return int(v[0] in (float("inf"), float("-inf")))
            if name == "tcdf":
                return self._tcdf(v)
            if name == "ncdf":
                return 0.5 * math.erfc(-float(v[0]) / math.sqrt(2))
            if name == "betainc":
                return betainc(*map(float, v))
            if name == "lshift":
                return int(v[0]) << int(v[1])
            if name == "rshift":
                return int(v[0]) >> int(v[1])
            if name in ("bitand", "bitor", "bitxor"):
                return {"bitand": int(v[0]) & int(v[1]), "bitor": int(v[0]) | int(v[1]),
                        "bitxor": int(v[0]) ^ int(v[1])}[name]
            if name == "bitlength":
                return int(v[0]).bit_length()
        except (OverflowError, ValueError, ZeroDivisionError):
            return float("nan")
        raise EvalError(f"function {name}")

    def _tcdf(self, v):
        t, df = v
        if t != t or df != df:
            return float("nan")
        if df <= 0:
            return float("nan")
        if abs(t) == float("inf"):
            return 0.5 * (1 + math.copysign(1, t))
        t, df = float(t), float(df)
        p = 0.5 * betainc(df / 2, 0.5, df / (df + t * t))
        return 1 - p if t > 0 else p


def betainc(a, b, x):
    """Regularised incomplete beta function (continued fraction)."""
    if x <= 0 or x >= 1:
        return 0.0 if x <= 0 else 1.0
    front = math.exp(math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) + a * math.log(x) + b * math.log1p(-x))
    if x > (a + 1) / (a + b + 2):
        return 1 - betainc(b, a, 1 - x)
    tiny = 1e-300
    c, d = 1.0, 1 - (a + b) * x / (a + 1)
    d = 1 / (d if abs(d) > tiny else tiny)
    h = d
    for m in range(1, 3000):
        for num in (m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m)),
                    -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1))):
            d = 1 + num * d
            d = 1 / (d if abs(d) > tiny else tiny)
            c = 1 + num / c
            c = c if abs(c) > tiny else tiny
            h *= d * c
        if abs(d * c - 1) < 1e-15:
            break
    return front * h / a


# ---------------------------------------------------------------- small matrices

LINALG = ("eigw", "eigv", "inv", "chol", "sqrtm")


def _rnd(x, bits):
    """A fraction to the given number of significant bits."""
    if x == 0 or isinstance(x, float):
        return x
    s = bits - (abs(x.numerator).bit_length() - x.denominator.bit_length())
    if s <= 0:
        return Fraction(int(x))
    return Fraction(round(x * (1 << s)), 1 << s)


def jacobi(m, bits):
    """Eigenvalues in ascending order and eigenvectors (columns) of a symmetric matrix; reads the lower triangle."""
    n = len(m)
    bits = bits or 53
    flt = any(isinstance(x, float) for r in m for x in r)
    num = (lambda x: float(x)) if flt else (lambda x: _rnd(Fraction(x), 2 * bits))
    root = math.sqrt if flt else (lambda x: nroot(Fraction(x), 2, 2 * bits) if x else Fraction(0))
    a = [[num(m[max(i, j)][min(i, j)]) for j in range(n)] for i in range(n)]
    v = [[num(int(i == j)) for j in range(n)] for i in range(n)]
    if any(x != x or abs(x) == float("inf") for r in a for x in r):
        raise EvalError("matrix is not finite")
    size = max(abs(x) for r in a for x in r)
    for sweep in range(60):
        off = max([abs(a[i][j]) for i in range(n) for j in range(i)] or [0])
        if off == 0 or off <= size * (Fraction(1, 2 ** (2 * bits - 8)) if not flt else 1e-300):
            break
        for p in range(n):
            for q in range(p + 1, n):
                if a[p][q] == 0:
                    continue
                th = (a[q][q] - a[p][p]) / (2 * a[p][q])
                t = num(1 / (abs(th) + root(th * th + 1)))
                if th < 0:
                    t = -t
                c = num(1 / root(t * t + 1))
                s = num(t * c)
                for k in range(n):
                    x, y = a[k][p], a[k][q]
                    a[k][p], a[k][q] = num(c * x - s * y), num(s * x + c * y)
                for k in range(n):
                    x, y = a[p][k], a[q][k]
                    a[p][k], a[q][k] = num(c * x - s * y), num(s * x + c * y)
                a[p][q] = a[q][p] = num(0)
                for k in range(n):
                    x, y = v[k][p], v[k][q]
                    v[k][p], v[k][q] = num(c * x - s * y), num(s * x + c * y)
    order = sorted(range(n), key=lambda i: a[i][i])
    return [a[i][i] for i in order], [[v[k][i] for i in order] for k in range(n)]


def matinv(m):
    n = len(m)
    a = [[x if isinstance(x, float) else Fraction(x) for x in r] + [int(i == j) for j in range(n)]
         for i, r in enumerate(m)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if a[p][c] == 0:
            raise EvalError("singular matrix")
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def small_matrix(kind, m, bits):
    """Result of a matrix function as a table of rows."""
    n = len(m)
    root = lambda x: math.sqrt(x) if isinstance(x, float) else nroot(Fraction(x), 2, 2 * (bits or 53)) if x else 0
    if kind == "inv":
        return matinv(m)
    if kind == "chol":
        low = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                s = m[i][j] - sum(low[i][k] * low[j][k] for k in range(j))
                if i == j:
                    if s <= 0:
                        raise EvalError("not positive definite")
                    low[i][i] = root(s)
                else:
                    low[i][j] = s / low[j][j]
        return low
    w, v = jacobi(m, bits)
    if kind == "eigw":
        return [w]
    if kind == "eigv":
        return v
    if any(x < 0 for x in w):
        raise EvalError("root of an indefinite matrix")
    return [[sum(v[i][k] * root(w[k]) * v[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
