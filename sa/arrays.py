"""Array semantics: operators, broadcasting, indexing, assignment."""
from __future__ import annotations

from . import terms as tm
from .terms import T
from .values import *

WEAK = {"bool": 0, "int": 1, "float": 2}
FLOATS = ("f8", "f4")
INTS = ("i8", "di", "du", "i2", "u2", "i4", "u4")
NARROW = {"i2": (-4, 8), "u2": (0, 8), "i4": (-100, 200), "u4": (0, 200)}      # scaled down: lowest value and number of values
DATAINT = ("di", "du")

CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}


def is_num(v):
    return isinstance(v, (bool, int, float, SNum))


class ArrayLib:
    # ------------------------------------------------------------ construction
    def scalar(self, t, dt, ns, st, quiet=True):
        if ns == "xp":
            return self.I.new_arr(st, (), (), t, dt, "xp", quiet=quiet)
        return SNum(t, dt, "np")

    def mk(self, st, dims, vars_, body, dt, ns, mask=None, base=None, quiet=False):
        if not dims:
            return self.scalar(body, dt, ns, st)
        if mask is not None:
            r = self.I.new_arr(st, dims, vars_, body, dt, ns, mask=mask, quiet=quiet)
            c = st.heap[r.root]
            st.heap[r.root] = Content(c.dims, c.vars, c.body, c.dt, c.ns, c.mask, base)
            return r
        return self.I.new_arr(st, dims, vars_, body, dt, ns, quiet=quiet)

    def content(self, v, st):
        """Content of an array or a number (0-d)."""
        if isinstance(v, Arr):
            return self.I.read(v, st)
        dt, ns = self.ntype(v)
        return Content((), (), self.term(v), dt, ns)

    def as_arr(self, v, st, ns="np"):
        """Array from an array-like value, else Unknown."""
        if isinstance(v, Arr):
            return v
        if is_num(v):
            dt, n = self.ntype(v)
            return self.I.new_arr(st, (), (), self.term(v), self.strong(dt), ns, quiet=True)
        seq = None
        if isinstance(v, (tuple, SymSeq)) or (isinstance(v, Ref) and v.kind == "list"):
            seq = self.I.iterate(v, st)
        if isinstance(seq, list):
            return self.stack_list(seq, 0, st, ns)
        if isinstance(seq, SymSeq):
            return self.stack_sym(seq, 0, st, ns)
        return Unknown(f"array from {v!r}")

    def strong(self, dt):
        return {"bool": "b1", "int": "i8", "float": "f8"}.get(dt, dt)

    def stack_list(self, items, axis, st, ns):
        if not items:
            v = tm.fresh("i")
            return self.mk(st, (tm.ZERO,), (v,), tm.ZERO, "f8", ns)
        cs = []
        for x in items:
            if isinstance(x, Phi):
                x = self.scalar_of(x, st)
            if isinstance(x, (tuple, SymSeq)) or (isinstance(x, Ref) and x.kind == "list"):
                x = self.as_arr(x, st, ns)
            if not (isinstance(x, Arr) or is_num(x)):
                return Unknown("array of unknown elements")
            c = self.content(x, st)
            if c.mask is not None:
                return Unknown("stack of filtered arrays")
            cs.append(c)
        nd = len(cs[0].dims)
        for c in cs[1:]:
            if len(c.dims) != nd:
                self.I.raise_(st, "ValueError", "inhomogeneous shape")
            for a, b in zip(cs[0].dims, c.dims):
                if a is not b:
                    self.I.may_raise(st, tm.cmp("!=", a, b), "ValueError", "inhomogeneous shape")
        if axis < 0:
            axis += nd + 1
        dt = self.strong(cs[0].dt)
        for c in cs[1:]:
            dt = self.promote(dt, self.strong(c.dt))
        v = tm.fresh("i")
        self.I.bounds[v.a[0]] = (0, len(cs) - 1)
        vs = [tm.fresh("i") for _ in range(nd)]
        body = None
        for k in range(len(cs) - 1, -1, -1):
            b = tm.subst(cs[k].body, {x.a[0]: y for x, y in zip(cs[k].vars, vs)})
            body = b if body is None else tm.ite(tm.cmp("==", v, tm.const(k)), b, body)
        dims = list(cs[0].dims)
        dims.insert(axis, tm.const(len(cs)))
        vs.insert(axis, v)
        return self.mk(st, tuple(dims), tuple(vs), body, dt, ns)

    def stack_sym(self, seq, axis, st, ns):
        x = seq.value
        if isinstance(x, Phi):
            x = self.scalar_of(x, st)
        if isinstance(x, SymSeq):
            x = self.as_arr(x, st, ns)
        if not (isinstance(x, Arr) or is_num(x)):
            return Unknown("array of unknown elements")
        c = self.content(x, st)
        if c.mask is not None:
            return Unknown("stack of filtered arrays")
        nd = len(c.dims)
        if axis < 0:
            axis += nd + 1
        v = tm.fresh("i")
        self.I.bounds[v.a[0]] = (0, self.I.term_bounds(seq.dim)[1])
        body = tm.subst(c.body, {seq.var.a[0]: v})
        dims = [tm.subst(d, {seq.var.a[0]: v}) for d in c.dims]
        dims.insert(axis, seq.dim)
        vs = list(c.vars)
        vs.insert(axis, v)
        return self.mk(st, tuple(dims), tuple(vs), body, self.strong(c.dt), ns)

    # ------------------------------------------------------------ small helpers
    def max0(self, d, st):
        lo, hi = self.I.term_bounds(d)
        if lo >= 0:
            return d
        if hi <= 0:
            return tm.ZERO
        c = tm.cmp("<", d, tm.ZERO)
        x = self.I.decide(c, st)
        if x is False:
            return d
        if x is True:
            return tm.ZERO
        return tm.ite(c, tm.ZERO, d)

    def min_(self, a, b, st):
        c = tm.cmp("<=", a, b)
        d = self.I.decide(c, st)
        return a if d is True else b if d is False else tm.ite(c, a, b)

    def max_(self, a, b, st):
        c = tm.cmp("<=", b, a)
        d = self.I.decide(c, st)
        return a if d is True else b if d is False else tm.ite(c, a, b)

    def c_base(self, c):
        """(dims, vars, mask) to sum a content over."""
        if c.mask is not None:
            return c.vary, c.vars, c.mask
        return c.dims, c.vars, None

    def c_count(self, c):
        if c.mask is not None:
            t = c.mask
            for d, v in reversed(list(zip(c.vary, c.vars))):
                t = tm.sum_(v, d, t)
            return t
        return tm.mul(tm.ONE, *c.dims)

    def c_sum(self, c, k=1):
        t = tm.ipow(c.body, k)
        if c.mask is not None:
            t = tm.ite(c.mask, t, tm.ZERO)
        dims, vs, _ = self.c_base(c)
        for d, v in reversed(list(zip(dims, vs))):
            t = tm.sum_(v, d, t)
        return t

    def promote(self, a, b):
        if a == b:
            return a
        if "obj" in (a, b):
            return "obj"
        wa, wb = a in WEAK, b in WEAK
        if wa and wb:
            return a if WEAK[a] > WEAK[b] else b
        if wa:
            a, b, wa, wb = b, a, wb, wa
        if wb:      # a strong, b weak
            if a in FLOATS:
                return a
            if b == "float":
                return "f8"
            if a == "b1":
                return "b1" if b == "bool" else "i8"
            return a
        if a in FLOATS and b in FLOATS:
            return "f8"
        if a in FLOATS or b in FLOATS:
            f, o = (a, b) if a in FLOATS else (b, a)
            return f if o == "b1" else "f8"
        if a == "b1":
            return b
        if b == "b1":
            return a
        if "di" in (a, b):
            return "di"
        if "du" in (a, b):
            return "du"
        if a in NARROW and b in NARROW:
            return {a: a, b: b}.get("i4", "i4" if a[1] == b[1] == "2" else "i8")
        return "i8"

    def foreign_check(self, what, vals, st):
        for v in vals:
            if isinstance(v, Arr) and st.heap[v.root].ns == "xp":
                self.I.effect("foreign-array", st, what=what)
                return True
            if isinstance(v, (tuple, list)):
                if self.foreign_check(what, v, st):
                    return True
            if isinstance(v, Ref) and v.kind == "list":
                rec = st.objs[v.id]
                if isinstance(rec, list) and self.foreign_check(what, rec, st):
                    return True
                if isinstance(rec, SymSeq) and self.foreign_check(what, [rec.value], st):
                    return True
        return False

    def out_ns(self, vals, st, what):
        """Namespace of an operation's result; mixing libraries is recorded."""
        nss = set()
        for v in vals:
            if isinstance(v, Arr):
                nss.add(st.heap[v.root].ns)
            elif isinstance(v, SNum) and v.ns:
                nss.add(v.ns)
        if len(nss) > 1:
            self.I.effect("foreign-array", st, what=f"{what} mixes array libraries")
            return "np"
        return nss.pop() if nss else None

    # ------------------------------------------------------------ broadcasting
    def bc(self, cs, st):
        """Broadcast contents: (dims, vars, bodies, mask, base) or None."""
        masked = [c for c in cs if c.mask is not None]
        if masked:
            m0 = masked[0]
            bodies = []
            for c in cs:
                if c.mask is None:
                    if c.dims:
                        return None
                    bodies.append(c.body)
                    continue
                ren = {a.a[0]: b for a, b in zip(c.vars, m0.vars)}
                if len(c.vars) != len(m0.vars) or tm.subst(c.mask, ren) is not m0.mask:
                    return None
                bodies.append(tm.subst(c.body, ren))
            return m0.dims, m0.vars, bodies, m0.mask, m0.vary
        nd = max(len(c.dims) for c in cs)
        dims = []
        for k in range(nd):
            d = tm.ONE
            for c in cs:
                j = k - (nd - len(c.dims))
                if j < 0:
                    continue
                e = c.dims[j]
                if e is d or tm.cval(e) == 1:
                    continue
                if tm.cval(d) == 1:
                    d = e
                    continue
                ne = tm.cmp("!=", d, e)
                x = self.I.decide(ne, st)
                if x is False:
                    continue
                d1 = self.I.decide(tm.cmp("==", d, tm.ONE), st)
                e1 = self.I.decide(tm.cmp("==", e, tm.ONE), st)
                if d1 is True:
                    d = e
                    continue
                if e1 is True:
                    continue
                self.I.may_raise(st, ne, "ValueError", "operands could not be broadcast together")
                if tm.cval(e) is not None:
                    d = e
            dims.append(d)
        vs = []
        for d in dims:
            v = tm.fresh("i")
            self.I.bounds[v.a[0]] = (0, max(0, self.I.term_bounds(d)[1] - 1))
            vs.append(v)
        bodies = []
        for c in cs:
            off = nd - len(c.dims)
            m = {}
            for j, (w, e) in enumerate(zip(c.vars, c.dims)):
                m[w.a[0]] = tm.ZERO if tm.cval(e) == 1 else vs[off + j]
            bodies.append(tm.subst(c.body, m))
        return tuple(dims), tuple(vs), bodies, None, None

    def ew(self, vals, f, dt, ns, st, what="operation"):
        """Elementwise f over broadcast operands."""
        cs = [self.content(v, st) for v in vals]
        r = self.bc(cs, st)
        if r is None:
            return Unknown(f"{what} on filtered arrays")
        dims, vs, bodies, mask, base = r
        body = self.wrap(f(*bodies), dt)
        if not dims and ns is None:
            return self.num(body, dt)
        return self.mk(st, dims, vs, body, self.strong(dt) if dims or ns else dt, ns or "np", mask, base)

    # ------------------------------------------------------------ operators
    def unary(self, op, v, st):
        if isinstance(v, (bool, int, float)):
            return {"USub": lambda: -v, "UAdd": lambda: +v, "Invert": lambda: ~v}[op]()
        if isinstance(v, (SNum, Arr)):
            c = self.content(v, st)
            ns = c.ns
            if op == "UAdd":
                return v
            if op == "USub":
                if c.dt in DATAINT:
                    self.I.effect("int-arith", st, op="negation", dt=c.dt)
                dt = "int" if c.dt == "bool" else c.dt
                return self.ew([v], tm.neg, dt, ns, st)
            if op == "Invert":
                if c.dt in ("b1", "bool") and isinstance(v, (Arr,)) or c.dt == "b1":
                    return self.ew([v], tm.not_, c.dt, ns, st)
                return self.ew([v], lambda t: tm.sub(tm.neg(t), tm.ONE), "int" if c.dt == "bool" else c.dt, ns, st)
        if isinstance(v, Unknown):
            return v
        return Unknown(f"unary {op}")

    def arith_term(self, op, a, b, st=None, dt=None):
        if op == "Add":
            return tm.add(a, b)
        if op == "Sub":
            return tm.sub(a, b)
        if op == "Mult":
            return tm.mul(a, b)
        if op == "Div":
            if tm.cval(b) == 0:
                return tm.mul(a, tm.const(float("inf")))
            return tm.div(a, b)
        if op == "Pow":
            return tm.power(a, b)
        if op == "FloorDiv":
            return tm.fn("floordiv", a, b)
        if op == "Mod":
            return tm.fn("mod", a, b)
        raise KeyError(op)

    def binary(self, op, a, b, st):
        I = self.I
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            u = a if isinstance(a, Unknown) else b
            return u
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return self.py_binary(op, a, b, st)
        num_a, num_b = is_num(a), is_num(b)
        arr = isinstance(a, Arr) or isinstance(b, Arr)
        # array-likes
        if isinstance(a, Arr) and not num_b and not isinstance(b, Arr):
            b2 = self.as_arr(b, st, st.heap[a.root].ns) if isinstance(b, (tuple, SymSeq, Ref)) else None
            if isinstance(b2, Arr):
                return self.binary(op, a, b2, st)
        if isinstance(b, Arr) and not num_a and not isinstance(a, Arr):
            a2 = self.as_arr(a, st, st.heap[b.root].ns) if isinstance(a, (tuple, SymSeq, Ref)) else None
            if isinstance(a2, Arr):
                return self.binary(op, a2, b, st)
        if (num_a or isinstance(a, Arr)) and (num_b or isinstance(b, Arr)):
            if op == "MatMult":
                if not arr:
                    I.raise_(st, "ValueError", "matmul of scalars")
                return self.matmul(a, b, st)
            return self.num_binary(op, a, b, st)
        if op == "Add":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return a + b if isinstance(a, str) and isinstance(b, str) else SStr("concat")
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
                la, lb = st.objs[a.id], st.objs[b.id]
                if isinstance(la, list) and isinstance(lb, list):
                    return I.new_list(st, la + lb)
                if isinstance(la, SymSeq) and lb == []:
                    return I.new_obj(st, "list", la)
                if isinstance(lb, SymSeq) and la == []:
                    return I.new_obj(st, "list", lb)
                return I.new_obj(st, "list", Unknown("list concatenation"))
        if op == "Mult":
            for x, k in ((a, b), (b, a)):
                if isinstance(k, int):
                    if isinstance(x, (tuple, str)):
                        return x * k
                    if isinstance(x, Ref) and x.kind == "list" and isinstance(st.objs[x.id], list):
                        return I.new_list(st, st.objs[x.id] * k)
                if isinstance(k, SNum) and isinstance(x, Ref) and x.kind == "list":
                    l = st.objs[x.id]
                    if isinstance(l, list) and len(l) == 1:
                        return I.new_obj(st, "list", SymSeq(tm.fresh("i"), k.t, l[0]))
        if op == "Mod" and isinstance(a, (str, SStr)):
            return SStr("formatted")
        if op in ("BitOr", "BitAnd", "Sub") and isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "set":
            la, lb = st.objs[a.id], st.objs[b.id]
            if isinstance(la, list) and isinstance(lb, list):
                r = {"BitOr": la + [x for x in lb if x not in la], "BitAnd": [x for x in la if x in lb],
                     "Sub": [x for x in la if x not in lb]}[op]
                return I.new_obj(st, "set", r)
        if op == "BitOr" and isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "dict":
            da, db = st.objs[a.id], st.objs[b.id]
            if isinstance(da, dict) and isinstance(db, dict):
                return I.new_obj(st, "dict", {**da, **db})
        if op == "BitOr" and isinstance(a, (Ext, ClassVal, DType)) or a is None or b is None:
            if op == "BitOr":
                return Ext("typing.Union")
            I.raise_(st, "TypeError", "unsupported operand")
        if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
            I.raise_(st, "TypeError", "unsupported operand")
        names = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__"}
        if isinstance(a, Ref) and a.kind == "inst" and op in names:
            m = self.getattr_or(a, names[op], st)
            if m is not MISSING:
                return I.call(m, [b], {}, st)
        return Unknown(f"{op} of {type(a).__name__} and {type(b).__name__}")

    def py_binary(self, op, a, b, st):
        import operator as o
        f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod,
             "Pow": o.pow, "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor, "LShift": o.lshift,
             "RShift": o.rshift}.get(op)
        if f is None:
            self.I.raise_(st, "TypeError", "unsupported operand")
        if op == "Pow" and isinstance(b, int) and abs(b) > 4096:
            return SNum(tm.power(tm.const(a), tm.const(b)), "int")
        if op in ("Div",) and isinstance(a, int) and isinstance(b, int) and b != 0:
            # keep exact rationals such as 1/3 exact
            r = a / b
            from fractions import Fraction
            if Fraction(r) != Fraction(a, b):
                return SNum(tm.const(Fraction(a, b)), "float")
            return r
        try:
            r = f(a, b)
        except (ZeroDivisionError, ValueError, OverflowError, TypeError) as e:
            self.I.raise_(st, type(e).__name__)
        if isinstance(r, complex):
            return Unknown("complex number")
        return r

    def num_binary(self, op, a, b, st):
        I = self.I
        ns = self.out_ns([a, b], st, "an operator")
        da = st.heap[a.root].dt if isinstance(a, Arr) else self.ntype(a)[0]
        db = st.heap[b.root].dt if isinstance(b, Arr) else self.ntype(b)[0]
        if op in ("BitAnd", "BitOr", "BitXor"):
            if da in ("b1", "bool") and db in ("b1", "bool"):
                f = {"BitAnd": lambda x, y: tm.and_(tm.truth(x), tm.truth(y)),
                     "BitOr": lambda x, y: tm.or_(tm.truth(x), tm.truth(y)),
                     "BitXor": lambda x, y: tm.ite(tm.truth(x), tm.not_(tm.truth(y)), tm.truth(y))}[op]
                return self.ew([a, b], f, self.promote(da, db), ns, st)
            nm = {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor"}[op]
            return self.ew([a, b], lambda x, y: tm.fn(nm, x, y), self.promote(da, db), ns, st)
        if op in ("LShift", "RShift"):
            if op == "LShift":
                return self.ew([a, b], lambda x, y: tm.mul(x, tm.power(tm.TWO, y)), self.promote(da, db), ns, st)
            return self.ew([a, b], lambda x, y: tm.fn("floordiv", x, tm.power(tm.TWO, y)),
                           self.promote(da, db), ns, st)
        dt = self.promote(da, db)
        if dt == "obj" and I.exact == "Decimal" and {da, db} & {"float", "f8", "f4"}:
            I.raise_(st, "TypeError", "unsupported operand types: decimal.Decimal and float")
        if da in ("b1", "bool"):
            da2 = "i8" if da == "b1" else "int"
            dt = self.promote(da2, db) if db not in ("b1", "bool") else ("b1" if ns and op in ("Add", "Mult") else
                                                                         "i8" if ns else "int")
        if op == "Div":
            if dt in INTS or dt == "b1":
                dt = "f8"
            elif dt in ("int", "bool"):
                dt = "float"
        elif op == "Pow":
            if not ns and dt == "int":
                bv = tm.cval(self.term(b))
                if bv is not None and bv < 0:
                    dt = "float"
            if dt in INTS and not isinstance(b, Arr) and is_num(b):
                bt = self.term(b)
                if db in ("int", "i8") and tm.cval(bt) is not None and tm.cval(bt) < 0:
                    I.raise_(st, "ValueError", "Integers to negative integer powers")
        if dt in DATAINT and op in ("Add", "Sub", "Mult", "Pow"):
            noop = any(is_num(x) and tm.cval(self.term(x)) == (0 if op in ("Add", "Sub") else 1) for x in (b,))
            if not noop:
                I.effect("int-arith", st, op=op, dt=dt)
        if op in ("Div", "FloorDiv", "Mod") and not ns:
            tb = self.term(b)
            if tm.cval(tb) == 0:
                I.raise_(st, "ZeroDivisionError")
        return self.ew([a, b], lambda x, y: self.arith_term(op, x, y), dt, ns, st)

    def inplace(self, op, cur, rhs, st):
        I = self.I
        if isinstance(cur, Arr) and (isinstance(rhs, Arr) or is_num(rhs)):
            c0 = st.heap[cur.root]
            if self.I.roots.get(cur.root, {}).get("readonly"):
                I.raise_(st, "ValueError", "output array is read-only")
            r = self.binary(op, cur, rhs, st)
            if isinstance(r, Unknown):
                I.write(cur, st, lambda idx, old: I.unk("in-place " + op, *idx))
                return cur
            c = self.content(r, st)
            if self.strong(c.dt) in FLOATS and c0.dt in INTS + ("b1",):
                I.raise_(st, "UFuncTypeError", "cannot cast from float to integer in place")
            if len(c.dims) > len(cur.dims) or any(
                    tm.cval(a) == 1 and tm.cval(b) != 1 for a, b in zip(cur.dims, c.dims)):
                I.raise_(st, "ValueError", "non-broadcastable output operand")
            self.assign_whole(cur, r, st)
            return cur
        if isinstance(cur, Arr) and isinstance(rhs, Unknown):
            I.write(cur, st, lambda idx, old: I.unk("in-place " + op, *idx))
            return cur
        if isinstance(cur, Arr) and isinstance(rhs, (tuple, Ref)):
            r2 = self.as_arr(rhs, st)
            if isinstance(r2, Arr):
                return self.inplace(op, cur, r2, st)
        if isinstance(cur, Ref) and cur.kind == "list" and op == "Add":
            self.m_list(cur, "extend", [rhs], {}, st)
            return cur
        if isinstance(cur, Ref) and cur.kind == "set" and op == "BitOr":
            return self.binary(op, cur, rhs, st)
        return self.binary(op, cur, rhs, st)

    def assign_whole(self, cur, val, st):
        """cur[...] = val, broadcasting."""
        c = self.content(val, st)
        if c.mask is not None:
            self.I.write(cur, st, lambda idx, old: self.I.unk("assignment of a filtered array", *idx))
            return
        if not self.check_fits(cur.dims, c.dims, st):
            return
        dst = st.heap[cur.root].dt

        def w(idx, old):
            off = len(idx) - len(c.dims)
            m = {}
            for j, (v, d) in enumerate(zip(c.vars, c.dims)):
                if off + j >= 0:
                    m[v.a[0]] = tm.ZERO if tm.cval(d) == 1 else idx[off + j]
                else:
                    m[v.a[0]] = tm.ZERO
            return self.cast_term(tm.subst(c.body, m), c.dt, dst, st)
        self.I.write(cur, st, w)

    def check_fits(self, dims, vdims, st):
        off = len(dims) - len(vdims)
        for j, d in enumerate(vdims):
            if tm.cval(d) == 1:
                continue
            if off + j < 0:
                self.I.raise_(st, "ValueError", "could not broadcast")
            e = dims[off + j]
            if e is not d:
                if self.I.decide(tm.cmp("==", d, tm.ONE), st) is True:
                    continue
                self.I.may_raise(st, tm.cmp("!=", e, d), "ValueError", "could not broadcast")
        return True

    def cast_term(self, t, src, dst, st=None):
        if dst in ("b1", "bool"):
            return tm.truth(t) if src not in ("b1", "bool") else t
        if dst in INTS and self.strong(src) in FLOATS + ("obj",):
            if st is not None:
                self.I.effect("trunc", st, src=src, dst=dst)
            return tm.fn("trunc", t)
        if st is not None and src == "obj" and dst in FLOATS + ("float",):
            self.I.effect("precision-loss", st, what="exact numbers converted to floating point")
        if st is not None and dst == "f4" and src == "f8":
            self.I.effect("narrow", st)
        return self.wrap(t, dst)

    def wrap(self, t, dt):
        """Integer types of few bits, scaled down: values wrap around."""
        if self.I.scaled and dt in NARROW and not (t.op == "opq"):
            lo, n = NARROW[dt]
            b = self.I.term_bounds(t)
            if not (lo <= b[0] and b[1] < lo + n):
                return tm.add(tm.fn("mod", tm.sub(t, tm.const(lo)), tm.const(n)), tm.const(lo))
        return t

    # ------------------------------------------------------------ matmul
    def matmul(self, a, b, st, what="matmul"):
        I = self.I
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            I.raise_(st, "ValueError", "matmul: operand is a scalar")
        ns = self.out_ns([a, b], st, what)
        ca, cb = I.read(a, st), I.read(b, st)
        if ca.mask is not None or cb.mask is not None:
            return Unknown("matmul of filtered arrays")
        na, nb = len(ca.dims), len(cb.dims)
        if na == 0 or nb == 0:
            I.raise_(st, "ValueError", "matmul: operand is a scalar")
        if na > 2 or nb > 2:
            return Unknown("batched matmul")
        dt = self.promote(ca.dt, cb.dt)
        if dt in DATAINT:
            I.effect("int-arith", st, op="matmul", dt=dt)
        inner_a = ca.dims[-1]
        inner_b = cb.dims[0]
        if inner_a is not inner_b:
            I.may_raise(st, tm.cmp("!=", inner_a, inner_b), "ValueError", "matmul: mismatch")
        k = tm.fresh("k")
        vs, dims = [], []
        ma = {ca.vars[-1].a[0]: k}
        if na == 2:
            i = tm.fresh("i")
            ma[ca.vars[0].a[0]] = i
            vs.append(i)
            dims.append(ca.dims[0])
        mb = {cb.vars[0].a[0]: k}
        if nb == 2:
            j = tm.fresh("j")
            mb[cb.vars[1].a[0]] = j
            vs.append(j)
            dims.append(cb.dims[1])
        body = tm.sum_(k, inner_a, tm.mul(tm.subst(ca.body, ma), tm.subst(cb.body, mb)))
        return self.mk(st, tuple(dims), tuple(vs), body, dt, ns)

    # ------------------------------------------------------------ comparisons
    def py_eq(self, a, b):
        """Equality of non-array Python values: True, False or None (unknown)."""
        if isinstance(a, (Unknown, SStr)) or isinstance(b, (Unknown, SStr)):
            return None
        if is_num(a) and is_num(b):
            if isinstance(a, SNum) or isinstance(b, SNum):
                c = tm.cmp("==", self.term(a), self.term(b))
                return bool(c.a[0]) if c.op == "c" else None
            return a == b
        if isinstance(a, (str, int, float, type(None), EnumVal, Ext, FuncVal, Ref, ClassVal, DType, ModVal,
                          Compiled, Opaque)) or a is Ellipsis:
            if type(a) is not type(b):
                if isinstance(a, Arr) or isinstance(b, Arr):
                    return None
                return False
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.py_eq(x, y) for x, y in zip(a, b)]
            if False in rs:
                return False
            return None if None in rs else True
        if type(a) is not type(b):
            return False
        try:
            return bool(a == b)
        except Exception:
            return None

    def identical(self, a, b):
        if a is None or b is None:
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                return None
            return a is None and b is None
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return None
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a == b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, SNum) and a.dt == "bool" or isinstance(b, SNum) and b.dt == "bool":
                return None
            return False
        if type(a) is type(b) and isinstance(a, (EnumVal, Ref, Ext, FuncVal, ClassVal, str, int, Opaque, ModVal,
                                                 Compiled, type(Ellipsis))):
            return a == b
        if type(a) is not type(b):
            return False
        return a is b or None

    def compare(self, op, a, b, st):
        I = self.I
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            if r is None:
                if isinstance(a, SNum) and isinstance(b, bool) and a.dt == "bool":
                    c = tm.truth(a.t) if b else tm.not_(tm.truth(a.t))
                    return I.mkbool(c if op == "Is" else tm.not_(c), st)
                return SNum(I.unk("identity test"), "bool")
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            c = self.contains(a, b, st)
            return I.mkbool(c if op == "In" else tm.not_(c), st)
        rel = CMP[op]
        na, nb = is_num(a), is_num(b)
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[rel]
        if isinstance(a, Arr) and isinstance(b, (tuple, SymSeq)) or (
                isinstance(a, Arr) and isinstance(b, Ref) and b.kind == "list"):
            b = self.as_arr(b, st, st.heap[a.root].ns)
            nb = False
        if (na or isinstance(a, Arr)) and (nb or isinstance(b, Arr)):
            ns = self.out_ns([a, b], st, "a comparison")
            if not ns and na and nb:
                return I.mkbool(tm.cmp(rel, self.term(a), self.term(b)), st)
            r = self.ew([a, b], lambda x, y: tm.cmp(rel, x, y), "b1", ns, st)
            if isinstance(r, SNum):
                d = I.decide(I.simp_cond(r.t), st)
                if d is not None:
                    return SNum(tm.const(d), "b1", "np")
            return r
        if isinstance(a, DType) or isinstance(b, DType):
            r = self.dtype_eq(a, b)
            if r is None:
                return SNum(I.unk("dtype comparison"), "bool")
            return r if rel == "==" else not r
        if rel in ("==", "!="):
            if isinstance(a, Unknown) or isinstance(b, Unknown):
                return SNum(I.unk("comparison with unknown"), "bool")
            if isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind and a.kind in ("list", "dict", "set"):
                ra, rb = st.objs[a.id], st.objs[b.id]
                if isinstance(ra, list) and isinstance(rb, list):
                    a, b = tuple(ra), tuple(rb)
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return rel != "=="
                cs = []
                for x, y in zip(a, b):
                    cs.append(I.cond(self.compare("Eq", x, y, st), st))
                c = tm.and_(*cs)
                return I.mkbool(c if rel == "==" else tm.not_(c), st)
            r = self.py_eq(a, b)
            if r is None:
                return SNum(I.unk("comparison"), "bool")
            return r if rel == "==" else not r
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[rel]
        if isinstance(a, tuple) and isinstance(b, tuple):
            return SNum(I.unk("tuple order"), "bool")
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return SNum(I.unk("comparison with unknown"), "bool")
        I.raise_(st, "TypeError", "unorderable")

    def contains(self, x, cont, st):
        I = self.I
        if isinstance(cont, str):
            return tm.const(x in cont) if isinstance(x, str) else I.unk("in")
        items = None
        if isinstance(cont, tuple):
            items = list(cont)
        elif isinstance(cont, Ref):
            rec = st.objs[cont.id]
            if isinstance(rec, (list, dict)):
                items = list(rec)
        elif isinstance(cont, ClassVal) and cont.kind == "enum":
            items = list(cont.members.values())
        if items is None:
            return I.unk("membership")
        cs = []
        for y in items:
            r = self.compare("Eq", x, y, st) if is_num(x) and is_num(y) else self.py_eq(x, y)
            if r is True:
                return tm.ONE
            if r is False:
                continue
            cs.append(I.cond(r, st) if r is not None else I.unk("membership"))
        return tm.or_(*cs) if cs else tm.ZERO

    def hashable(self, k):
        return isinstance(k, (str, int, float, EnumVal, type(None), Ext, FuncVal, ClassVal, bool)) or (
            isinstance(k, tuple) and all(self.hashable(x) for x in k)) or isinstance(k, SNum)
