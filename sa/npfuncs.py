"""NumPy / Array API function table."""
from __future__ import annotations

from . import terms as tm
from .values import *
from .arrays import is_num, INTS, FLOATS, DATAINT, CMP

NP = {}


def np_(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


class Bad(Exception):
    pass


def P(args, kw, names, ok=()):
    """Bind arguments; unsupported keywords make the call unknown."""
    names = names.split()
    p = dict(zip(names, args))
    if len(args) > len(names):
        raise Bad("too many arguments")
    for k, v in kw.items():
        if k not in names and k not in ok:
            raise Bad(f"keyword {k}")
        p[k] = v
    return p


def A(L, v, st, ns):
    """Array or number operand."""
    if isinstance(v, Arr) or is_num(v):
        return v
    if isinstance(v, Phi):
        s = L.scalar_of(v, st)
        if is_num(s):
            return s
    r = L.as_arr(v, st, ns)
    if isinstance(r, Unknown):
        raise Bad(r.reason)
    return r


UFUNC1 = {"abs": tm.absv, "absolute": tm.absv, "fabs": tm.absv, "negative": tm.neg, "positive": lambda t: t,
          "square": lambda t: tm.ipow(t, 2), "sqrt": lambda t: tm.power(t, tm.HALF),
          "floor": lambda t: tm.fn("floor", t), "ceil": lambda t: tm.fn("ceil", t),
          "trunc": lambda t: tm.fn("trunc", t), "rint": lambda t: tm.fn("round", t),
          "log2": lambda t: tm.fn("log2", t), "log": lambda t: tm.fn("log", t), "exp": lambda t: tm.fn("exp", t),
          "isnan": lambda t: tm.cmp("!=", tm.fn("isnan", t), tm.ZERO),
          "isinf": lambda t: tm.cmp("!=", tm.fn("isinf", t), tm.ZERO),
          "isfinite": lambda t: tm.cmp("==", tm.add(tm.fn("isnan", t), tm.fn("isinf", t)), tm.ZERO),
          "logical_not": lambda t: tm.not_(tm.truth(t)), "invert": lambda t: tm.not_(tm.truth(t)),
          "sign": lambda t: tm.ite(tm.cmp("<", tm.ZERO, t), tm.ONE,
                                   tm.ite(tm.cmp("<", t, tm.ZERO), tm.const(-1), t)),
          "reciprocal": lambda t: tm.div(tm.ONE, t), "conj": lambda t: t, "conjugate": lambda t: t,
          "float_power1": None, "log10": lambda t: tm.div(tm.fn("log", t), tm.fn("log", tm.const(10))),
          "log1p": lambda t: tm.fn("log", tm.add(t, tm.ONE)), "expm1": lambda t: tm.sub(tm.fn("exp", t), tm.ONE),
          "cbrt": lambda t: tm.power(t, tm.div(tm.ONE, tm.const(3))),
          "signbit": lambda t: tm.cmp("<", t, tm.ZERO), "nan_to_num": None}
del UFUNC1["float_power1"], UFUNC1["nan_to_num"]
FLOATFN = {"sqrt", "log2", "log", "exp", "log10", "log1p", "expm1", "cbrt", "floor", "ceil", "rint", "trunc",
           "reciprocal"}
BOOLFN = {"isnan", "isinf", "isfinite", "logical_not", "invert", "signbit"}
UFUNC2 = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div",
          "power": "Pow", "pow": "Pow", "float_power": "Pow", "floor_divide": "FloorDiv", "remainder": "Mod",
          "mod": "Mod", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor",
          "left_shift": "LShift", "right_shift": "RShift"}
CMP2 = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt",
        "greater_equal": "GtE"}


class NpFuncs:
    def setup_arrays(self):
        pass

    def call_np(self, head, rest, args, kw, st):
        I = self.I
        if any(isinstance(a, Phi) for a in list(args) + list(kw.values())):
            ks = list(kw)
            n = len(args)
            return I.with_phi(st, list(args) + [kw[k] for k in ks],
                              lambda s, vs: self.call_np(head, rest, vs[:n], dict(zip(ks, vs[n:])), s))
        ns = "xp" if head == "xp" else "np"
        if head != "xp":
            if rest not in ("ndarray", "typing.NDArray", "errstate", "dtype", "shape", "ndim") and self.foreign_check(
                    f"numpy.{rest}", list(args) + list(kw.values()), st):
                # NumPy converts the foreign array
                args = [self.to_np(a, st) for a in args]
                kw = {k: self.to_np(v, st) for k, v in kw.items()}
        else:
            self.xp_check(rest, args, kw, st)
        u = next((a for a in args if isinstance(a, Unknown)), None)
        if u is None:
            for k, v in kw.items():
                if isinstance(v, Unknown):
                    u = v
        try:
            if u is not None and not (rest.startswith("random") or rest in ("errstate",)):
                out = kw.get("out")
                if isinstance(out, Arr):
                    self.setitem(out, Ellipsis, u, st)
                I.havoc_args(args, kw, st)
                return Unknown(f"{rest} of {u.reason}")
            kw = dict(kw)
            out = kw.pop("out", None)
            if isinstance(out, tuple) and len(out) == 1:
                out = out[0]
            if kw.get("where", True) is not True:
                if rest in ("sum", "mean", "any", "all", "max", "min"):
                    raise Bad("where=")
                raise Bad("where=")
            kw.pop("where", None)
            kw.pop("device", None)
            kw.pop("subok", None)
            kw.pop("like", None)
            r = self.np_dispatch(ns, head, rest, args, kw, st, out)
            if out is not None and rest not in ("clip_",) and not (isinstance(r, Arr) and r == out):
                if not isinstance(out, Arr):
                    return Unknown("out=")
                if I.roots.get(out.root, {}).get("readonly"):
                    I.raise_(st, "ValueError", "output array is read-only")
                if isinstance(r, Unknown):
                    self.setitem(out, Ellipsis, r, st)
                    return out
                c = self.content(r, st)
                if self.strong(c.dt) in FLOATS and st.heap[out.root].dt in INTS + ("b1",):
                    I.raise_(st, "UFuncTypeError", "cannot cast output")
                if len(c.dims) != len(out.dims) and len(c.dims) > len(out.dims):
                    I.raise_(st, "ValueError", "non-broadcastable output operand")
                self.assign_whole(out, r, st)
                return out
            return r
        except Bad as e:
            I.effect("unknown-call", st, what=f"{head}.{rest}: {e}", args=args)
            o = kw.get("out")
            if isinstance(o, Arr):
                self.setitem(o, Ellipsis, Unknown(rest), st)
            return Unknown(f"{head}.{rest}: {e}")

    def to_np(self, a, st):
        if isinstance(a, Arr) and st.heap[a.root].ns == "xp":
            c = self.I.read(a, st)
            r = new_id()
            st.heap[r] = Content(c.dims, c.vars, c.body, c.dt, "np", c.mask, c.vary)
            self.I.roots[r] = dict(self.I.roots.get(a.root, {}), kind="fresh")
            return Arr(r, c.dims)
        if isinstance(a, tuple):
            return tuple(self.to_np(x, st) for x in a)
        if isinstance(a, Ref) and a.kind == "list" and isinstance(st.objs[a.id], list):
            return self.I.new_list(st, [self.to_np(x, st) for x in st.objs[a.id]])
        return a

    def xp_check(self, rest, args, kw, st):
        """Uses of the foreign namespace that the Array API standard does not allow."""
        I = self.I
        vals = list(args) + list(kw.values())
        creation = {"asarray", "full", "full_like", "arange", "linspace", "zeros", "ones", "empty", "eye", "clip",
                    "result_type", "can_cast", "isdtype", "finfo", "iinfo", "where"}
        if rest not in creation and args and is_num(args[0]):
            I.effect("nonstandard", st, what=f"xp.{rest} of a Python number")
        if args and isinstance(args[0], Arr) and st.heap[args[0].root].ns != "xp" and rest != "asarray":
            I.effect("foreign-array", st, what=f"xp.{rest} of a NumPy array")
        if args and isinstance(args[0], (tuple, Ref)) and rest not in (
                "asarray", "stack", "concat", "zeros", "ones", "full", "empty", "meshgrid", "result_type"):
            I.effect("nonstandard", st, what=f"xp.{rest} of a Python sequence")
        if rest == "reshape":
            sh = args[1] if len(args) > 1 else kw.get("shape")
            if not isinstance(sh, tuple):
                I.effect("nonstandard", st, what="xp.reshape with a shape that is not a tuple")
        for k in kw:
            if k in ("out", "where"):
                I.effect("nonstandard", st, what=f"xp.{rest} with keyword {k}")

    # ------------------------------------------------------------ dispatch
    def np_unary(self, name, v, st):
        return self.call_np("numpy", name, [v], {}, st)

    def np_dispatch(self, ns, head, rest, args, kw, st, out):
        I = self.I
        if rest in UFUNC1:
            p = P(args, kw, "x out", ("dtype", "casting"))
            x = A(self, p["x"], st, ns)
            return self.ufunc1(rest, x, ns, st, self.dtarg(p.get("dtype"), st))
        if rest in UFUNC2:
            p = P(args, kw, "x y out", ("dtype", "casting"))
            if "out" in p and out is None and isinstance(p["out"], Arr):
                kw["out"] = p["out"]
                r = self.np_dispatch(ns, head, rest, [p["x"], p["y"]], {}, st, None)
                self.assign_whole(p["out"], r, st)
                return p["out"]
            x, y = A(self, p["x"], st, ns), A(self, p["y"], st, ns)
            if rest == "float_power":
                x = self.binary("Mult", x, 1.0, st)
            r = self.np_binary(UFUNC2[rest], x, y, ns, st)
            d = self.dtarg(p.get("dtype"), st)
            if d is not None and (isinstance(r, Arr) or is_num(r)):
                r = self.cast(r, d, st, copy=False)
            return r
        if rest in CMP2:
            p = P(args, kw, "x y")
            x, y = A(self, p["x"], st, ns), A(self, p["y"], st, ns)
            r = self.compare(CMP2[rest], x, y, st)
            return SNum(tm.const(r), "b1", "np") if isinstance(r, bool) else r
        if rest in ("maximum", "minimum", "fmax", "fmin"):
            p = P(args, kw, "x y")
            x, y = A(self, p["x"], st, ns), A(self, p["y"], st, ns)
            mx = rest in ("maximum", "fmax")
            dt = self.promote(self.content(x, st).dt, self.content(y, st).dt)
            return self.ew([x, y], lambda a, b: tm.ite(tm.cmp("<" if mx else ">", a, b), b, a), dt, ns, st)
        if rest in ("logical_and", "logical_or", "logical_xor"):
            p = P(args, kw, "x y")
            x, y = A(self, p["x"], st, ns), A(self, p["y"], st, ns)
            f = {"logical_and": lambda a, b: tm.and_(tm.truth(a), tm.truth(b)),
                 "logical_or": lambda a, b: tm.or_(tm.truth(a), tm.truth(b)),
                 "logical_xor": lambda a, b: tm.ite(tm.truth(a), tm.not_(tm.truth(b)), tm.truth(b))}[rest]
            return self.ew([x, y], f, "b1", ns, st)
        if "." in rest:
            base, _, m = rest.partition(".")
            if base in UFUNC2 and m in ("reduce", "outer", "accumulate", "at"):
                return self.ufunc_method(base, m, args, kw, st, ns)
        f = NP.get(rest)
        if f is None:
            I.effect("unknown-call", st, what=f"{head}.{rest}", args=args)
            I.havoc_args(args, kw, st)
            return Unknown(f"{head}.{rest}")
        return f(self, ns, args, kw, st)

    def np_binary(self, op, x, y, ns, st):
        if is_num(x) and is_num(y):
            if not (isinstance(x, SNum) and x.ns) and not (isinstance(y, SNum) and y.ns):
                dt, _ = self.ntype(x)
                x = SNum(self.term(x), self.strong(dt), "np")
        return self.binary(op, x, y, st)

    def ufunc1(self, name, x, ns, st, dtype=None):
        I = self.I
        c = self.content(x, st)
        dt = self.strong(c.dt)
        if dt == "obj" and name in ("sqrt", "log2", "log", "exp", "isnan", "isinf", "isfinite", "log10", "floor",
                                    "ceil", "rint", "trunc", "sign"):
            if name not in ("floor", "ceil", "trunc", "sign") and not (name == "sqrt" and I.exact == "Decimal"):
                I.raise_(st, "TypeError", f"ufunc {name} not supported for object arrays")
        if dt == "c16":
            raise Bad("complex")
        if name in BOOLFN:
            rdt = "b1" if dt in ("b1",) or name != "invert" else dt
            if name == "invert" and dt != "b1":
                return self.ew([x], lambda t: tm.sub(tm.neg(t), tm.ONE), dt, ns, st)
        elif name in FLOATFN:
            rdt = dt if dt in FLOATS + ("obj",) else "f8"
            if ns == "xp" and dt in INTS and name in ("floor", "ceil", "trunc"):
                rdt = dt
        elif name in ("abs", "absolute", "negative", "square") and dt in DATAINT:
            if name in ("square", "negative"):
                I.effect("int-arith", st, op=name, dt=dt)
            rdt = dt
        else:
            rdt = dt
        return self.ew([x], UFUNC1[name], dtype or rdt, ns, st)

    def ufunc_method(self, base, m, args, kw, st, ns):
        if m == "outer":
            a, b = A(self, args[0], st, ns), A(self, args[1], st, ns)
            if is_num(a) or is_num(b):
                return self.binary(UFUNC2[base], a, b, st)
            a2 = self.expand_dims(a, tuple(range(len(a.dims), len(a.dims) + len(b.dims))), st)
            return self.binary(UFUNC2[base], a2, b, st)
        if m == "reduce" and base in ("add", "multiply"):
            p = P(args, kw, "a axis dtype out keepdims")
            f = self.r_sum if base == "add" else self.r_prod
            return f(A(self, p["a"], st, ns), p.get("axis", 0), p.get("keepdims", False) is True, st)
        if m == "accumulate" and base == "add":
            p = P(args, kw, "a axis")
            return self.cumsum(A(self, p["a"], st, ns), p.get("axis", 0), st)
        if m == "at" and base in ("add", "subtract") and isinstance(args[0], Arr):
            return self.add_at(args[0], args[1], args[2], st, base == "subtract")
        raise Bad(f"ufunc method {m}")

    def add_at(self, a, idx, v, st, neg):
        idx = self.as_arr(idx, st) if not isinstance(idx, Arr) else idx
        if not isinstance(idx, Arr) or len(idx.dims) != 1 or len(a.dims) != 1:
            raise Bad("add.at")
        ci, cv = self.content(idx, st), self.content(A(self, v, st, "np"), st)
        if ci.mask is not None or cv.mask is not None or len(cv.dims) > 1:
            raise Bad("add.at")
        q = tm.fresh("q")
        it = tm.subst(ci.body, {ci.vars[0].a[0]: q})
        it = self.norm_index(it, a.dims[0], st, True)
        val = tm.subst(cv.body, {x.a[0]: (tm.ZERO if tm.cval(d) == 1 else q) for x, d in zip(cv.vars, cv.dims)})
        if neg:
            val = tm.neg(val)

        def w(ix, old):
            return tm.add(old, tm.sum_(q, ci.dims[0], tm.ite(tm.cmp("==", it, ix[0]), val, tm.ZERO)))
        self.I.write(a, st, w)
        return None


# -------------------------------------------------------------------- creation

@np_("asarray", "array", "asanyarray", "ascontiguousarray", "asfortranarray", "require")
def _asarray(L, ns, args, kw, st):
    raise NotImplementedError


def _mk_as(name):
    def f(L, ns, args, kw, st):
        p = P(args, kw, "a dtype" if name != "array" else "a dtype", ("copy", "order", "ndmin", "requirements"))
        a = p["a"]
        dt = None
        if p.get("dtype") is not None:
            dt = L.dtarg(p["dtype"], st)
            if dt is None:
                raise Bad("dtype")
        nd = p.get("ndmin", 0)
        copy = p.get("copy", name == "array")
        if isinstance(a, Arr):
            c = st.heap[a.root]
            if c.ns != ns and ns == "xp":
                a = L.I.new_arr(st, *(lambda cc: (cc.dims, cc.vars, cc.body, cc.dt, "xp"))(L.I.read(a, st)))
                return L.cast(a, dt, st, copy=False) if dt else a
            if name == "ascontiguousarray" and not L.is_contig(a, st):
                copy = True
            if name == "asfortranarray":
                raise Bad("Fortran order")
            if copy is True:
                r = L.copy_arr(a, st, dt)
                if dt == "f8" and c.dt == "obj":
                    L.I.effect("precision-loss", st, what="exact numbers converted to floating point")
            else:
                r = L.cast(a, dt, st, copy=False) if dt else a
            while nd and len(r.dims) < nd:
                r = L.expand_dims(r, 0, st)
            return r
        if is_num(a):
            if ns == "np" and dt is None and not nd:
                d0, n0 = L.ntype(a)
                dt = L.strong(d0)
            d0, _ = L.ntype(a)
            t = L.cast_term(L.term(a), d0, dt, st) if dt else L.term(a)
            r = L.I.new_arr(st, (), (), t, dt or L.strong(d0), ns, quiet=True)
            while nd and len(r.dims) < nd:
                r = L.expand_dims(r, 0, st)
            return r
        if a is None or isinstance(a, (str, SStr)):
            raise Bad("array of an object")
        r = L.as_arr(a, st, ns)
        if isinstance(r, Unknown):
            raise Bad(r.reason)
        return L.cast(r, dt, st, copy=False) if dt else r
    return f


for _n in ("asarray", "array", "asanyarray", "ascontiguousarray", "asfortranarray"):
    NP[_n] = _mk_as(_n)
NP["ascontiguousarray"] = (lambda f: lambda L, ns, args, kw, st: _min1(L, f(L, ns, args, kw, st), st))(
    NP["ascontiguousarray"])
del NP["require"]


def _min1(L, r, st):
    return L.expand_dims(r, 0, st) if isinstance(r, Arr) and not r.dims else r


def _filled(val):
    def f(L, ns, args, kw, st):
        p = P(args, kw, "shape dtype" if val is not None else "shape fill_value dtype", ("order",))
        dims = L.shape_terms(p["shape"], st)
        if dims is None:
            raise Bad("shape")
        return _fill(L, dims, p, val, "f8", ns, st)
    return f


def _fill(L, dims, p, val, dt0, ns, st):
    for d in dims:
        L.I.may_raise(st, tm.cmp("<", d, tm.ZERO), "ValueError", "negative dimensions are not allowed")
    dt = dt0
    if p.get("dtype") is not None:
        dt = L.dtarg(p["dtype"], st)
        if dt is None:
            raise Bad("dtype")
    vs = tuple(tm.fresh("i") for _ in dims)
    for v, d in zip(vs, dims):
        L.I.bounds[v.a[0]] = (0, L.I.term_bounds(d)[1])
    if val == "empty":
        L.I.site_n += 1
        loc = L.I.loc()
        body = tm.uninit(f"{loc[0]}:{loc[2]}#{L.I.site_n}", *vs)
    elif val is None:
        fv = L.scalar_of(p["fill_value"], st)
        if not is_num(fv):
            raise Bad("fill_value")
        if p.get("dtype") is None and dt0 == "f8":
            dt = L.strong(L.ntype(fv)[0])
        body = L.cast_term(L.term(fv), L.ntype(fv)[0], dt, st)
    else:
        body = tm.const(val)
    return L.I.new_arr(st, dims, vs, body, dt, ns)


NP["zeros"], NP["ones"], NP["empty"], NP["full"] = _filled(0), _filled(1), _filled("empty"), _filled(None)


def _filled_like(val):
    def f(L, ns, args, kw, st):
        p = P(args, kw, "a dtype" if val is not None else "a fill_value dtype", ("order", "shape", "subok"))
        a = A(L, p["a"], st, ns)
        c = L.content(a, st)
        dims = c.dims
        if p.get("shape") is not None:
            dims = L.shape_terms(p["shape"], st)
            if dims is None:
                raise Bad("shape")
        if c.mask is not None:
            raise Bad("filtered array")
        return _fill(L, dims, p, val, L.strong(c.dt) if val is not None or True else "f8", ns, st)
    return f


NP["zeros_like"], NP["ones_like"] = _filled_like(0), _filled_like(1)
NP["empty_like"], NP["full_like"] = _filled_like("empty"), _filled_like(None)


@np_("eye", "identity")
def _eye(L, ns, args, kw, st):
    p = P(args, kw, "N M k dtype")
    n = L.term(L.scalar_of(p["N"], st))
    m = L.term(p["M"]) if p.get("M") is not None else n
    k = L.term(p.get("k", 0))
    i, j = tm.fresh("i"), tm.fresh("j")
    dt = L.dtarg(p["dtype"], st) if p.get("dtype") is not None else "f8"
    return L.I.new_arr(st, (n, m), (i, j), tm.cmp("==", tm.add(i, k), j), dt, ns)


@np_("arange")
def _arange(L, ns, args, kw, st):
    p = P(args, kw, "start stop step dtype")
    dt = L.dtarg(p["dtype"], st) if p.get("dtype") is not None else None
    a, b, s = p.get("start"), p.get("stop"), p.get("step", 1)
    if b is None:
        a, b = 0, a
    a, b, s = (L.scalar_of(x, st) for x in (a, b, s))
    if not all(is_num(x) for x in (a, b, s)):
        raise Bad("arange")
    fl = any(L.strong(L.ntype(x)[0]) in FLOATS for x in (a, b, s))
    ta, tb, ts = L.term(a), L.term(b), L.term(s)
    d = tm.sub(tb, ta)
    sv = tm.cval(ts)
    if sv is None or sv == 0:
        raise Bad("arange step")
    d = tm.scale(tm.Fraction(1) / tm.Fraction(sv), d) if sv != 1 else d
    if not tm.is_int_term(d):
        d = tm.fn("ceil", d)
    d = L.max0(d, st)
    v = tm.fresh("i")
    L.I.bounds[v.a[0]] = (0, L.I.term_bounds(d)[1])
    return L.I.new_arr(st, (d,), (v,), tm.add(ta, tm.mul(ts, v)), dt or ("f8" if fl else "i8"), ns)


@np_("linspace")
def _linspace(L, ns, args, kw, st):
    p = P(args, kw, "start stop num")
    a, b, n = (L.scalar_of(x, st) for x in (p["start"], p["stop"], p.get("num", 50)))
    v = tm.fresh("i")
    tn = L.term(n)
    body = tm.add(L.term(a), tm.mul(v, tm.div(tm.sub(L.term(b), L.term(a)), tm.sub(tn, tm.ONE))))
    return L.I.new_arr(st, (tn,), (v,), body, "f8", ns)


@np_("copy")
def _copy(L, ns, args, kw, st):
    return L.copy_arr(A(L, args[0], st, ns), st)


@np_("astype")
def _astype(L, ns, args, kw, st):
    p = P(args, kw, "x dtype", ("copy",))
    return L.cast(A(L, p["x"], st, ns), L.dtarg(p["dtype"], st), st, copy=p.get("copy", True) is not False)


# -------------------------------------------------------------------- shape

@np_("reshape")
def _reshape(L, ns, args, kw, st):
    p = P(args, kw, "a shape order", ("copy", "newshape"))
    if p.get("order", "C") != "C":
        raise Bad("order")
    return L.reshape(A(L, p["a"], st, ns), p.get("shape", p.get("newshape")), st)


@np_("ravel")
def _ravel(L, ns, args, kw, st):
    return L.reshape(A(L, args[0], st, ns), (-1,), st)


@np_("expand_dims")
def _expand(L, ns, args, kw, st):
    p = P(args, kw, "a axis")
    return L.expand_dims(A(L, p["a"], st, ns), p.get("axis", 0), st)


@np_("squeeze")
def _squeeze(L, ns, args, kw, st):
    p = P(args, kw, "a axis")
    return L.squeeze(A(L, p["a"], st, ns), p.get("axis"), st)


@np_("transpose", "permute_dims")
def _transpose(L, ns, args, kw, st):
    p = P(args, kw, "a axes")
    return L.transpose(A(L, p["a"], st, ns), p.get("axes"), st)


@np_("matrix_transpose")
def _mt(L, ns, args, kw, st):
    a = A(L, args[0], st, ns)
    nd = len(a.dims)
    return L.transpose(a, tuple(range(nd - 2)) + (nd - 1, nd - 2), st)


@np_("swapaxes")
def _swap(L, ns, args, kw, st):
    return L.array_method(A(L, args[0], st, ns), "swapaxes", args[1:], kw, st)


@np_("moveaxis")
def _moveaxis(L, ns, args, kw, st):
    a, s, d = args
    nd = len(a.dims)
    s, d = s % nd, d % nd
    order = [k for k in range(nd) if k != s]
    order.insert(d, s)
    return L.transpose(a, tuple(order), st)


@np_("broadcast_to")
def _bto(L, ns, args, kw, st):
    p = P(args, kw, "a shape")
    return L.broadcast_to(A(L, p["a"], st, ns), p["shape"], st)


@np_("broadcast_arrays")
def _barr(L, ns, args, kw, st):
    cs = [L.content(A(L, a, st, ns), st) for a in args]
    b = L.bc(cs, st)
    if b is None:
        raise Bad("filtered arrays")
    return L.I.new_list(st, [L.mk(st, b[0], b[1], t, L.strong(c.dt), ns) for t, c in zip(b[2], cs)])


@np_("atleast_1d", "atleast_2d")
def _atleast(L, ns, args, kw, st):
    raise Bad("atleast")


def _al(k):
    def f(L, ns, args, kw, st):
        if len(args) != 1:
            raise Bad("several arrays")
        a = A(L, args[0], st, ns)
        if is_num(a):
            return L.as_arr_dims(a, k, st)
        while len(a.dims) < k:
            a = L.expand_dims(a, 0, st)
        return a
    return f


NP["atleast_1d"], NP["atleast_2d"] = _al(1), _al(2)


@np_("shape")
def _shape(L, ns, args, kw, st):
    return L.array_attr(A(L, args[0], st, ns), "shape", st) if not is_num(args[0]) else ()


@np_("ndim")
def _ndim(L, ns, args, kw, st):
    a = A(L, args[0], st, ns)
    return len(a.dims) if isinstance(a, Arr) else 0


@np_("size")
def _size(L, ns, args, kw, st):
    a = A(L, args[0], st, ns)
    if len(args) > 1 or kw:
        ax = args[1] if len(args) > 1 else kw["axis"]
        return L.dimval(a.dims[ax])
    return L.array_attr(a, "size", st) if isinstance(a, Arr) else 1


@np_("flip", "flipud", "fliplr")
def _flip(L, ns, args, kw, st):
    p = P(args, kw, "a axis")
    a = A(L, p["a"], st, ns)
    ax = L.norm_axes(p.get("axis"), len(a.dims), st)
    sl = tuple(Slice(None, None, -1) if k in ax else Slice(None, None, None) for k in range(len(a.dims)))
    return L.getitem(a, sl, st)


@np_("roll")
def _roll(L, ns, args, kw, st):
    p = P(args, kw, "a shift axis")
    a = A(L, p["a"], st, ns)
    c = L.content(a, st)
    if c.mask is not None or (p.get("axis") is None and len(c.dims) != 1):
        raise Bad("roll")
    k = L.norm_axes(p.get("axis") if p.get("axis") is not None else 0, len(c.dims), st)[0]
    v = c.vars[k]
    t = tm.fn("mod", tm.sub(v, L.term(p["shift"])), c.dims[k])
    return L.mk(st, c.dims, c.vars, tm.subst(c.body, {v.a[0]: t}), c.dt, c.ns)


@np_("tile")
def _tile(L, ns, args, kw, st):
    p = P(args, kw, "a reps")
    a = A(L, p["a"], st, ns)
    reps = L.shape_terms(p["reps"], st)
    if reps is None or is_num(a):
        raise Bad("tile")
    while len(a.dims) < len(reps):
        a = L.expand_dims(a, 0, st)
    reps = (tm.ONE,) * (len(a.dims) - len(reps)) + tuple(reps)
    c = L.content(a, st)
    m = {v.a[0]: (v if tm.cval(r) == 1 else tm.fn("mod", v, d) if tm.cval(d) != 1 else tm.ZERO)
         for v, d, r in zip(c.vars, c.dims, reps)}
    return L.mk(st, tuple(tm.mul(d, r) for d, r in zip(c.dims, reps)), c.vars, tm.subst(c.body, m), c.dt, c.ns)


@np_("repeat")
def _repeat(L, ns, args, kw, st):
    p = P(args, kw, "a repeats axis")
    a = A(L, p["a"], st, ns)
    if not is_num(p["repeats"]):
        raise Bad("repeats")
    if p.get("axis") is None:
        a = L.reshape(a, (-1,), st)
    k = L.norm_axes(p.get("axis") or 0, len(a.dims), st)[0]
    c = L.content(a, st)
    r = L.term(p["repeats"])
    v = c.vars[k]
    dims = list(c.dims)
    dims[k] = tm.mul(dims[k], r)
    return L.mk(st, tuple(dims), c.vars, tm.subst(c.body, {v.a[0]: tm.fn("floordiv", v, r)}), c.dt, c.ns)


def _arrlist(L, v, st, ns):
    seq = L.I.iterate(v, st)
    if isinstance(seq, SymSeq):
        return seq
    if not isinstance(seq, list):
        raise Bad("sequence of arrays")
    return [A(L, x, st, ns) for x in seq]


@np_("stack")
def _stack(L, ns, args, kw, st):
    p = P(args, kw, "arrays axis")
    seq = _arrlist(L, p["arrays"], st, ns)
    ax = p.get("axis", 0)
    if isinstance(seq, SymSeq):
        r = L.stack_sym(seq, ax, st, ns)
    else:
        if not seq:
            L.I.raise_(st, "ValueError", "need at least one array to stack")
        if any(is_num(x) for x in seq) and ns == "xp":
            L.I.effect("nonstandard", st, what="xp.stack of Python numbers")
        r = L.stack_list(seq, ax, st, ns)
    if isinstance(r, Unknown):
        raise Bad(r.reason)
    return r


@np_("concatenate", "concat")
def _concat(L, ns, args, kw, st):
    p = P(args, kw, "arrays axis")
    seq = _arrlist(L, p["arrays"], st, ns)
    if isinstance(seq, SymSeq):
        raise Bad("concatenation of a symbolic number of arrays")
    ax = p.get("axis", 0)
    if ax is None:
        seq = [L.reshape(x, (-1,), st) for x in seq]
        ax = 0
    return L.concat(seq, ax, st, ns)


@np_("vstack", "row_stack")
def _vstack(L, ns, args, kw, st):
    seq = _arrlist(L, args[0], st, ns)
    if isinstance(seq, SymSeq):
        raise Bad("vstack")
    return L.concat([NP["atleast_2d"](L, ns, [x], {}, st) for x in seq], 0, st, ns)


@np_("hstack")
def _hstack(L, ns, args, kw, st):
    seq = _arrlist(L, args[0], st, ns)
    if isinstance(seq, SymSeq):
        raise Bad("hstack")
    seq = [NP["atleast_1d"](L, ns, [x], {}, st) for x in seq]
    return L.concat(seq, 0 if len(seq[0].dims) == 1 else 1, st, ns)


@np_("column_stack")
def _colstack(L, ns, args, kw, st):
    seq = _arrlist(L, args[0], st, ns)
    if isinstance(seq, SymSeq):
        raise Bad("column_stack")
    if all(isinstance(x, Arr) and len(x.dims) == 1 for x in seq):
        return L.stack_list(seq, 1, st, ns)
    seq = [L.expand_dims(x, 1, st) if len(x.dims) == 1 else x for x in seq]
    return L.concat(seq, 1, st, ns)


@np_("unstack")
def _unstack(L, ns, args, kw, st):
    seq = L.I.iterate(args[0], st)
    return tuple(seq) if isinstance(seq, list) else seq


@np_("split", "array_split")
def _split(L, ns, args, kw, st):
    p = P(args, kw, "a idx axis")
    a, idx = p["a"], p["idx"]
    ax = p.get("axis", 0)
    seq = L.I.iterate(idx, st) if not is_num(idx) else None
    if not isinstance(seq, list):
        raise Bad("split")
    out, lo = [], None
    for b in seq + [None]:
        sl = [Slice(None, None, None)] * len(a.dims)
        sl[ax] = Slice(lo, b, None)
        out.append(L.getitem(a, tuple(sl), st))
        lo = b
    return L.I.new_list(st, out)


@np_("meshgrid")
def _mesh(L, ns, args, kw, st):
    ij = kw.get("indexing", "xy") == "ij"
    if len(args) != 2:
        raise Bad("meshgrid")
    cs = [L.content(A(L, a, st, ns), st) for a in args]
    i, j = tm.fresh("i"), tm.fresh("j")
    order = (0, 1) if ij else (1, 0)
    vs = {order[0]: i, order[1]: j}
    dims = tuple(cs[k].dims[0] for k in order)
    return L.I.new_list(st, [L.mk(st, dims, (i, j), tm.subst(cs[k].body, {cs[k].vars[0].a[0]: vs[k]}), cs[k].dt, ns)
                             for k in (0, 1)])


@np_("ix_")
def _ix(L, ns, args, kw, st):
    n = len(args)
    out = []
    for k, a in enumerate(args):
        a = A(L, a, st, ns)
        for q in range(n):
            if q != k:
                a = L.expand_dims(a, q, st)
        out.append(a)
    return tuple(out)


# -------------------------------------------------------------------- reductions

def _red(fn):
    def f(L, ns, args, kw, st):
        p = P(args, kw, "a axis", ("keepdims", "dtype"))
        return fn(L, A(L, p["a"], st, ns), p.get("axis"), p.get("keepdims", False) is True, st)
    return f


@np_("sum")
def _sum(L, ns, args, kw, st):
    p = P(args, kw, "a axis dtype out keepdims", ("initial",))
    d = L.dtarg(p["dtype"], st) if p.get("dtype") is not None else None
    a = p["a"]
    if isinstance(a, Ref) and a.kind == "gen":
        return L.b_sum([a], {}, st)
    r = L.r_sum(A(L, a, st, ns), p.get("axis"), p.get("keepdims", False) is True, st, d)
    if p.get("initial") is not None:
        r = L.binary("Add", r, p["initial"], st)
    return r


@np_("mean", "average", "nanmean")
def _mean(L, ns, args, kw, st):
    p = P(args, kw, "a axis dtype out keepdims")
    r = L.r_mean(A(L, p["a"], st, ns), p.get("axis"), p.get("keepdims", False) is True, st)
    if p.get("dtype") is not None:
        r = L.cast(r, L.dtarg(p["dtype"], st), st, copy=False)
    return r


@np_("var", "std")
def _var(L, ns, args, kw, st):
    raise Bad("var")


def _mkvar(root):
    def f(L, ns, args, kw, st):
        p = P(args, kw, "a axis dtype out ddof keepdims", ("correction",))
        dd = p.get("ddof", p.get("correction", 0))
        return L.r_var(A(L, p["a"], st, ns), p.get("axis"), dd, p.get("keepdims", False) is True, st, root)
    return f


NP["var"], NP["std"] = _mkvar(False), _mkvar(True)
NP["max"] = NP["amax"] = _red(lambda L, a, ax, kd, st: L.r_ext("amax", a, ax, kd, st))
NP["min"] = NP["amin"] = _red(lambda L, a, ax, kd, st: L.r_ext("amin", a, ax, kd, st))
NP["any"] = _red(lambda L, a, ax, kd, st: L.r_any(a, ax, kd, st, False))
NP["all"] = _red(lambda L, a, ax, kd, st: L.r_any(a, ax, kd, st, True))
NP["prod"] = _red(lambda L, a, ax, kd, st: L.r_prod(a, ax, kd, st))


@np_("count_nonzero")
def _cnz(L, ns, args, kw, st):
    p = P(args, kw, "a axis", ("keepdims",))
    a = A(L, p["a"], st, ns)
    return L.reduce(a, p.get("axis"), p.get("keepdims", False) is True, st,
                    lambda b, vds, m: L.t_sum(tm.truth(b), vds, m), "i8", "count_nonzero")


@np_("cumsum")
def _cumsum(L, ns, args, kw, st):
    p = P(args, kw, "a axis dtype")
    return L.cumsum(A(L, p["a"], st, ns), p.get("axis"), st)


@np_("cumulative_sum")
def _cumulative(L, ns, args, kw, st):
    p = P(args, kw, "a", ("axis", "dtype"))
    return L.cumsum(A(L, p["a"], st, ns), p.get("axis"), st)


@np_("argsort")
def _argsort(L, ns, args, kw, st):
    p = P(args, kw, "a axis kind order", ("descending", "stable"))
    return L.argsort_arr(A(L, p["a"], st, ns), p.get("axis", -1), st, p.get("descending", False) is True)


@np_("sort")
def _sort(L, ns, args, kw, st):
    p = P(args, kw, "a axis kind order", ("descending", "stable"))
    return L.sort_arr(A(L, p["a"], st, ns), p.get("axis", -1), st, p.get("descending", False) is True)


@np_("take")
def _take(L, ns, args, kw, st):
    p = P(args, kw, "a indices axis", ("mode",))
    return L.take(A(L, p["a"], st, ns), p["indices"], p.get("axis"), st)


@np_("where")
def _where(L, ns, args, kw, st):
    if len(args) != 3:
        raise Bad("where")
    c, a, b = (A(L, x, st, ns) for x in args)
    dt = L.promote(L.content(a, st).dt, L.content(b, st).dt)
    return L.ew([c, a, b], lambda x, y, z: tm.ite(tm.truth(x), y, z), dt, ns, st)


@np_("clip")
def _clip(L, ns, args, kw, st):
    p = P(args, kw, "a min max", ("a_min", "a_max"))
    a = A(L, p["a"], st, ns)
    lo, hi = p.get("min", p.get("a_min")), p.get("max", p.get("a_max"))
    dt = L.strong(L.content(a, st).dt)
    if lo is not None:
        lo = A(L, lo, st, ns)
        dt = L.promote(dt, L.content(lo, st).dt)
        a = L.ew([a, lo], lambda x, y: tm.ite(tm.cmp("<", x, y), y, x), dt, ns, st)
    if hi is not None:
        hi = A(L, hi, st, ns)
        dt = L.promote(dt, L.content(hi, st).dt)
        a = L.ew([a, hi], lambda x, y: tm.ite(tm.cmp(">", x, y), y, x), dt, ns, st)
    return a


@np_("argmax", "argmin")
def _argmax(L, ns, args, kw, st):
    raise Bad("argmax")


@np_("triu", "tril")
def _tri(L, ns, args, kw, st):
    raise Bad("tri")


def _mktri(up):
    def f(L, ns, args, kw, st):
        p = P(args, kw, "a k")
        a = A(L, p["a"], st, ns)
        c = L.content(a, st)
        if c.mask is not None or len(c.dims) != 2:
            raise Bad("tri")
        k = L.term(p.get("k", 0))
        i, j = c.vars
        cond = tm.cmp("<=", tm.add(i, k), j) if up else tm.cmp("<=", j, tm.add(i, k))
        return L.mk(st, c.dims, c.vars, tm.ite(cond, c.body, tm.ZERO), c.dt, c.ns)
    return f


NP["triu"], NP["tril"] = _mktri(True), _mktri(False)


@np_("triu_indices", "triu_indices_from", "tril_indices", "tril_indices_from")
def _triidx(L, ns, args, kw, st):
    raise Bad("tri indices")


@np_("trace")
def _trace(L, ns, args, kw, st):
    p = P(args, kw, "a", ())
    c = L.content(A(L, p["a"], st, ns), st)
    if len(c.dims) != 2:
        raise Bad("trace")
    k = tm.fresh("k")
    d = L.min_(c.dims[0], c.dims[1], st)
    return L.scalar(tm.sum_(k, d, tm.subst(c.body, {v.a[0]: k for v in c.vars})), L.sum_dt(c.dt), c.ns, st)


@np_("diagonal", "diag")
def _diag(L, ns, args, kw, st):
    p = P(args, kw, "a k")
    a = A(L, p["a"], st, ns)
    c = L.content(a, st)
    if p.get("k", 0) != 0 or c.mask is not None:
        raise Bad("diag")
    k = tm.fresh("k")
    if len(c.dims) == 1:
        i, j = tm.fresh("i"), tm.fresh("j")
        return L.mk(st, (c.dims[0],) * 2, (i, j),
                    tm.ite(tm.cmp("==", i, j), tm.subst(c.body, {c.vars[0].a[0]: i}), tm.ZERO), c.dt, c.ns)
    return L.mk(st, (L.min_(c.dims[0], c.dims[1], st),), (k,), tm.subst(c.body, {v.a[0]: k for v in c.vars}),
                c.dt, c.ns)


@np_("fill_diagonal")
def _filldiag(L, ns, args, kw, st):
    a, v = args[0], L.scalar_of(args[1], st)
    if not is_num(v) or len(a.dims) != 2:
        raise Bad("fill_diagonal")
    L.I.write(a, st, lambda idx, old: tm.ite(tm.cmp("==", idx[0], idx[1]), L.term(v), old))
    return None


@np_("diff")
def _diff(L, ns, args, kw, st):
    p = P(args, kw, "a n axis")
    a = A(L, p["a"], st, ns)
    if p.get("n", 1) != 1 or len(a.dims) != 1:
        raise Bad("diff")
    return L.binary("Sub", L.getitem(a, Slice(1, None, None), st), L.getitem(a, Slice(None, -1, None), st), st)


# -------------------------------------------------------------------- products

@np_("matmul")
def _matmul(L, ns, args, kw, st):
    return L.matmul(A(L, args[0], st, ns), A(L, args[1], st, ns), st)


@np_("dot", "inner")
def _dot(L, ns, args, kw, st):
    a, b = A(L, args[0], st, ns), A(L, args[1], st, ns)
    if is_num(a) or is_num(b) or not a.dims or not b.dims:
        return L.binary("Mult", a, b, st)
    if len(b.dims) > 2:
        raise Bad("dot")
    return L.matmul(a, b, st, "dot")


def _inner(L, ns, args, kw, st):
    a, b = A(L, args[0], st, ns), A(L, args[1], st, ns)
    if is_num(a) or is_num(b) or not a.dims or not b.dims:
        return L.binary("Mult", a, b, st)
    if len(b.dims) == 2:
        b = L.transpose(b, None, st)
    return L.matmul(a, b, st, "inner")


NP["inner"] = _inner


@np_("vdot")
def _vdot(L, ns, args, kw, st):
    a, b = (L.reshape(A(L, x, st, ns), (-1,), st) for x in args)
    return L.r_sum(L.binary("Mult", a, b, st), None, False, st)


@np_("vecdot")
def _vecdot(L, ns, args, kw, st):
    a, b = (A(L, x, st, ns) for x in args[:2])
    return L.r_sum(L.binary("Mult", a, b, st), kw.get("axis", -1), False, st)


@np_("outer")
def _outer(L, ns, args, kw, st):
    a, b = (L.reshape(A(L, x, st, ns), (-1,), st) for x in args)
    return L.binary("Mult", L.expand_dims(a, 1, st), b, st)


@np_("tensordot")
def _tensordot(L, ns, args, kw, st):
    p = P(args, kw, "a b axes")
    a, b = A(L, p["a"], st, ns), A(L, p["b"], st, ns)
    ax = p.get("axes", 2)
    if not isinstance(ax, int):
        raise Bad("axes")
    ca, cb = L.content(a, st), L.content(b, st)
    ks = []
    body_a, body_b = ca.body, cb.body
    ma, mb = {}, {}
    for q in range(ax):
        k = tm.fresh("k")
        da, db = ca.dims[len(ca.dims) - ax + q], cb.dims[q]
        L.I.may_raise(st, tm.cmp("!=", da, db), "ValueError", "shape-mismatch for sum")
        ma[ca.vars[len(ca.dims) - ax + q].a[0]] = k
        mb[cb.vars[q].a[0]] = k
        ks.append((k, da))
    vs = [tm.fresh("i") for _ in range(len(ca.dims) - ax + len(cb.dims) - ax)]
    na = len(ca.dims) - ax
    for q in range(na):
        ma[ca.vars[q].a[0]] = vs[q]
    for q in range(ax, len(cb.dims)):
        mb[cb.vars[q].a[0]] = vs[na + q - ax]
    body = L.t_sum(tm.mul(tm.subst(body_a, ma), tm.subst(body_b, mb)), ks, None)
    dt = L.promote(ca.dt, cb.dt)
    if dt in DATAINT:
        L.I.effect("int-arith", st, op="tensordot", dt=dt)
    return L.mk(st, ca.dims[:na] + cb.dims[ax:], tuple(vs), body, dt, ns)


@np_("einsum")
def _einsum(L, ns, args, kw, st):
    sp = args[0]
    if not isinstance(sp, str) or "." in sp or any(k not in ("optimize",) for k in kw):
        raise Bad("einsum")
    sp = sp.replace(" ", "")
    ins, arrow, outs = sp.partition("->")
    ops = [A(L, x, st, ns) for x in args[1:]]
    subs = ins.split(",")
    if len(subs) != len(ops):
        L.I.raise_(st, "ValueError", "einsum operands")
    if not arrow:
        flat = ins.replace(",", "")
        outs = "".join(sorted(x for x in set(flat) if flat.count(x) == 1))
    vs, dims = {}, {}
    prod = tm.ONE
    dt = None
    for s, o in zip(subs, ops):
        c = L.content(o, st)
        if len(s) != len(c.dims) or c.mask is not None:
            L.I.raise_(st, "ValueError", "einsum subscripts")
        m = {}
        for ch, v, d in zip(s, c.vars, c.dims):
            if ch not in vs:
                vs[ch] = tm.fresh("i")
                dims[ch] = d
            elif dims[ch] is not d:
                L.I.may_raise(st, tm.cmp("!=", dims[ch], d), "ValueError", "einsum dimensions")
            m[v.a[0]] = vs[ch]
        prod = tm.mul(prod, tm.subst(c.body, m))
        dt = c.dt if dt is None else L.promote(dt, c.dt)
    if dt in DATAINT:
        L.I.effect("int-arith", st, op="einsum", dt=dt)
    body = prod
    for ch in vs:
        if ch not in outs:
            body = tm.sum_(vs[ch], dims[ch], body)
    return L.mk(st, tuple(dims[c] for c in outs), tuple(vs[c] for c in outs), body, L.strong(dt), ns)


@np_("linalg.norm")
def _norm(L, ns, args, kw, st):
    p = P(args, kw, "x ord axis keepdims")
    a = A(L, p["x"], st, ns)
    o = p.get("ord")
    if o not in (None, 2, "fro", 1):
        raise Bad("norm ord")
    if o == 2 and p.get("axis") is None and len(a.dims) == 2 or o == 1 and p.get("axis") is None and len(a.dims) != 1:
        raise Bad("matrix norm")
    kd = p.get("keepdims", False) is True
    if o == 1:
        return L.r_sum(L.ufunc1("abs", a, ns, st), p.get("axis"), kd, st)
    s = L.r_sum(L.binary("Mult", a, a, st), p.get("axis"), kd, st)
    return L.ufunc1("sqrt", s, ns, st)


NP["linalg.vector_norm"] = lambda L, ns, args, kw, st: _norm(
    L, ns, args, {k: v for k, v in kw.items()}, st)


def matrix_fn(L, kind, m, ns, st):
    """Function of a square matrix: entry by entry when its size is known, else a value identified by the matrix."""
    a = A(L, m, st, ns)
    c = L.content(a, st)
    if len(c.dims) < 2:
        L.I.raise_(st, "LinAlgError", "array must be at least two-dimensional")
    if len(c.dims) > 2 or c.mask is not None:
        raise Bad(kind)
    if c.dt == "obj":
        L.I.raise_(st, "TypeError", f"{kind}: cannot cast from object")
    i, j = c.vars
    L.I.may_raise(st, tm.cmp("!=", c.dims[0], c.dims[1]), "LinAlgError", "matrix must be square")
    n = tm.cval(c.dims[0])
    p, q = tm.fresh("i"), tm.fresh("j")
    if n is not None and 1 <= n <= 4 and tm.cval(c.dims[1]) == n:
        ent = [tm.subst(c.body, {i.a[0]: tm.const(x), j.a[0]: tm.const(y)}) for x in range(n) for y in range(n)]
        f = lambda x, y: tm.linalg(kind, x, y, n, ent)
    else:
        # fingerprint of the whole matrix
        s1 = tm.sum_(i, c.dims[0], tm.sum_(j, c.dims[1], c.body))
        s2 = tm.sum_(i, c.dims[0], tm.sum_(j, c.dims[1], tm.ipow(c.body, 2)))
        s3 = tm.sum_(i, c.dims[0], tm.sum_(j, c.dims[1],
                                           tm.mul(c.body, tm.add(i, tm.TWO), tm.add(tm.mul(j, j), tm.ONE))))
        f = lambda x, y: tm.opq("@" + kind, x, y, s1, s2, s3)
    dt = c.dt if c.dt in FLOATS else "f8"
    if kind == "eigw":
        return L.mk(st, (c.dims[0],), (q,), f(tm.ZERO, q), dt, ns)
    return L.mk(st, c.dims, (p, q), f(p, q), dt, ns)


@np_("linalg.eigh")
def _eigh(L, ns, args, kw, st):
    m = P(args, kw, "a")["a"]
    return (matrix_fn(L, "eigw", m, ns, st), matrix_fn(L, "eigv", m, ns, st))


@np_("linalg.eigvalsh")
def _eigvalsh(L, ns, args, kw, st):
    return matrix_fn(L, "eigw", P(args, kw, "a")["a"], ns, st)


@np_("linalg.inv")
def _inv(L, ns, args, kw, st):
    return matrix_fn(L, "inv", P(args, kw, "a")["a"], ns, st)


@np_("linalg.cholesky")
def _cholesky(L, ns, args, kw, st):
    return matrix_fn(L, "chol", P(args, kw, "a")["a"], ns, st)


@np_("linalg.solve")
def _solve(L, ns, args, kw, st):
    p = P(args, kw, "a b")
    return L.matmul(matrix_fn(L, "inv", p["a"], ns, st), A(L, p["b"], st, ns), st)


@np_("cov")
def _cov(L, ns, args, kw, st):
    p = P(args, kw, "m y rowvar bias ddof")
    a = A(L, p["m"], st, ns)
    c = L.content(a, st)
    if p.get("y") is not None or c.mask is not None or len(c.dims) != 2 or p.get("rowvar", True) not in (True, False) \
            or p.get("bias", False) not in (True, False):
        raise Bad("cov")
    if p.get("rowvar", True):
        a = L.transpose(a, None, st)
    dd = p.get("ddof")
    if dd is None:
        dd = 0 if p.get("bias", False) else 1
    c = L.content(a, st)
    n = c.dims[0]
    d = L.binary("Sub", a, L.r_mean(a, 0, True, st), st)
    r = L.matmul(L.transpose(d, None, st), d, st)
    if c.dt == "obj":
        raise Bad("cov of objects")
    r = L.binary("Div", r, SNum(tm.sub(n, L.term(dd)), "int"), st)
    if tm.cval(c.dims[1]) == 1:
        return L.reshape(r, (), st)
    if tm.cval(c.dims[1]) is None:
        raise Bad("cov of a symbolic number of variables")
    return r


# -------------------------------------------------------------------- dtype queries

@np_("issubdtype")
def _issub(L, ns, args, kw, st):
    d = L.dtarg(args[0], st)
    k = args[1]
    if d is None:
        return SNum(L.I.unk("issubdtype"), "bool")
    if isinstance(k, Ext):
        n = k.path.rpartition(".")[2]
        n = {"float": "floating", "int": "integer", "bool": "bool_", "object": "object_"}.get(n, n)
        return L.sub_dtype(d, n)
    if isinstance(k, DType):
        if d in DATAINT or k.dt == "i8" and d == "i8":
            return SNum(L.I.unk("issubdtype"), "bool") if k.dt == "i8" and d in DATAINT else False
        return d == k.dt
    return SNum(L.I.unk("issubdtype"), "bool")


@np_("can_cast")
def _cancast(L, ns, args, kw, st):
    p = P(args, kw, "a b casting")
    a = p["a"]
    d = L.dtarg(a, st)
    if d is None and isinstance(a, Arr):
        d = st.heap[a.root].dt
    e = L.dtarg(p["b"], st)
    if d is None or e is None:
        return SNum(L.I.unk("can_cast"), "bool")
    if d == e and d not in DATAINT:
        return True
    cast = p.get("casting", "safe")
    if cast == "unsafe":
        return True
    rank = {"b1": 0, "du": 1, "di": 1, "i8": 1, "f4": 2, "f8": 3, "obj": 5, "c16": 4}
    if e == "f8":
        return rank[d] <= 3
    if e == "obj":
        return True
    if cast == "same_kind":
        return {"f8": 3, "f4": 3, "i8": 1, "di": 1, "du": 1, "b1": 0}.get(d, 9) <= \
            {"f8": 3, "f4": 3, "i8": 1, "di": 1, "du": 1, "b1": 0}.get(e, 0)
    if e == "f4" and d == "b1":
        return True
    if e == "f4" and d == "f8" or e in INTS and d in FLOATS + ("obj",) or d == "obj":
        return False
    if e in INTS and d == "b1":
        return True
    return SNum(L.I.unk("can_cast"), "bool")


@np_("result_type", "promote_types")
def _rt(L, ns, args, kw, st):
    dt = None
    for a in args:
        d = L.dtarg(a, st)
        if d is None:
            if isinstance(a, Arr):
                d = st.heap[a.root].dt
            elif is_num(a):
                d = L.ntype(a)[0]
            else:
                raise Bad("result_type")
        dt = d if dt is None else L.promote(dt, d)
    return DType(L.strong(dt))


@np_("dtype")
def _dtype(L, ns, args, kw, st):
    d = L.dtarg(args[0], st)
    if d is None:
        return Unknown("dtype")
    return DType(d)


@np_("isdtype")
def _isdtype(L, ns, args, kw, st):
    d = L.dtarg(args[0], st)
    kinds = args[1] if isinstance(args[1], tuple) else (args[1],)
    if d is None:
        raise Bad("isdtype")
    for k in kinds:
        if isinstance(k, str):
            m = {"bool": ("b1",), "signed integer": ("i8", "di", "i2", "i4"), "unsigned integer": ("du", "u2", "u4"),
                 "integral": INTS, "real floating": FLOATS, "complex floating": ("c16",),
                 "numeric": INTS + FLOATS + ("c16",)}[k]
            if d in m:
                return True
        elif isinstance(k, DType) and k.dt == d and d not in DATAINT:
            return True
    return False


@np_("finfo", "iinfo")
def _finfo(L, ns, args, kw, st):
    return Partial(None, (L.dtarg(args[0], st),), (), "finfo")


@np_("isscalar")
def _isscalar(L, ns, args, kw, st):
    return is_num(args[0]) or isinstance(args[0], str)


@np_("array_equal")
def _arreq(L, ns, args, kw, st):
    a, b = (A(L, x, st, ns) for x in args[:2])
    da = a.dims if isinstance(a, Arr) else ()
    db = b.dims if isinstance(b, Arr) else ()
    if len(da) != len(db):
        return False
    cs = [tm.cmp("==", x, y) for x, y in zip(da, db)]
    s = st.copy()
    for c in cs:
        s.assume(c)
    e = L.r_any(L.compare("Eq", a, b, s), None, False, s, True)
    st.heap.update(s.heap)
    return L.I.mkbool(tm.and_(*cs, tm.truth(L.term(L.scalar_of(e, st)))), st)


@np_("allclose")
def _allclose(L, ns, args, kw, st):
    p = P(args, kw, "a b rtol atol equal_nan")
    a, b = A(L, p["a"], st, ns), A(L, p["b"], st, ns)
    rt, at = L.term(p.get("rtol", 1e-5)), L.term(p.get("atol", 1e-8))
    r = L.ew([a, b], lambda x, y: tm.cmp("<=", tm.absv(tm.sub(x, y)), tm.add(at, tm.mul(rt, tm.absv(y)))),
             "b1", ns, st)
    r = L.r_any(r, None, False, st, True) if isinstance(r, Arr) else r
    return L.I.mkbool(tm.truth(L.term(L.scalar_of(r, st))), st)


@np_("isclose")
def _isclose(L, ns, args, kw, st):
    p = P(args, kw, "a b rtol atol equal_nan")
    a, b = A(L, p["a"], st, ns), A(L, p["b"], st, ns)
    rt, at = L.term(p.get("rtol", 1e-5)), L.term(p.get("atol", 1e-8))
    return L.ew([a, b], lambda x, y: tm.cmp("<=", tm.absv(tm.sub(x, y)), tm.add(at, tm.mul(rt, tm.absv(y)))),
                "b1", ns, st)


@np_("nan_to_num")
def _nan2num(L, ns, args, kw, st):
    p = P(args, kw, "x copy nan posinf neginf")
    a = A(L, p["x"], st, ns)
    nv = L.term(p.get("nan", 0.0))
    big = tm.const(1.7976931348623157e308)
    dt = L.strong(L.content(a, st).dt)
    r = L.ew([a], lambda x: tm.ite(tm.cmp("!=", tm.fn("isnan", x), tm.ZERO), nv,
                                   tm.ite(tm.cmp("!=", tm.fn("isinf", x), tm.ZERO),
                                          tm.ite(tm.cmp("<", tm.ZERO, x), big, tm.neg(big)), x)), dt, ns, st)
    return r


@np_("errstate")
def _errstate(L, ns, args, kw, st):
    return Partial(None, (), (), "errstate")


@np_("seterr", "seterrcall", "set_printoptions", "random.seed", "random.set_state")
def _seterr(L, ns, args, kw, st):
    L.I.effect("write-global", st, what="NumPy global state")
    return Unknown("seterr")


@np_("may_share_memory", "shares_memory")
def _share(L, ns, args, kw, st):
    a, b = args[:2]
    return isinstance(a, Arr) and isinstance(b, Arr) and a.root == b.root


@np_("copyto")
def _copyto(L, ns, args, kw, st):
    L.setitem(args[0], Ellipsis, args[1], st)
    return None


@np_("ndarray")
def _ndarray(L, ns, args, kw, st):
    return NP["empty"](L, ns, args, kw, st)


@np_("vectorize", "apply_along_axis", "fromiter", "frompyfunc", "nditer", "ndenumerate")
def _vectorize(L, ns, args, kw, st):
    raise Bad("vectorised call")


@np_("fromiter")
def _fromiter(L, ns, args, kw, st):
    p = P(args, kw, "it dtype count")
    d = L.dtarg(p["dtype"], st)
    seq = L.I.iterate(p["it"], st)
    if isinstance(seq, SymSeq):
        r = L.stack_sym(seq, 0, st, ns)
    elif isinstance(seq, list):
        r = L.stack_list(seq, 0, st, ns)
    else:
        raise Bad("fromiter")
    if isinstance(r, Unknown):
        raise Bad(r.reason)
    return L.cast(r, d, st, copy=False)


# -------------------------------------------------------------------- random

@np_("random.RandomState")
def _rs(L, ns, args, kw, st):
    return L.new_rng(args, kw, st, "RandomState")


@np_("random.default_rng", "random.Generator")
def _rg(L, ns, args, kw, st):
    return L.new_rng(args, kw, st, "Generator")


def _glob(name):
    def f(L, ns, args, kw, st):
        L.I.effect("global-rng", st, what="numpy.random." + name)
        if name == "permutation":
            L.I.site_n += 1
            return L.permutation(args[0], "global", (tm.const(L.I.site_n),), st)
        return Unknown("global random draw")
    return f


for _n in ("permutation", "shuffle", "rand", "randn", "randint", "random", "normal", "uniform", "choice",
           "random_sample", "standard_normal", "get_state", "mtrand._rand"):
    NP["random." + _n] = _glob(_n)
