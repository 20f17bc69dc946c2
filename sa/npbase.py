"""Array attributes, methods, dtypes, reductions and shape manipulation."""
from __future__ import annotations

from . import terms as tm
from .values import *
from .arrays import is_num, INTS, FLOATS, DATAINT

DT = {"float64": "f8", "double": "f8", "float_": "f8", "float32": "f4", "single": "f4", "float16": "f4",
      "longdouble": "f8", "int64": "i8", "intp": "i8", "int_": "i8", "int32": "i4", "int16": "i2", "int8": "i2",
      "uint8": "u2", "uint16": "u2", "uint32": "u4", "uint64": "i8", "bool_": "b1", "object_": "obj",
      "longlong": "i8", "uint": "i8", "complex128": "c16", "complex64": "c16"}
ABSTRACT = {"number", "integer", "signedinteger", "unsignedinteger", "inexact", "floating", "complexfloating",
            "generic"}
STD = set("""abs acos acosh add all any arange argmax argmin argsort asarray asin asinh astype atan atan2 atanh
broadcast_arrays broadcast_to can_cast ceil clip concat conj copysign cos cosh cumulative_sum divide empty empty_like
equal exp expand_dims expm1 eye finfo flip floor floor_divide from_dlpack full full_like greater greater_equal hypot
iinfo isdtype isfinite isinf isnan less less_equal linspace log log10 log1p log2 logaddexp logical_and logical_not
logical_or logical_xor matmul matrix_transpose max maximum mean meshgrid min minimum moveaxis multiply negative nonzero
not_equal ones ones_like permute_dims positive pow prod remainder repeat reshape result_type roll round searchsorted
sign signbit sin sinh sort sqrt square squeeze stack std subtract sum take tan tanh tensordot tile tril triu trunc
unique_all unique_counts unique_inverse unique_values unstack var vecdot where zeros zeros_like""".split())
STD_ONLY = set("""acos acosh asin asinh atan atan2 atanh astype concat cumulative_sum isdtype matrix_transpose
permute_dims pow unique_all unique_counts unique_inverse unique_values unstack vecdot""".split())
STD_DT = {"float64", "float32", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "complex128",
          "complex64"}
SUBMODULES = {"random", "linalg", "typing", "fft", "testing", "lib", "core"}


class NpBase:
    # ------------------------------------------------------------ dtypes
    def dtarg(self, v, st):
        """dtype class of a dtype argument, None if unknown."""
        if isinstance(v, DType):
            return v.dt
        if isinstance(v, Ext):
            n = v.path.rpartition(".")[2]
            return {"float": "f8", "int": "i8", "bool": "b1", "object": "obj", "complex": "c16"}.get(n) or DT.get(n)
        if isinstance(v, str):
            return {"float": "f8", "int": "i8", "bool": "b1", "object": "obj", "O": "obj", "f8": "f8", "f4": "f4",
                    "i8": "i8", "d": "f8", "i1": "i2", "i2": "i2", "i4": "i4", "u1": "u2", "u2": "u2",
                    "u4": "u4"}.get(v) or DT.get(v)
        return None

    def dtype_eq(self, a, b):
        da, db = self.dtarg(a, None), self.dtarg(b, None)
        if da is None or db is None:
            if a is None or b is None:
                return False
            return None
        if da == db:
            return True if da not in DATAINT else None
        if {da, db} & {"di", "du"} and {da, db} & {"i8", "i2", "u2", "i4", "u4"}:
            return None
        return False

    def dtype_attr(self, o, name, st):
        kinds = {"f8": "f", "f4": "f", "i8": "i", "di": "i", "du": "u", "i2": "i", "u2": "u", "i4": "i", "u4": "u", "b1": "b", "obj": "O", "c16": "c"}
        if name == "kind":
            return kinds.get(o.dt, "?")
        if name == "type":
            return o
        if name == "itemsize":
            return {"f8": 8, "f4": 4, "b1": 1, "obj": 8, "i8": 8}.get(o.dt, SNum(self.I.unk("itemsize"), "int"))
        if name == "name":
            return {"f8": "float64", "f4": "float32", "b1": "bool", "obj": "object"}.get(o.dt, SStr("dtype name"))
        if name == "char":
            return SStr("dtype char")
        if name == "hasobject":
            return o.dt == "obj"
        return Unknown("dtype attribute")

    def to_scalar_type(self, v, dtype, st):
        d = self.dtarg(dtype, st)
        v = self.scalar_of(v, st)
        if not is_num(v):
            return self.cast(self.as_arr(v, st), d, st) if isinstance(v, (Arr, tuple, Ref)) else Unknown("cast")
        sd, _ = self.ntype(v)
        return SNum(self.cast_term(self.term(v), sd, d, st), d, "np")

    def sub_dtype(self, d, kind):
        k = {"f8": "floating", "f4": "floating", "i8": "signedinteger", "di": "signedinteger",
             "du": "unsignedinteger", "b1": "bool", "obj": "object", "c16": "complexfloating"}[d]
        up = {"floating": {"floating", "inexact", "number", "generic"},
              "signedinteger": {"signedinteger", "integer", "number", "generic"},
              "unsignedinteger": {"unsignedinteger", "integer", "number", "generic"},
              "bool": {"bool_", "generic"}, "object": {"object_", "generic"},
              "complexfloating": {"complexfloating", "inexact", "number", "generic"}}[k]
        return kind in up

    # ------------------------------------------------------------ namespace attributes
    def ns_attr(self, ns, name, st):
        if name == "newaxis":
            return None
        if name in ("bool", "int", "float", "object") and ns == "numpy":
            return MISSING
        if name == "bool":
            return DType("b1")
        if ns == "xp":
            if name in STD_DT:
                return DType(DT[name])
            if name == "linalg":
                return Ext("xp.linalg")
            if name in STD:
                return Ext("xp." + name)
            if name == "__name__":
                return "xp"
            return MISSING
        if name in DT:
            return DType(DT[name])
        if name in ABSTRACT or name in ("ndarray", "random", "linalg", "typing", "errstate", "dtype"):
            return Ext("numpy." + name) if name not in ("linalg",) else Ext(ns + ".linalg")
        if name == "__name__":
            return ns
        if ns == "numpy" and name in STD_ONLY:
            return MISSING
        if name.startswith("__"):
            return MISSING
        return Ext(f"{ns}.{name}")

    # ------------------------------------------------------------ attributes
    def array_attr(self, o, name, st):
        I = self.I
        if isinstance(o, SNum):
            c = Content((), (), o.t, o.dt, o.ns)
            dims = ()
        else:
            c = st.heap[o.root]
            dims = o.dims
        if name == "shape":
            return tuple(self.dimval(d) for d in dims)
        if name == "ndim":
            return len(dims)
        if name == "size":
            return self.dimval(tm.mul(tm.ONE, *dims))
        if name == "dtype":
            return DType(self.strong(c.dt))
        if name == "device":
            return "cpu"
        if name == "T":
            if c.ns == "xp" and len(dims) != 2:
                I.raise_(st, "ValueError", "x.T requires x to have 2 dimensions")
            return self.transpose(o, None, st)
        if name == "mT":
            if c.ns == "np":
                return MISSING
            nd = len(dims)
            return self.transpose(o, tuple(range(nd - 2)) + (nd - 1, nd - 2), st)
        if name == "__array_namespace__":
            return MISSING if c.ns == "np" else Bound(o, name)
        if c.ns == "xp":
            if name in ("to_device", "__array_namespace__", "__abs__", "__len__", "__getitem__"):
                return Bound(o, name)
            return MISSING
        if name == "real":
            return o
        if name == "base":
            return Unknown("array base")
        if name == "flat":
            return self.reshape(o, (-1,), st)
        if name == "itemsize":
            return SNum(I.unk("itemsize"), "int")
        if name == "nbytes":
            return SNum(I.unk("nbytes"), "int")
        if name == "strides":
            return Unknown("strides")
        if name == "flags":
            return Partial(o, (), (), "flags")
        if name in METHODS:
            return Bound(o, name)
        if isinstance(o, SNum) and name == "is_integer":
            return Bound(o, name)
        return MISSING

    # ------------------------------------------------------------ layout
    def is_contig(self, a, st):
        meta = self.I.roots.get(a.root, {})
        base = meta.get("order", "C") == "C"
        c = st.heap[a.root]
        if c.mask is not None or len(a.dims) == 0:
            return True
        if not base:
            return False
        if a.ix is None:
            return True
        big = [(w, d) for w, d in zip(a.vv, a.dims) if tm.cval(d) != 1]
        k = 0
        started = False
        for t, d in zip(a.ix, c.dims):
            w = big[k][0] if k < len(big) else None
            fvs = [x for x, _ in big if x.a[0] in t.fv]
            if not fvs:
                if started and tm.cval(d) != 1:
                    return False
                continue
            if len(fvs) > 1 or fvs[0] is not w:
                return False
            if t is w:
                if started and not (big[k][1] is d):
                    return False
            elif t.op == "+" and dict((p, c_) for c_, p in t.a[1:]).get(w) == 1 and not started:
                pass
            else:
                return False
            started = True
            k += 1
        return True

    def copy_arr(self, a, st, dt=None):
        if not isinstance(a, Arr):
            return a
        c = self.I.read(a, st)
        body = c.body
        if dt is not None and dt != c.dt:
            body = self.cast_term(body, c.dt, dt, st)
        if c.mask is not None:
            return self.mk(st, c.dims, c.vars, body, dt or c.dt, c.ns, c.mask, c.vary)
        return self.I.new_arr(st, c.dims, c.vars, body, dt or c.dt, c.ns)

    def cast(self, a, dt, st, copy=True, ns=None):
        if dt is None:
            return Unknown("cast to an unknown dtype")
        if isinstance(a, SNum):
            return SNum(self.cast_term(a.t, a.dt, dt, st), dt, a.ns)
        if not isinstance(a, Arr):
            return Unknown("cast")
        c = st.heap[a.root]
        if c.dt == dt and not copy:
            return a
        if dt == "f8" and c.dt == "obj":
            self.I.effect("precision-loss", st, what="exact numbers converted to floating point")
        return self.copy_arr(a, st, dt)

    # ------------------------------------------------------------ shape
    def transpose(self, a, axes, st):
        if isinstance(a, SNum):
            return a
        c = st.heap[a.root]
        if c.mask is not None:
            return a
        nd = len(a.dims)
        if axes is None:
            axes = tuple(range(nd - 1, -1, -1))
        axes = tuple(x + nd if x < 0 else x for x in axes)
        if sorted(axes) != list(range(nd)):
            self.I.raise_(st, "ValueError", "axes don't match array")
        vv, ix = self.base_view(a, st)
        return Arr(a.root, tuple(a.dims[k] for k in axes), tuple(vv[k] for k in axes), ix)

    def shape_terms(self, shape, st):
        shape = self.scalar_of(shape, st) if isinstance(shape, Arr) else shape
        if is_num(shape):
            shape = (shape,)
        if isinstance(shape, Ref):
            seq = self.I.iterate(shape, st)
            shape = tuple(seq) if isinstance(seq, list) else None
        if not isinstance(shape, tuple):
            return None
        out = []
        for s in shape:
            s = self.scalar_of(s, st)
            if not is_num(s):
                return None
            if isinstance(s, float) or isinstance(s, SNum) and s.dt in ("float", "f8"):
                self.I.raise_(st, "TypeError", "shape must be integers")
            out.append(self.term(s))
        return tuple(out)

    def reshape(self, a, shape, st):
        I = self.I
        sh = self.shape_terms(shape, st)
        if sh is None:
            return Unknown("reshape to unknown shape")
        if isinstance(a, SNum):
            if not sh:
                return a
            if all(tm.cval(d) in (1, -1) for d in sh):
                return self.as_arr_dims(a, len(sh), st)
            I.raise_(st, "ValueError", "cannot reshape")
        if not isinstance(a, Arr):
            return Unknown("reshape")
        if st.heap[a.root].mask is not None:
            return a if len(sh) == 1 else Unknown("reshape of a filtered array")
        total = tm.mul(tm.ONE, *a.dims)
        neg = [k for k, d in enumerate(sh) if tm.cval(d) == -1]
        if len(neg) > 1:
            I.raise_(st, "ValueError", "can only specify one unknown dimension")
        sh = list(sh)
        if neg:
            rest = tm.mul(tm.ONE, *[d for k, d in enumerate(sh) if k != neg[0]])
            if tm.cval(rest) == 0:
                I.raise_(st, "ValueError", "cannot reshape")
            sh[neg[0]] = tm.div(total, rest)
        else:
            prod = tm.mul(tm.ONE, *sh)
            if prod is not total:
                I.may_raise(st, tm.cmp("!=", prod, total), "ValueError", "cannot reshape array")
        old = [(d, k) for k, d in enumerate(a.dims) if tm.cval(d) != 1]
        new = [(d, k) for k, d in enumerate(sh) if tm.cval(d) != 1]
        nvv = tuple(tm.fresh("w") for _ in sh)
        for w, d in zip(nvv, sh):
            I.bounds[w.a[0]] = (0, I.term_bounds(d)[1])
        vv, ix = self.base_view(a, st)
        m = {vv[k].a[0]: tm.ZERO for k, d in enumerate(a.dims) if tm.cval(d) == 1}
        i = j = 0
        while i < len(old) and j < len(new):
            d, e = old[i][0], new[j][0]
            if d is e:
                m[vv[old[i][1]].a[0]] = nvv[new[j][1]]
                i += 1
                j += 1
                continue
            # flatten d*d2*... = e
            acc, k = d, i + 1
            ok = False
            while k < len(old):
                acc = tm.mul(acc, old[k][0])
                k += 1
                if acc is e:
                    ok = True
                    break
            if ok:
                w = nvv[new[j][1]]
                stride = tm.ONE
                for q in range(k - 1, i - 1, -1):
                    t = w if stride is tm.ONE else tm.fn("floordiv", w, stride)
                    if q > i:
                        t = tm.fn("mod", t, old[q][0])
                    m[vv[old[q][1]].a[0]] = t
                    stride = tm.mul(stride, old[q][0])
                i, j = k, j + 1
                continue
            acc, k = e, j + 1
            while k < len(new):
                acc = tm.mul(acc, new[k][0])
                k += 1
                if acc is d:
                    ok = True
                    break
            if ok:
                t = tm.ZERO
                for q in range(j, k):
                    t = tm.add(tm.mul(t, new[q][0]), nvv[new[q][1]])
                m[vv[old[i][1]].a[0]] = t
                i, j = i + 1, k
                continue
            break
        if i < len(old) or j < len(new):
            # sizes agree on this path although the terms differ
            if i == len(old) - 1 and j == len(new) - 1:
                m[vv[old[i][1]].a[0]] = nvv[new[j][1]]
            else:
                # generic: flat position
                flat = tm.ZERO
                for w, d in zip(nvv, sh):
                    flat = tm.add(tm.mul(flat, d), w)
                stride = tm.ONE
                for d, k in reversed(old):
                    t = tm.fn("floordiv", flat, stride) if stride is not tm.ONE else flat
                    m[vv[k].a[0]] = tm.fn("mod", t, d)
                    stride = tm.mul(stride, d)
        return Arr(a.root, tuple(sh), nvv, tuple(tm.subst(t, m) for t in ix))

    def expand_dims(self, a, axis, st):
        if isinstance(a, SNum):
            return self.as_arr_dims(a, 1 if isinstance(axis, int) else len(axis), st)
        axes = axis if isinstance(axis, tuple) else (axis,)
        if not all(isinstance(x, int) for x in axes):
            return Unknown("expand_dims")
        nd = len(a.dims) + len(axes)
        axes = {x + nd if x < 0 else x for x in axes}
        if any(not 0 <= x < nd for x in axes):
            self.I.raise_(st, "AxisError")
        if st.heap[a.root].mask is not None:
            return Unknown("filtered array")
        vv, ix = self.base_view(a, st)
        dims, nv, k = [], [], 0
        for q in range(nd):
            if q in axes:
                dims.append(tm.ONE)
                nv.append(tm.fresh("w"))
            else:
                dims.append(a.dims[k])
                nv.append(vv[k])
                k += 1
        return Arr(a.root, tuple(dims), tuple(nv), ix)

    def squeeze(self, a, axis, st):
        if isinstance(a, SNum):
            return a
        if st.heap[a.root].mask is not None:
            return a
        nd = len(a.dims)
        if axis is None:
            axes = []
            for k, d in enumerate(a.dims):
                if tm.cval(d) == 1:
                    axes.append(k)
                elif tm.cval(d) is None and self.I.term_bounds(d)[0] <= 1:
                    return Unknown("squeeze of an axis of unknown length")
        else:
            axes = [x + nd if x < 0 else x for x in (axis if isinstance(axis, tuple) else (axis,))]
            for k in axes:
                self.I.may_raise(st, tm.cmp("!=", a.dims[k], tm.ONE), "ValueError", "cannot squeeze")
        vv, ix = self.base_view(a, st)
        m = {vv[k].a[0]: tm.ZERO for k in axes}
        keep = [k for k in range(nd) if k not in axes]
        r = Arr(a.root, tuple(a.dims[k] for k in keep), tuple(vv[k] for k in keep), tuple(tm.subst(t, m) for t in ix))
        if not keep and st.heap[a.root].ns == "np":
            c = self.I.read(r, st)
            return self.I.new_arr(st, (), (), c.body, c.dt, "np", quiet=True)
        return r

    def broadcast_to(self, a, sh, st):
        dims = self.shape_terms(sh, st)
        if dims is None:
            return Unknown("broadcast_to")
        if is_num(a):
            dt, ns = self.ntype(a)
            return self.mk(st, dims, tuple(tm.fresh("i") for _ in dims), self.term(a), self.strong(dt), ns or "np")
        vv, ix = self.base_view(a, st)
        off = len(dims) - len(a.dims)
        if off < 0:
            self.I.raise_(st, "ValueError", "broadcast_to")
        m, nv = {}, []
        for k, d in enumerate(dims):
            w = tm.fresh("w")
            nv.append(w)
            if k >= off:
                e = a.dims[k - off]
                if tm.cval(e) == 1:
                    m[vv[k - off].a[0]] = tm.ZERO
                else:
                    self.I.may_raise(st, tm.cmp("!=", e, d), "ValueError", "broadcast_to")
                    m[vv[k - off].a[0]] = w
        r = Arr(a.root, dims, tuple(nv), tuple(tm.subst(t, m) for t in ix))
        c = self.I.read(r, st)
        return self.I.new_arr(st, c.dims, c.vars, c.body, c.dt, c.ns, quiet=True)

    # ------------------------------------------------------------ reductions
    def norm_axes(self, axis, nd, st):
        if axis is None:
            return tuple(range(nd))
        axes = axis if isinstance(axis, tuple) else (axis,)
        out = []
        for x in axes:
            x = self.scalar_of(x, st)
            if isinstance(x, SNum) and tm.cval(x.t) is not None:
                x = int(tm.cval(x.t))
            if not isinstance(x, int):
                return None
            if not -nd <= x < nd:
                self.I.raise_(st, "AxisError", "axis out of bounds")
            out.append(x + nd if x < 0 else x)
        return tuple(out)

    def reduce(self, a, axis, keepdims, st, f, dt, what):
        """f(body, [(var, dim)], mask) -> term"""
        c = self.content(a, st)
        if c.mask is not None:
            if axis not in (None, 0, -1):
                return Unknown(what)
            t = f(c.body, list(zip(c.vars, c.vary)), c.mask)
            return self.scalar(t, dt, c.ns, st)
        axes = self.norm_axes(axis, len(c.dims), st)
        if axes is None:
            return Unknown(what + " over an unknown axis")
        t = f(c.body, [(c.vars[k], c.dims[k]) for k in axes], None)
        dims, vs = [], []
        for k in range(len(c.dims)):
            if k not in axes:
                dims.append(c.dims[k])
                vs.append(c.vars[k])
            elif keepdims:
                dims.append(tm.ONE)
                vs.append(tm.fresh("i"))
        return self.mk(st, tuple(dims), tuple(vs), t, dt, c.ns or "np")

    @staticmethod
    def t_sum(body, vds, mask):
        t = body if mask is None else tm.ite(mask, body, tm.ZERO)
        for v, d in reversed(vds):
            t = tm.sum_(v, d, t)
        return t

    @classmethod
    def t_count(cls, vds, mask):
        if mask is None:
            return tm.mul(tm.ONE, *[d for _, d in vds])
        return cls.t_sum(tm.ite(mask, tm.ONE, tm.ZERO), vds, None)

    def sum_dt(self, dt):
        dt = self.strong(dt)
        return "i8" if dt in ("b1", "di", "du") else dt

    def r_sum(self, a, axis, keepdims, st, dtype=None):
        dt = self.content(a, st).dt
        return self.reduce(a, axis, keepdims, st, self.t_sum, dtype or self.sum_dt(dt), "sum")

    def r_mean(self, a, axis, keepdims, st):
        dt = self.strong(self.content(a, st).dt)
        dt = dt if dt in FLOATS + ("obj",) else "f8"
        return self.reduce(a, axis, keepdims, st,
                           lambda b, vds, m: self.divt(self.t_sum(b, vds, m), self.t_count(vds, m)), dt, "mean")

    @staticmethod
    def divt(a, b):
        if tm.cval(b) == 0:
            return tm.const(float("nan"))
        return tm.div(a, b)

    def r_var(self, a, axis, ddof, keepdims, st, root=False):
        dt = self.strong(self.content(a, st).dt)
        dt = dt if dt in FLOATS + ("obj",) else "f8"
        dd = self.term(ddof)

        def f(b, vds, m):
            n = self.t_count(vds, m)
            mean = self.divt(self.t_sum(b, vds, m), n)
            v = self.divt(self.t_sum(tm.ipow(tm.sub(b, mean), 2), vds, m), tm.sub(n, dd))
            return tm.power(v, tm.HALF) if root else v
        return self.reduce(a, axis, keepdims, st, f, dt, "var")

    def r_ext(self, op, a, axis, keepdims, st):
        c = self.content(a, st)
        if c.mask is not None:
            return Unknown("extremum of a filtered array")

        def f(b, vds, m):
            for v, d in reversed(vds):
                b = tm.extremum(op, v, d, b)
            return b
        return self.reduce(a, axis, keepdims, st, f, self.strong(c.dt), op)

    def r_any(self, a, axis, keepdims, st, isall):
        def f(b, vds, m):
            b = tm.truth(b)
            if isall:
                b = tm.not_(b)
            if m is not None:
                b = tm.and_(b, m)
            s = self.t_sum(b, vds, None)
            r = tm.cmp("<", tm.ZERO, s)
            return tm.not_(r) if isall else r
        return self.reduce(a, axis, keepdims, st, f, "b1", "any")

    def r_prod(self, a, axis, keepdims, st):
        def f(b, vds, m):
            if m is not None:
                b = tm.ite(m, b, tm.ONE)
            for v, d in reversed(vds):
                b = tm.prod_(v, d, b)
            return b
        return self.reduce(a, axis, keepdims, st, f, self.sum_dt(self.content(a, st).dt), "prod")

    def cumsum(self, a, axis, st):
        c = self.content(a, st)
        if c.mask is not None:
            return Unknown("cumsum of a filtered array")
        if axis is None:
            if len(c.dims) != 1:
                a = self.reshape(a, (-1,), st)
                c = self.content(a, st)
            axis = 0
        ax = self.norm_axes(axis, len(c.dims), st)
        if not ax:
            return Unknown("cumsum")
        k = ax[0]
        u = tm.fresh("u")
        v = c.vars[k]
        body = tm.sum_(u, tm.add(v, tm.ONE), tm.subst(c.body, {v.a[0]: u}))
        return self.mk(st, c.dims, c.vars, body, self.sum_dt(c.dt), c.ns)

    def argsort_arr(self, a, axis, st, descending=False):
        c = self.content(a, st)
        if c.mask is not None or not c.dims:
            return Unknown("argsort")
        if axis is None:
            a = self.reshape(a, (-1,), st)
            c = self.content(a, st)
            axis = 0
        k = self.norm_axes(axis, len(c.dims), st)
        if not k:
            return Unknown("argsort")
        k = k[0]
        u = tm.fresh("u")
        v = c.vars[k]
        b = tm.subst(c.body, {v.a[0]: u})
        if descending:
            b = tm.neg(b)
        return self.mk(st, c.dims, c.vars, tm.argsort(u, c.dims[k], b, v), "i8", c.ns)

    def sort_arr(self, a, axis, st, descending=False):
        c = self.content(a, st)
        if c.mask is not None or not c.dims:
            return Unknown("sort")
        if axis is None:
            a = self.reshape(a, (-1,), st)
            c = self.content(a, st)
            axis = 0
        k = self.norm_axes(axis, len(c.dims), st)
        if not k:
            return Unknown("sort")
        k = k[0]
        u = tm.fresh("u")
        v = c.vars[k]
        b = tm.subst(c.body, {v.a[0]: u})
        p = tm.argsort(u, c.dims[k], tm.neg(b) if descending else b, v)
        return self.mk(st, c.dims, c.vars, tm.subst(c.body, {v.a[0]: p}), c.dt, c.ns)

    def take(self, a, idx, axis, st):
        if axis is None:
            a = self.reshape(a, (-1,), st)
            axis = 0
        ax = self.norm_axes(axis, len(a.dims), st)
        if not ax:
            return Unknown("take")
        if not isinstance(idx, Arr) and not is_num(idx):
            idx = self.as_arr(idx, st, st.heap[a.root].ns)
        full = [Slice(None, None, None)] * len(a.dims)
        full[ax[0]] = idx
        r = self.getitem(a, tuple(full), st)
        return self.copy_arr(r, st) if isinstance(r, Arr) and r.root == a.root else r

    def concat(self, arrs, axis, st, ns):
        """Concatenate a list of arrays."""
        I = self.I
        cs = []
        for a in arrs:
            if not isinstance(a, Arr):
                a = self.as_arr(a, st, ns)
                if isinstance(a, Unknown):
                    return a
            c = I.read(a, st)
            if c.mask is not None:
                return Unknown("concatenation of filtered arrays")
            cs.append(c)
        if not cs:
            I.raise_(st, "ValueError", "need at least one array")
        nd = len(cs[0].dims)
        if nd == 0:
            I.raise_(st, "ValueError", "zero-dimensional arrays cannot be concatenated")
        ax = self.norm_axes(axis, nd, st)
        if not ax:
            return Unknown("concat")
        k = ax[0]
        vs = tuple(tm.fresh("i") for _ in range(nd))
        total = tm.ZERO
        dt = cs[0].dt
        parts = []
        for c in cs:
            if len(c.dims) != nd:
                I.raise_(st, "ValueError", "all the input array dimensions must match")
            for q in range(nd):
                if q != k and c.dims[q] is not cs[0].dims[q]:
                    I.may_raise(st, tm.cmp("!=", c.dims[q], cs[0].dims[q]), "ValueError", "dimensions must match")
            dt = self.promote(dt, c.dt)
            m = {v.a[0]: w for v, w in zip(c.vars, vs)}
            m[c.vars[k].a[0]] = tm.sub(vs[k], total)
            parts.append((total, tm.subst(c.body, m)))
            total = tm.add(total, c.dims[k])
        body = parts[-1][1]
        for q in range(len(parts) - 2, -1, -1):
            nxt = parts[q + 1][0]
            body = tm.ite(tm.cmp("<", vs[k], nxt), parts[q][1], body)
        for v, d in zip(vs, cs[0].dims):
            I.bounds[v.a[0]] = (0, I.term_bounds(d)[1])
        I.bounds[vs[k].a[0]] = (0, I.term_bounds(total)[1])
        dims = list(cs[0].dims)
        dims[k] = total
        return self.mk(st, tuple(dims), vs, body, dt, cs[0].ns)

    # ------------------------------------------------------------ methods
    def array_method(self, o, name, args, kw, st):
        I = self.I
        ns = o.ns if isinstance(o, SNum) else st.heap[o.root].ns
        if name == "__array_namespace__":
            return Ext("xp")
        if name == "to_device":
            return o
        if name == "__len__":
            return self.b_len([o], {}, st)
        if name == "__abs__":
            return self.b_abs([o], {}, st)
        if name == "__getitem__":
            return self.getitem(o, args[0], st)
        if name == "item":
            if args:
                return Unknown("item with index")
            c = self.content(o, st)
            if c.dt == "obj" and isinstance(o, SNum):
                # elements of object arrays are plain Python numbers
                I.raise_(st, "AttributeError", "item")
            for d in c.dims:
                I.may_raise(st, tm.cmp("!=", d, tm.ONE), "ValueError", "can only convert an array of size 1")
            t = tm.subst(c.body, {v.a[0]: tm.ZERO for v in c.vars})
            dt = self.strong(c.dt)
            return SNum(t, "float" if dt in FLOATS else "int" if dt in INTS else "bool" if dt == "b1" else dt)
        if name in ("copy", "__copy__"):
            return self.copy_arr(o, st) if isinstance(o, Arr) else o
        if name == "astype":
            p = dict(zip(["dtype", "order", "casting", "subok", "copy"], args))
            p.update(kw)
            return self.cast(o, self.dtarg(p["dtype"], st), st, copy=p.get("copy", True) is not False)
        if name == "reshape":
            sh = args[0] if len(args) == 1 else tuple(args)
            if kw.get("order", "C") != "C":
                return Unknown("reshape order")
            return self.reshape(o, sh, st)
        if name in ("ravel", "flatten"):
            r = self.reshape(o, (-1,), st)
            return self.copy_arr(r, st) if name == "flatten" and isinstance(r, Arr) else r
        if name == "transpose":
            ax = None
            if args:
                ax = args[0] if len(args) == 1 and isinstance(args[0], tuple) else tuple(args)
                if ax == (None,):
                    ax = None
            return self.transpose(o, ax, st)
        if name == "squeeze":
            return self.squeeze(o, args[0] if args else kw.get("axis"), st)
        if name == "swapaxes":
            nd = len(o.dims)
            ax = list(range(nd))
            ax[args[0]], ax[args[1]] = ax[args[1]], ax[args[0]]
            return self.transpose(o, tuple(ax), st)
        if name == "tolist":
            if isinstance(o, SNum):
                return SNum(o.t, {"f8": "float", "f4": "float", "b1": "bool"}.get(o.dt, "int"))
            seq = I.iterate(o, st)
            if isinstance(seq, list):
                return I.new_list(st, [self.array_method(x, "tolist", [], {}, st) for x in seq])
            if isinstance(seq, SymSeq):
                return I.new_obj(st, "list", SymSeq(seq.var, seq.dim,
                                                    self.array_method(seq.value, "tolist", [], {}, st)))
            return Unknown("tolist")
        if name == "fill":
            if isinstance(o, Arr):
                self.setitem(o, Ellipsis, args[0], st)
            return None
        if name == "sort":
            if isinstance(o, Arr):
                ax = args[0] if args else kw.get("axis", -1)
                s = self.sort_arr(o, ax, st)
                self.setitem(o, Ellipsis, s, st)
            return None
        if name == "view":
            return Unknown("view")
        if name == "setflags":
            I.effect("write-input", st, name="flags") if I.roots.get(o.root, {}).get("kind") == "input" else None
            return None
        if name == "is_integer":
            return I.mkbool(tm.cmp("==", tm.fn("floor", o.t), o.t), st)
        if name in METHOD_FUNCS:
            return self.call_np("numpy", METHOD_FUNCS[name], [o] + list(args), kw, st)
        I.effect("unknown-call", st, what=f"array method {name}", args=[o] + list(args))
        return Unknown(f"array method {name}")


METHOD_FUNCS = {"sum": "sum", "mean": "mean", "std": "std", "var": "var", "max": "max", "min": "min", "any": "any",
                "all": "all", "cumsum": "cumsum", "argsort": "argsort", "dot": "dot", "clip": "clip",
                "round": "round", "prod": "prod", "take": "take", "repeat": "repeat", "trace": "trace",
                "diagonal": "diagonal", "argmax": "argmax", "argmin": "argmin", "nonzero": "nonzero",
                "conj": "conj"}
METHODS = set(METHOD_FUNCS) | {"item", "copy", "astype", "reshape", "ravel", "flatten", "transpose", "squeeze",
                               "swapaxes", "tolist", "fill", "sort", "view", "setflags", "__len__", "__abs__",
                               "__getitem__", "__copy__"}
