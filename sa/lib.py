"""Models of the Python builtins and of the libraries dcor uses."""
from __future__ import annotations

import math

from . import terms as tm
from .terms import T
from .values import *
from . import arrays
from .indexing import IndexLib
from .npbase import NpBase
from .npfuncs import NpFuncs
from .jit import JitLib
from .arrays import ArrayLib

PYTYPES = {"int", "float", "bool", "str", "list", "tuple", "dict", "set", "object", "complex", "type",
           "slice", "frozenset", "bytes", "range", "zip", "enumerate", "map", "filter", "reversed"}

BUILTINS = {"len", "range", "enumerate", "zip", "map", "filter", "sorted", "reversed", "sum", "min", "max",
            "abs", "any", "all", "isinstance", "issubclass", "getattr", "setattr", "hasattr", "delattr",
            "callable", "id", "print", "iter", "next", "super", "repr", "format", "divmod", "pow", "round",
            "property", "classmethod", "staticmethod", "locals", "globals", "vars", "hash", "open", "input",
            "exec", "eval", "compile", "dir", "chr", "ord", "hex", "bin", "__import__"} | PYTYPES

CANON = {"numpy": "numpy", "np": "numpy"}


def is_num(v):
    return isinstance(v, (bool, int, float, SNum))


class Lib(IndexLib, NpFuncs, NpBase, JitLib, ArrayLib):
    def __init__(self, interp):
        self.I = interp
        self.setup_arrays()

    # ------------------------------------------------------------ names
    def canon(self, name):
        return name

    def module_attr(self, full, name):
        return self.ext_attr(full, name, None)

    def builtin(self, name):
        if name in BUILTINS:
            return Ext("builtins." + name)
        if name == "NotImplemented":
            return Ext("builtins.NotImplemented")
        if name == "Ellipsis":
            return Ellipsis
        if name == "__debug__":
            return True
        from .interp import EXC_PARENTS
        if name in EXC_PARENTS:
            return Ext("builtins." + name)
        return MISSING

    def ext_attr(self, path, name, st):
        """Attribute of an external object."""
        full = f"{path}.{name}"
        if full in ("typing.TYPE_CHECKING",):
            return False
        if path == "math" or path in ("numpy", "anp", "xp"):
            consts = {"pi": math.pi, "e": math.e, "inf": math.inf, "nan": math.nan, "Inf": math.inf,
                      "NaN": math.nan, "tau": math.tau}
            if name in consts:
                return consts[name]
        if path in ("numpy", "anp", "xp"):
            return self.ns_attr(path, name, st)
        if full == "array_api_compat.numpy":
            return Ext("anp")
        if full == "array_api_compat.array_namespace":
            return Ext("array_api_compat.array_namespace")
        if full in ("numba.float64", "numba.types.float64", "numba.double"):
            return NType("f8", 0)
        if full in ("numba.float32", "numba.types.float32"):
            return NType("f4", 0)
        if full in ("numba.int64", "numba.types.int64", "numba.intp", "numba.types.intp", "numba.int32",
                    "numba.types.int32"):
            return NType("i8", 0)
        if full in ("numba.boolean", "numba.types.boolean", "numba.b1"):
            return NType("b1", 0)
        if full == "numba.prange":
            return Ext("builtins.range")
        if path == "sys" and name in ("maxsize",):
            return 2 ** 63 - 1
        return Ext(full)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, st):
        r = self.getattr_or(o, name, st)
        if r is MISSING:
            self.I.raise_(st, "AttributeError", name)
        return r

    def getattr_or(self, o, name, st):
        I = self.I
        if isinstance(o, Ext):
            return self.ext_attr(o.path, name, st)
        if isinstance(o, ModVal):
            v = st.frames[o.frame].get(name, MISSING)
            if v is MISSING and not name.startswith("__"):
                sub = I.modules.get(o.name + "." + name)
                if sub is None and I.module_file(o.name + "." + name):
                    sub = I.load_module(o.name + "." + name, st)
                if sub is not None:
                    return sub
            return v
        if isinstance(o, EnumVal):
            if name == "value" or name == "_value_":
                return o.value
            if name == "name" or name == "_name_":
                return o.name
            if name == "__class__":
                return o.cls
            return self.class_attr(o, o.cls, name, st)
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            if name == "__members__":
                return I.new_obj(st, "dict", dict(o.members))
            extra = st.objs.get(o.id, {})
            v = extra.get(name) if isinstance(extra, dict) and name in extra else o.mro_get(name)
            if isinstance(v, ClsMethod):
                return Bound(o, v.fn)
            if isinstance(v, StatMethod):
                return v.fn
            if v is None and not self.class_has(o, name):
                return MISSING
            return v
        if isinstance(o, FuncVal):
            d = st.objs.get(o.id)
            if isinstance(d, dict) and name in d:
                return d[name]
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return SStr("doc")
            if name in ("__module__", "__qualname__"):
                return o.qual
            if name == "__defaults__":
                return tuple(o.defaults)
            if name == "__dict__":
                return Unknown("function dictionary")
            return MISSING
        if isinstance(o, Ref):
            return self.ref_attr(o, name, st)
        if isinstance(o, str) or isinstance(o, SStr):
            if hasattr("", name):
                return Bound(o, name)
            return MISSING
        if isinstance(o, (tuple, SymSeq)):
            if name in ("index", "count", "__len__", "__iter__", "__getitem__"):
                return Bound(o, name)
            return MISSING
        if isinstance(o, Arr) or (isinstance(o, SNum) and o.ns):
            return self.array_attr(o, name, st)
        if isinstance(o, (bool, int, float, SNum)):
            if name in ("real",):
                return o
            if name == "imag":
                return 0
            if name in ("is_integer", "bit_length", "as_integer_ratio", "conjugate", "numerator"):
                return Bound(o, name)
            return MISSING
        if isinstance(o, DType):
            return self.dtype_attr(o, name, st)
        if isinstance(o, Compiled):
            if name == "py_func":
                return o.fn
            d = self.getattr_or(o.fn, name, st) if name.startswith("__") or name == "rowwise_function" else MISSING
            return d
        if isinstance(o, Exc):
            if name == "args":
                return o.args
            return Unknown("exception attribute")
        if isinstance(o, Slice):
            return {"start": o.lo, "stop": o.hi, "step": o.step}.get(name, MISSING)
        if isinstance(o, Partial):
            if name in ("func", "args", "keywords"):
                return {"func": o.fn, "args": o.args, "keywords": Unknown("keywords")}[name]
            if o.kind == "partial":
                return MISSING
            if o.kind == "frozen-t":
                return Bound(o, name)
            return Bound(o, name)
        if isinstance(o, NType):
            return Unknown("numba type attribute")
        if isinstance(o, Unknown):
            return Unknown(f"attribute {name} of {o.reason}")
        if isinstance(o, Opaque):
            if name in ("rowwise_function",):
                return MISSING
            return Unknown(f"attribute {name} of {o.name}")
        if isinstance(o, PropVal):
            return Bound(o, name)
        if o is None:
            return MISSING
        return Unknown(f"attribute {name}")

    def class_has(self, c, name):
        if name in c.attrs:
            return True
        return any(isinstance(b, ClassVal) and self.class_has(b, name) for b in c.bases)

    def class_attr(self, o, cls, name, st):
        v = cls.mro_get(name)
        if v is None and not self.class_has(cls, name):
            return MISSING
        if isinstance(v, FuncVal):
            return Bound(o, v)
        if isinstance(v, PropVal):
            return self.I.call(v.fget, [o], {}, st)
        if isinstance(v, ClsMethod):
            return Bound(cls, v.fn)
        if isinstance(v, StatMethod):
            return v.fn
        return v

    def ref_attr(self, o, name, st):
        rec = st.objs[o.id]
        if o.kind == "inst":
            from .interp import Inst
            if isinstance(rec, Inst):
                if name in rec.attrs:
                    return rec.attrs[name]
                if name == "__class__":
                    return rec.cls
                if name == "__dict__":
                    return self.I.new_obj(st, "dict", dict(rec.attrs))
                if name == "_replace":
                    return Bound(o, "_replace")
                return self.class_attr(o, rec.cls, name, st)
            return Unknown("attribute of unknown object")
        if o.kind in ("list", "dict", "set", "gen", "rng"):
            return Bound(o, name)
        return Unknown(f"attribute {name} of {o.kind}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, st):
        I = self.I
        if isinstance(f, Ext):
            return self.call_ext(f.path, args, kw, st)
        if isinstance(f, Compiled):
            return self.call_compiled(f, args, kw, st)
        if isinstance(f, NType):
            return NSig(f, tuple(args))
        if isinstance(f, NTuple):
            return NSig(f, tuple(args))
        if isinstance(f, Partial):
            return self.call_partial(f, args, kw, st)
        if isinstance(f, Opaque):
            return self.call_opaque(f, args, kw, st)
        if isinstance(f, DType):
            if not args:
                return 0
            return self.to_scalar_type(args[0], f, st)
        if isinstance(f, PropVal):
            return f
        I.effect("unknown-call", st, what=repr(f), args=args)
        return Unknown(f"call of {f!r}")

    def call_partial(self, f, args, kw, st):
        I = self.I
        if f.kind == "delayed":
            return Partial(f.fn, tuple(args), tuple(kw.items()), "call")
        if f.kind == "Parallel":
            return self.run_parallel(f, args, kw, st)
        if f.kind == "cached":
            if any(isinstance(a, Arr) for a in args) or any(isinstance(a, Arr) for a in kw.values()):
                I.raise_(st, "TypeError", "unhashable")
            r = I.call(f.fn, args, kw, st)
            self.mark_cached(r, st)
            return r
        if f.kind == "njit":
            sig = f.args[0] if f.args else None
            fn = args[0]
            return Compiled(fn, sig, "njit", f.kw)
        if f.kind == "guvectorize":
            return Compiled(args[0], (f.args[0], f.args[1]), "guvectorize", f.kw)
        if f.kind == "vectorize":
            return Unknown("numba.vectorize")
        if f.kind == "dataclass":
            return self.make_dataclass(args[0], dict(f.kw))
        if f.kind == "ident":
            return args[0]
        if f.kind == "lru":
            return Partial(args[0], (), (), "cached")
        if f.kind == "attrgetter":
            v = args[0]
            for n in f.args[0].split("."):
                v = self.getattr(v, n, st)
            return v
        if f.kind == "itemgetter":
            r = tuple(I.getitem(args[0], i, st) for i in f.args)
            return r[0] if len(r) == 1 else r
        I.effect("unknown-call", st, what=f.kind, args=args)
        return Unknown(f"call of {f.kind}")

    def mark_cached(self, r, st):
        if isinstance(r, Arr):
            self.I.roots.setdefault(r.root, {})["kind"] = "cached"
        elif isinstance(r, tuple):
            for x in r:
                self.mark_cached(x, st)

    def make_dataclass(self, cls, kw):
        cls.kind = "dataclass"
        if kw.get("frozen"):
            cls.frozen = True
        return cls

    def call_opaque(self, f, args, kw, st):
        """A function given by the caller: an uninterpreted symmetric functional of its array argument."""
        I = self.I
        I.effect("user-call", st, name=f.name)
        key = []
        ns = None
        for a in args:
            if isinstance(a, Arr):
                c = I.read(a, st)
                ns = c.ns
                key += [self.c_count(c), self.c_sum(c), self.c_sum(c, 2), self.c_sum(c, 3)]
            elif is_num(a):
                key.append(self.term(a))
            else:
                return Unknown(f"result of {f.name}")
        if any(isinstance(v, (Arr, Unknown)) for v in kw.values()):
            return Unknown(f"result of {f.name}")
        for k in sorted(kw):
            key.append(tm.opq(f"kw:{k}={kw[k]!r}"))
        return self.scalar(tm.opq(f"user:{f.name}", *key), "f8", ns or "np", st)

    def call_ext(self, path, args, kw, st):
        I = self.I
        if path.startswith("builtins."):
            name = path[9:]
            from .interp import EXC_PARENTS
            if name in EXC_PARENTS:
                return Exc(name, tuple(args), I.loc())
            m = getattr(self, "b_" + name, None)
            if m is None:
                I.effect("unknown-call", st, what=path, args=args)
                return Unknown(path)
            return m(args, kw, st)
        head, _, rest = path.partition(".")
        if head in ("numpy", "anp", "xp"):
            return self.call_np(head, rest, args, kw, st)
        m = self.EXT.get(path)
        if m is not None:
            return m(self, args, kw, st)
        if head in ("typing", "typing_extensions", "collections", "abc"):
            if rest in ("TypeVar", "NewType", "Protocol", "Generic", "ParamSpec"):
                return Ext("typing.T")
            if rest == "cast":
                return args[1]
            if rest in ("overload", "final", "runtime_checkable", "no_type_check", "abstractmethod"):
                return args[0]
            if rest == "NamedTuple":
                return Unknown("named tuple")
        if head == "math":
            return self.call_math(rest, args, kw, st)
        if head == "operator":
            return self.call_operator(rest, args, kw, st)
        if head == "random":
            I.effect("global-rng", st, what=path)
            return Unknown(path)
        if head in ("time", "os", "sys", "threading", "logging", "tempfile"):
            I.effect("ambient", st, what=path)
            return Unknown(path)
        I.effect("unknown-ext", st, what=path, args=args)
        return Unknown(path)

    EXT = {}

    def call_math(self, name, args, kw, st):
        if name in ("floor", "ceil", "trunc"):
            v = args[0]
            v = self.scalar_of(v, st)
            if isinstance(v, (int, float)):
                return getattr(math, name)(v)
            if isinstance(v, SNum):
                return SNum(tm.fn(name, v.t), "int")
            return Unknown("math." + name)
        if all(isinstance(a, (int, float)) for a in args) and hasattr(math, name):
            try:
                return getattr(math, name)(*args)
            except (ValueError, OverflowError) as e:
                self.I.raise_(st, type(e).__name__)
        vs = [self.scalar_of(a, st) for a in args]
        if any(isinstance(v, Unknown) for v in vs):
            return Unknown("math." + name)
        ts = [self.term(v) for v in vs]
        if any(isinstance(v, SNum) and v.dt == "obj" for v in vs):
            self.I.effect("precision-loss", st, what=f"math.{name} of an exact number")
        if name == "sqrt":
            self.I.may_raise(st, tm.cmp("<", ts[0], tm.ZERO), "ValueError", "math domain error")
            return SNum(tm.power(ts[0], tm.HALF), "float")
        if name == "fabs":
            return SNum(tm.absv(ts[0]), "float")
        if name == "pow":
            return SNum(tm.power(ts[0], ts[1]), "float")
        if name == "log2":
            return SNum(tm.fn("log2", ts[0]), "float")
        if name in ("log", "exp", "isnan", "isinf") and len(ts) == 1:
            return SNum(tm.fn(name, ts[0]), "bool" if name.startswith("is") else "float")
        if name == "log" and len(ts) == 2:
            return SNum(tm.div(tm.fn("log", ts[0]), tm.fn("log", ts[1])), "float")
        if name == "isfinite":
            return SNum(tm.and_(tm.not_(tm.fn("isnan", ts[0])), tm.not_(tm.fn("isinf", ts[0]))), "bool")
        if name == "copysign":
            return SNum(tm.ite(tm.cmp("<", ts[1], tm.ZERO), tm.neg(tm.absv(ts[0])), tm.absv(ts[0])), "float")
        if name == "isclose":
            return SNum(self.isclose_term(ts[0], ts[1], kw.get("rel_tol", 1e-9), kw.get("abs_tol", 0.0)), "bool")
        if name == "hypot":
            return SNum(tm.power(tm.add(*[tm.ipow(t, 2) for t in ts]), tm.HALF), "float")
        if name in ("fsum", "prod", "comb"):
            if name == "comb":
                n, k = ts
                kk = tm.cval(k)
                if kk is not None and kk <= 4:
                    r = tm.ONE
                    for i in range(int(kk)):
                        r = tm.mul(r, tm.sub(n, tm.const(i)))
                    return SNum(tm.scale(tm.Fraction(1, math.factorial(int(kk))), r), "int")
        return Unknown("math." + name)

    def isclose_term(self, a, b, rtol, atol):
        d = tm.absv(tm.sub(a, b))
        m = tm.ite(tm.cmp("<", tm.absv(a), tm.absv(b)), tm.absv(b), tm.absv(a))
        t = tm.scale(tm.Fraction(rtol), m)
        t = tm.ite(tm.cmp("<", t, tm.const(atol)), tm.const(atol), t)
        return tm.cmp("<=", d, t)

    def call_operator(self, name, args, kw, st):
        m = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod",
             "pow": "Pow", "matmul": "MatMult", "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor"}
        c = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is",
             "is_not": "IsNot"}
        if name in m:
            return self.I.binop(m[name], args[0], args[1], st)
        if name in c:
            return self.compare(c[name], args[0], args[1], st)
        im = {"iadd": "Add", "isub": "Sub", "imul": "Mult", "itruediv": "Div", "ipow": "Pow"}
        if name in im:
            return self.I.inplace(im[name], args[0], args[1], st)
        if name == "neg":
            return self.unary("USub", args[0], st)
        if name == "not_":
            return self.I.mkbool(tm.not_(self.I.cond(args[0], st)), st)
        if name == "contains":
            return self.compare("In", args[1], args[0], st)
        if name == "getitem":
            return self.I.getitem(args[0], args[1], st)
        if name == "attrgetter":
            return Partial(None, (args[0],), (), "attrgetter")
        if name == "itemgetter":
            return Partial(None, tuple(args), (), "itemgetter")
        return Unknown("operator." + name)

    # ------------------------------------------------------------ builtins
    def b_len(self, args, kw, st):
        v = args[0]
        I = self.I
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, SymSeq):
            return self.dimval(v.dim)
        if isinstance(v, Arr):
            if not v.dims:
                I.raise_(st, "TypeError", "len of unsized object")
            return self.dimval(v.dims[0])
        if isinstance(v, Ref):
            rec = st.objs[v.id]
            if v.kind in ("list", "dict", "set"):
                if isinstance(rec, SymSeq):
                    return self.dimval(rec.dim)
                if v.kind == "set" and isinstance(rec, list) and I.set_items(rec, st) is None:
                    t = I.set_len(rec)
                    return SNum(I.unk("len") if t is None else t, "int")
                if isinstance(rec, (list, dict)):
                    return len(rec)
                if isinstance(rec, FiltList):
                    return SNum(tm.add(*[tm.ite(c, tm.ONE, tm.ZERO) for c, _ in rec.items]), "int")
                if isinstance(rec, FiltSeq):
                    return SNum(tm.sum_(rec.var, rec.dim, rec.cond), "int")
                return SNum(I.unk("len"), "int")
            if v.kind == "inst":
                m = self.getattr_or(v, "__len__", st)
                if m is not MISSING:
                    return I.call(m, [], {}, st)
            I.raise_(st, "TypeError", "no len")
        if isinstance(v, ClassVal) and v.kind == "enum":
            return len(v.members)
        if isinstance(v, Unknown):
            return SNum(I.unk("len of " + v.reason), "int")
        I.raise_(st, "TypeError", "no len")

    def dimval(self, d):
        c = tm.cval(d)
        if c is not None:
            return int(c)
        return SNum(d, "int")

    def b_range(self, args, kw, st):
        I = self.I
        if len(args) == 1:
            lo, hi, step = 0, args[0], 1
        else:
            lo, hi = args[0], args[1]
            step = args[2] if len(args) > 2 else 1
        lo, hi, step = (self.scalar_of(x, st) for x in (lo, hi, step))
        if all(isinstance(x, int) for x in (lo, hi, step)):
            if step == 0:
                I.raise_(st, "ValueError")
            r = range(lo, hi, step)
            if len(r) <= 64:
                return tuple(r)
        if any(isinstance(x, float) for x in (lo, hi, step)) or any(
                isinstance(x, SNum) and x.dt in ("float", "f8", "f4") for x in (lo, hi, step)):
            I.raise_(st, "TypeError", "float is not an integer")
        if any(not is_num(x) for x in (lo, hi, step)):
            return Unknown("range of unknown")
        tl, th, ts = self.term(lo), self.term(hi), self.term(step)
        s = tm.cval(ts)
        d = tm.sub(th, tl)
        if s is None:
            d = tm.neg(tm.fn("floordiv", tm.neg(d), ts))
        elif s < 0:
            d = tm.neg(d)
            s = -s
            if s != 1:
                d = tm.fn("floordiv", tm.add(d, tm.const(s - 1)), tm.const(s))
        elif s != 1:
            d = tm.fn("floordiv", tm.add(d, tm.const(s - 1)), tm.const(s))
        d = self.max0(d, st)
        dv = tm.cval(d)
        if dv is not None and dv <= 64:
            return tuple(self.num(tm.add(tl, tm.scale(k, ts)), "int") for k in range(int(dv)))
        v = tm.fresh("i")
        I.bounds[v.a[0]] = (0, I.term_bounds(d)[1])
        return SymSeq(v, d, self.num(tm.add(tl, tm.mul(ts, v)), "int"))

    def num(self, t, dt, ns=None):
        c = tm.cval(t)
        if c is not None and ns is None:
            if dt == "int" and c == int(c):
                return int(c)
            if dt == "bool":
                return bool(c)
            if dt == "float" and isinstance(c, int) and abs(c) < 2 ** 53:
                return float(c)
        return SNum(t, dt, ns)

    def seqs(self, vals, st):
        """Iterate several values together: list of tuples or SymSeq of a tuple."""
        I = self.I
        its = []
        for v in vals:
            if isinstance(v, Phi):
                v = I.resolve_phi_iter(v, st)
            its.append(I.iterate(v, st))
        if any(x is None for x in its):
            return None
        if all(isinstance(x, list) for x in its):
            ns = {len(x) for x in its}
            if len(ns) > 1:
                I.effect("zip-truncate", st, lens=sorted(ns))
            return [tuple(x) for x in zip(*its)]
        sy = [x for x in its if isinstance(x, SymSeq)]
        dim = sy[0].dim
        for x in sy[1:]:
            if x.dim is not dim:
                c = tm.cmp("<", x.dim, dim)
                d = I.decide(c, st)
                eq = I.decide(tm.cmp("==", x.dim, dim), st)
                if eq is not True:
                    I.effect("zip-truncate", st, lens=[dim, x.dim])
                dim = x.dim if d is True else dim if d is False else tm.ite(c, x.dim, dim)
        v = sy[0].var
        out = []
        for x in its:
            if isinstance(x, SymSeq):
                out.append(I.inst_value(x.value, x.var, v, st) if x.var is not v else x.value)
            else:
                # shorter concrete list: bounded by its length
                n = len(x)
                if I.decide(tm.cmp("<=", tm.const(n), dim), st) is True:
                    I.effect("zip-truncate", st, lens=[n, dim])
                    ok = []
                    for k in range(n):
                        ok.append(tuple(I.inst_value(y.value, y.var, tm.const(k), st) if isinstance(y, SymSeq)
                                        else y[k] for y in its))
                    return ok
                return None
        return SymSeq(v, dim, tuple(out))

    def gen(self, r, st):
        if r is None:
            return self.I.new_obj(st, "gen", Unknown("iteration over unknown"))
        return self.I.new_obj(st, "gen", (r if isinstance(r, SymSeq) else tuple(r), False))

    def b_zip(self, args, kw, st):
        s = kw.get("strict")
        if s:
            its = [self.seq_len(a, st) for a in args]
            for x in its[1:]:
                if x is not None and its[0] is not None:
                    self.I.may_raise(st, tm.cmp("!=", x, its[0]), "ValueError", "zip")
        return self.gen(self.seqs(args, st) if args else [], st)

    def seq_len(self, v, st):
        if isinstance(v, (tuple, str)):
            return tm.const(len(v))
        if isinstance(v, SymSeq):
            return v.dim
        if isinstance(v, Arr) and v.dims:
            return v.dims[0]
        if isinstance(v, Ref) and v.kind in ("list", "dict"):
            rec = st.objs[v.id]
            return rec.dim if isinstance(rec, SymSeq) else tm.const(len(rec)) if isinstance(rec, (list, dict)) else None
        return None

    def b_enumerate(self, args, kw, st):
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        seq = self.I.iterate(args[0], st)
        if seq is None:
            return self.gen(None, st)
        if isinstance(seq, list):
            return self.gen([(self.binary("Add", i, start, st), x) for i, x in enumerate(seq)], st)
        return self.gen(SymSeq(seq.var, seq.dim, (self.num(tm.add(seq.var, self.term(start)), "int"), seq.value)), st)

    def b_map(self, args, kw, st):
        s = self.seqs(args[1:], st)
        if s is None:
            return self.gen(None, st)
        if isinstance(s, list):
            return self.gen([self.I.call(args[0], list(x), {}, st) for x in s], st)

        def run(x):
            return x, self.I.call(args[0], list(s.value), {}, x)
        val = self.I.sym_loop(st, s.var, s.dim, run)
        return self.gen(SymSeq(s.var, s.dim, val), st)

    def b_filter(self, args, kw, st):
        seq = self.I.iterate(args[1], st)
        if not isinstance(seq, list):
            return self.gen(None, st)
        out = []
        for x in seq:
            c = self.I.cond(x if args[0] is None else self.I.call(args[0], [x], {}, st), st)
            d = self.I.decide(c, st)
            if d is None:
                return self.gen(None, st)
            if d:
                out.append(x)
        return self.gen(out, st)

    def b_sorted(self, args, kw, st):
        seq = self.I.iterate(args[0], st)
        if isinstance(seq, list) and not kw.get("key") and all(isinstance(x, (int, float, str)) for x in seq):
            return self.I.new_list(st, sorted(seq, reverse=bool(kw.get("reverse", False))))
        return Unknown("sorted")

    def b_reversed(self, args, kw, st):
        seq = self.I.iterate(args[0], st)
        if isinstance(seq, list):
            return self.gen(seq[::-1], st)
        if isinstance(seq, SymSeq):
            return self.gen(SymSeq(seq.var, seq.dim, self.I.inst_value(
                seq.value, seq.var, tm.sub(tm.sub(seq.dim, tm.ONE), seq.var), st)), st)
        return self.gen(None, st)

    def b_sum(self, args, kw, st):
        start = args[1] if len(args) > 1 else kw.get("start", 0)
        f = self.I.filtered(args[0], st)
        if isinstance(f, FiltList) and all(is_num(x) for _, x in f.items):
            r = start
            for c, x in f.items:
                y = self.I.binop("Add", r, x, st)
                if not (is_num(y) and is_num(r)):
                    return Unknown("sum")
                dt, ns = self.ntype(y)
                r = SNum(tm.ite(c, self.term(y), self.term(r)), dt, ns)
            return r
        if isinstance(f, FiltSeq) and is_num(f.value):
            v = f.value
            t = tm.add(self.term(start), tm.sum_(f.var, f.dim, tm.ite(f.cond, self.term(v), tm.ZERO)))
            dt, ns = self.ntype(v)
            return SNum(t, "int" if dt in ("bool", "b1") else dt, ns)
        seq = self.I.iterate(args[0], st)
        if isinstance(seq, list):
            r = start
            for x in seq:
                r = self.I.binop("Add", r, x, st)
            return r
        if isinstance(seq, SymSeq):
            v = seq.value
            if is_num(v):
                t = tm.add(self.term(start), tm.sum_(seq.var, seq.dim, self.term(v)))
                dt = v.dt if isinstance(v, SNum) else "int" if isinstance(v, int) else "float"
                if dt in ("bool", "b1"):
                    dt = "int"
                return SNum(t, dt, v.ns if isinstance(v, SNum) else None)
            if isinstance(v, Arr):
                c = self.I.read(v, st)
                if c.mask is None:
                    return self.mk(st, c.dims, c.vars, tm.add(self.term(start), tm.sum_(seq.var, seq.dim, c.body)),
                                   c.dt, c.ns)
        return Unknown("sum")

    def minmax(self, which, args, kw, st):
        if len(args) == 1:
            if isinstance(args[0], Arr) and len(args[0].dims) == 1:
                return self.call_np("numpy" if self.I.read(args[0], st).ns == "np" else "xp", which, [args[0]], {}, st)
            seq = self.I.iterate(args[0], st)
            if isinstance(seq, SymSeq) and is_num(seq.value):
                v = seq.value
                t = tm.extremum("a" + which, seq.var, seq.dim, self.term(v))
                return SNum(t, v.dt if isinstance(v, SNum) else "int", v.ns if isinstance(v, SNum) else None)
            if not isinstance(seq, list):
                return Unknown(which)
            if not seq:
                if "default" in kw:
                    return kw["default"]
                self.I.raise_(st, "ValueError")
        else:
            seq = list(args)
        if kw.get("key"):
            return Unknown(which + " with key")
        if all(isinstance(x, (int, float)) for x in seq):
            return min(seq) if which == "min" else max(seq)
        r = seq[0]
        for x in seq[1:]:
            a, b = self.scalar_of(r, st), self.scalar_of(x, st)
            if not is_num(a) or not is_num(b):
                return Unknown(which)
            ta, tb = self.term(a), self.term(b)
            # python: max keeps the first unless the new one is larger
            c = tm.cmp("<", ta, tb) if which == "max" else tm.cmp("<", tb, ta)
            d = self.I.decide(c, st)
            if d is not None:
                r = x if d else r
                continue
            (d1, n1), (d2, n2) = self.ntype(a), self.ntype(b)
            dt = d1 if d1 == d2 else self.promote(d1, d2)
            r = SNum(tm.ite(c, tb, ta), dt, n1 or n2)
        return r

    def b_min(self, args, kw, st):
        return self.minmax("min", args, kw, st)

    def b_max(self, args, kw, st):
        return self.minmax("max", args, kw, st)

    def b_abs(self, args, kw, st):
        v = args[0]
        if isinstance(v, (int, float)):
            return abs(v)
        return self.np_unary("abs", v, st)

    def b_any(self, args, kw, st):
        return self.anyall(args, st, True)

    def b_all(self, args, kw, st):
        return self.anyall(args, st, False)

    def anyall(self, args, st, isany):
        if isinstance(args[0], Arr):
            return self.call_np("numpy", "any" if isany else "all", [args[0]], {}, st)
        f = self.I.filtered(args[0], st)
        if isinstance(f, FiltList):
            cs = [tm.and_(c, self.I.cond(x, st)) if isany else tm.or_(tm.not_(c), self.I.cond(x, st)) for c, x in f.items]
            return self.I.mkbool(tm.or_(*cs) if isany else tm.and_(*cs), st)
        if f is not None:
            c = self.I.cond(f.value, st)
            c = tm.cmp("<", tm.ZERO, tm.sum_(f.var, f.dim, tm.and_(f.cond, c if isany else tm.not_(c))))
            return self.I.mkbool(c if isany else tm.not_(c), st)
        seq = self.I.iterate(args[0], st)
        if isinstance(seq, SymSeq):
            c = self.I.cond(seq.value, st)
            s = tm.sum_(seq.var, seq.dim, c if isany else tm.not_(c))
            c = tm.cmp("<", tm.ZERO, s)
            return self.I.mkbool(c if isany else tm.not_(c), st)
        if seq is None:
            return SNum(self.I.unk("any/all"), "bool")
        cs = [self.I.cond(x, st) for x in seq]
        return self.I.mkbool(tm.or_(*cs) if isany else tm.and_(*cs), st)

    def b_isinstance(self, args, kw, st):
        v, t = args
        ts = t if isinstance(t, tuple) else (t,)
        res = False
        for x in ts:
            r = self.isinst(v, x, st)
            if r is None:
                return SNum(self.I.unk(f"isinstance {x!r}"), "bool")
            res = res or r
        return res

    def isinst(self, v, t, st):
        if isinstance(v, Unknown):
            return None
        if isinstance(t, ClassVal):
            if isinstance(v, EnumVal):
                return v.cls.is_sub(t)
            if isinstance(v, Ref) and v.kind == "inst":
                return st.objs[v.id].cls.is_sub(t)
            return False
        if isinstance(t, DType):
            return isinstance(v, SNum) and v.ns == "np" and v.dt == t.dt
        if isinstance(t, tuple):
            rs = [self.isinst(v, x, st) for x in t]
            return True if True in rs else None if None in rs else False
        if not isinstance(t, Ext):
            return None
        p = t.path
        n = p.split(".")[-1]
        ns = None
        if isinstance(v, Arr):
            ns = st.heap[v.root].ns
            if n == "ndarray":
                return ns == "np"
            return False if p.startswith(("builtins.", "numpy.", "numbers.", "enum.")) else None
        if isinstance(v, SNum) and v.ns:
            if n == "ndarray":
                return False
            if n == "generic":
                return v.ns == "np"
            if p == "builtins.float":
                return v.dt == "f8" and v.ns == "np"
            if p in ("builtins.int", "builtins.bool", "builtins.str", "builtins.list", "builtins.tuple"):
                return False
            if n in ("Number", "Real"):
                return True
            if n in ("floating", "inexact"):
                return v.dt in ("f8", "f4")
            if n in ("integer", "Integral", "signedinteger"):
                return v.dt in ("i8", "di", "i2", "i4")
            if n == "number":
                return True
            return False if p.startswith("builtins.") else None
        if isinstance(v, (bool, int, float, SNum)):
            dt = self.ntype(v)[0]
            if p == "builtins.bool":
                return dt == "bool"
            if p == "builtins.int":
                return dt in ("int", "bool")
            if p == "builtins.float":
                return dt == "float"
            if n in ("Number", "Real", "Complex"):
                return True
            if n in ("Integral", "Rational"):
                return dt in ("int", "bool")
            return False
        if isinstance(v, (str, SStr)):
            return p == "builtins.str" or p == "builtins.object"
        if isinstance(v, tuple):
            return p in ("builtins.tuple", "builtins.object") or n in ("Sequence", "Iterable", "Collection")
        if isinstance(v, Ref):
            if v.kind == "rng":
                src = st.objs[v.id][1]
                kind = src[0]
                if n == "RandomState":
                    return src[-1] == "RandomState"
                if n == "Generator":
                    return src[-1] == "Generator" and p.startswith("numpy")
                return False
            if v.kind in ("list", "dict", "set"):
                return p == "builtins." + v.kind or n in ("Sequence", "Iterable", "Collection", "MutableSequence")
            if v.kind == "gen":
                return n in ("Iterator", "Iterable", "Generator", "GeneratorType") and p != "numpy.random.Generator"
            return False
        if v is None:
            return n == "NoneType"
        if isinstance(v, Exc):
            from .interp import EXC_PARENTS
            return n in EXC_PARENTS.get(v.name, [])
        if isinstance(v, (FuncVal, Bound, Compiled, Opaque, Partial)):
            return n in ("Callable", "FunctionType")
        if isinstance(v, EnumVal):
            return n in ("Enum", "object")
        if isinstance(v, Slice):
            return p == "builtins.slice"
        if isinstance(v, SymSeq):
            return p in ("builtins.tuple",)
        return None

    def b_issubclass(self, args, kw, st):
        if isinstance(args[0], ClassVal) and isinstance(args[1], ClassVal):
            return args[0].is_sub(args[1])
        return SNum(self.I.unk("issubclass"), "bool")

    def b_getattr(self, args, kw, st):
        if not isinstance(args[1], str):
            return Unknown("getattr with a computed name")
        if isinstance(args[0], Phi):
            return self.I.with_phi(st, [args[0]], lambda s, vs: self.b_getattr([vs[0]] + list(args[1:]), kw, s))
        o, name = args[0], args[1]
        I = self.I
        I.collectors.append([])
        try:
            try:
                r = self.getattr_or(o, name, st)
            except Abort_() as e:
                r = MISSING
        finally:
            raised = I.collectors.pop()
        for s, exc in raised:
            if exc.name != "AttributeError":
                I.collectors[-1].append((s, exc))
                raise Abort_()()
        if r is MISSING:
            if len(args) > 2:
                return args[2]
            I.raise_(st, "AttributeError", name)
        return r

    def b_hasattr(self, args, kw, st):
        r = self.b_getattr([args[0], args[1], MISSING], {}, st)
        return r is not MISSING

    def b_setattr(self, args, kw, st):
        if isinstance(args[1], str):
            self.I.setattr_(args[0], args[1], args[2], st)

    def b_callable(self, args, kw, st):
        return isinstance(args[0], (FuncVal, Bound, Compiled, Opaque, Partial, ClassVal, Ext))

    def b_print(self, args, kw, st):
        return None

    def b_id(self, args, kw, st):
        return SNum(self.I.unk("id"), "int")

    def b_hash(self, args, kw, st):
        return SNum(self.I.unk("hash"), "int")

    def b_iter(self, args, kw, st):
        if isinstance(args[0], Ref) and args[0].kind == "gen":
            return args[0]
        if isinstance(args[0], Ref) and args[0].kind == "inst":
            m = self.getattr_or(args[0], "__iter__", st)
            if m is not MISSING:
                return self.I.call(m, [], {}, st)
        return self.gen(self.I.iterate(args[0], st), st)

    def b_next(self, args, kw, st):
        g = args[0]
        if isinstance(g, Ref) and g.kind == "gen":
            rec = st.objs[g.id]
            if not isinstance(rec, Unknown):
                items, used = rec
                if used or (isinstance(items, tuple) and not items):
                    if len(args) > 1:
                        return args[1]
                    self.I.raise_(st, "StopIteration")
                if isinstance(items, tuple):
                    self.I.write_obj(st, g, (items[1:], False))
                    return items[0]
                first = self.I.inst_value(items.value, items.var, tm.ZERO, st)
                rest = SymSeq(items.var, tm.sub(items.dim, tm.ONE),
                              self.I.inst_value(items.value, items.var, tm.add(items.var, tm.ONE), st))
                self.I.write_obj(st, g, (rest, False))
                return first
        return Unknown("next")

    def b_repr(self, args, kw, st):
        return SStr("repr")

    b_format = b_repr

    def b_str(self, args, kw, st):
        if not args:
            return ""
        v = args[0]
        if isinstance(v, str):
            return v
        if isinstance(v, (bool, int, float)):
            return str(v)
        if isinstance(v, EnumVal) and v.cls.mro_get("__str__") is None:
            return f"{v.cls.name}.{v.name}"
        return SStr("str")

    def b_slice(self, args, kw, st):
        a = list(args)
        if len(a) == 1:
            return Slice(None, a[0], None)
        return Slice(a[0], a[1], a[2] if len(a) > 2 else None)

    def b_property(self, args, kw, st):
        return PropVal(args[0])

    def b_classmethod(self, args, kw, st):
        return ClsMethod(args[0])

    def b_staticmethod(self, args, kw, st):
        return StatMethod(args[0])

    def b_divmod(self, args, kw, st):
        return (self.binary("FloorDiv", args[0], args[1], st), self.binary("Mod", args[0], args[1], st))

    def b_pow(self, args, kw, st):
        return self.I.binop("Pow", args[0], args[1], st)

    def b_round(self, args, kw, st):
        v = self.scalar_of(args[0], st)
        if isinstance(v, (int, float)):
            return round(*args)
        if isinstance(v, SNum):
            if len(args) > 1:
                return SNum(tm.fn("round", v.t, self.term(args[1])), v.dt, v.ns)
            return SNum(tm.fn("round", v.t), "int")
        return Unknown("round")

    def b_list(self, args, kw, st):
        if not args:
            return self.I.new_list(st, [])
        seq = self.I.iterate(args[0], st)
        if isinstance(seq, list):
            return self.I.new_list(st, seq)
        if isinstance(seq, SymSeq):
            return self.I.new_obj(st, "list", seq)
        return self.I.new_obj(st, "list", Unknown("list of unknown"))

    def b_tuple(self, args, kw, st):
        if not args:
            return ()
        if isinstance(args[0], Unknown):
            return args[0]
        seq = self.I.iterate(args[0], st)
        if isinstance(seq, list):
            return tuple(seq)
        if isinstance(seq, SymSeq):
            return seq
        return Unknown("tuple of unknown")

    def b_set(self, args, kw, st):
        seq = self.I.iterate(args[0], st) if args else []
        out = []
        if not isinstance(seq, list):
            return Unknown("set")
        return self.I.new_set(st, seq)

    b_frozenset = b_set

    def b_dict(self, args, kw, st):
        d = {}
        if args:
            a = args[0]
            if isinstance(a, Ref) and a.kind == "dict":
                if not isinstance(st.objs[a.id], dict):
                    return Unknown("dict")
                d.update(st.objs[a.id])
            else:
                seq = self.I.iterate(a, st)
                if not isinstance(seq, list):
                    return Unknown("dict")
                for x in seq:
                    k, v = self.I.unpack(x, 2, st)
                    d[k] = v
        d.update(kw)
        return self.I.new_obj(st, "dict", d)

    def b_int(self, args, kw, st):
        if not args:
            return 0
        v = self.scalar_of(args[0], st)
        if isinstance(v, (int, float)):
            return int(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                self.I.raise_(st, "ValueError")
        if isinstance(v, SNum):
            if tm.is_int_term(v.t) or v.dt in ("int", "i8", "bool", "b1", "di", "du", "i2", "u2", "i4", "u4"):
                return self.num(v.t, "int")
            return self.num(tm.fn("trunc", v.t), "int")
        if isinstance(v, Arr):
            self.I.raise_(st, "TypeError", "only length-1 arrays can be converted")
        return Unknown("int()")

    def b_float(self, args, kw, st):
        if not args:
            return 0.0
        v = self.scalar_of(args[0], st)
        if isinstance(v, (bool, int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                self.I.raise_(st, "ValueError")
        if isinstance(v, SNum):
            if v.dt == "obj":
                self.I.effect("precision-loss", st, what="exact number converted to float")
            return SNum(v.t, "float")
        if isinstance(v, Arr):
            self.I.raise_(st, "TypeError", "only length-1 arrays can be converted")
        return Unknown("float()")

    def b_bool(self, args, kw, st):
        if not args:
            return False
        return self.I.mkbool(self.I.cond(args[0], st), st)

    def b_object(self, args, kw, st):
        return self.I.new_obj(st, "inst", Unknown("object"))

    def b_type(self, args, kw, st):
        v = args[0]
        if isinstance(v, EnumVal):
            return v.cls
        if isinstance(v, Ref) and v.kind == "inst":
            return st.objs[v.id].cls
        if isinstance(v, Arr):
            return Ext("numpy.ndarray") if st.heap[v.root].ns == "np" else Ext("xp.Array")
        if isinstance(v, (bool, int, float, str, tuple)):
            return Ext("builtins." + type(v).__name__)
        if isinstance(v, SNum):
            return DType(v.dt) if v.ns else Ext("builtins." + v.dt)
        if v is None:
            return Ext("types.NoneType")
        return Unknown("type()")

    def scalar_of(self, v, st):
        """0-d or size-1 arrays to scalars."""
        if isinstance(v, Arr):
            c = self.I.read(v, st)
            if all(tm.cval(d) == 1 for d in c.dims) and c.mask is None:
                return SNum(tm.subst(c.body, {x.a[0]: tm.ZERO for x in c.vars}), c.dt, c.ns)
        if isinstance(v, Phi):
            a, b = self.scalar_of(v.a, st), self.scalar_of(v.b, st)
            if is_num(a) and is_num(b):
                (d1, n1), (d2, n2) = self.ntype(a), self.ntype(b)
                return SNum(tm.ite(v.c, self.term(a), self.term(b)), d1 if d1 == d2 else self.promote(d1, d2), n1 or n2)
        return v

    def ntype(self, v):
        if isinstance(v, SNum):
            return v.dt, v.ns
        if isinstance(v, bool):
            return "bool", None
        if isinstance(v, int):
            return "int", None
        return "float", None

    def term(self, v):
        if isinstance(v, SNum):
            return v.t
        if isinstance(v, (bool, int, float)):
            return tm.const(v)
        raise TypeError(v)

    # ------------------------------------------------------------ methods
    def call_method(self, o, name, args, kw, st):
        I = self.I
        if isinstance(o, Arr) or (isinstance(o, SNum) and o.ns):
            return self.array_method(o, name, args, kw, st)
        if isinstance(o, str):
            return self.str_method(o, name, args, kw, st)
        if isinstance(o, SStr):
            return SStr(name)
        if isinstance(o, tuple):
            if name == "index":
                for i, x in enumerate(o):
                    if self.py_eq(x, args[0]) is True:
                        return i
                I.raise_(st, "ValueError")
            if name == "count":
                return sum(1 for x in o if self.py_eq(x, args[0]) is True)
            if name == "__len__":
                return len(o)
            if name == "__iter__":
                return self.gen(list(o), st)
            if name == "__getitem__":
                return I.getitem(o, args[0], st)
        if isinstance(o, Ref):
            m = getattr(self, f"m_{o.kind}", None)
            if m:
                return m(o, name, args, kw, st)
        if isinstance(o, (bool, int, float)):
            if name == "bit_length":
                return int(o).bit_length()
            if name == "is_integer":
                return float(o).is_integer()
            return Unknown(name)
        if isinstance(o, SNum):
            if name == "bit_length":
                return SNum(tm.fn("bitlength", o.t), "int")
            return Unknown(name)
        if isinstance(o, Partial):
            if o.kind == "frozen-t":
                k = dict(o.kw)
                return self.t_dist(name, [args[0]] + list(o.args), {**k, **kw}, st)
            if o.kind == "frozen-norm":
                return self.norm_dist(name, [args[0]] + list(o.args), {**dict(o.kw), **kw}, st)
            if o.kind == "Parallel":
                return Unknown("Parallel method")
        if isinstance(o, PropVal):
            return o
        I.effect("unknown-call", st, what=f"method {name} of {o!r}", args=args)
        return Unknown(f"method {name}")

    def str_method(self, o, name, args, kw, st):
        if name == "join":
            seq = self.I.iterate(args[0], st)
            if isinstance(seq, list) and all(isinstance(x, str) for x in seq):
                return o.join(seq)
            return SStr("join")
        if name == "format":
            if all(isinstance(x, (str, int, float)) for x in list(args) + list(kw.values())):
                return o.format(*args, **kw)
            return SStr("format")
        if all(isinstance(x, (str, int, tuple)) or x is None for x in args):
            try:
                r = getattr(o, name)(*args, **kw)
            except Exception as e:
                self.I.raise_(st, type(e).__name__)
            if isinstance(r, list):
                return self.I.new_list(st, r)
            return r
        return SStr(name)

    def m_list(self, o, name, args, kw, st):
        I = self.I
        rec = st.objs[o.id]
        if isinstance(rec, (Unknown, SymSeq)) and name in ("append", "extend", "insert", "pop", "sort", "reverse",
                                                           "clear", "remove"):
            I.write_obj(st, o, Unknown("list of unknown contents"))
            return Unknown("list method") if name == "pop" else None
        if isinstance(rec, SymSeq):
            if name == "copy":
                return I.new_obj(st, "list", rec)
            return Unknown("list method")
        if isinstance(rec, Unknown):
            return rec
        if name == "append":
            I.write_obj(st, o, rec + [args[0]])
        elif name == "extend":
            seq = I.iterate(args[0], st)
            if isinstance(seq, list):
                I.write_obj(st, o, rec + seq)
            elif isinstance(seq, SymSeq) and not rec:
                I.write_obj(st, o, seq)
            else:
                I.write_obj(st, o, Unknown("extend"))
        elif name == "insert":
            r = list(rec)
            if isinstance(args[0], int):
                r.insert(args[0], args[1])
                I.write_obj(st, o, r)
            else:
                I.write_obj(st, o, Unknown("insert"))
        elif name == "pop":
            i = args[0] if args else -1
            if not isinstance(i, int):
                I.write_obj(st, o, Unknown("pop"))
                return Unknown("pop")
            if not rec:
                I.raise_(st, "IndexError")
            r = list(rec)
            v = r.pop(i)
            I.write_obj(st, o, r)
            return v
        elif name == "clear":
            I.write_obj(st, o, [])
        elif name == "reverse":
            I.write_obj(st, o, rec[::-1])
        elif name == "copy":
            return I.new_list(st, rec)
        elif name == "index":
            for i, x in enumerate(rec):
                if self.py_eq(x, args[0]) is True:
                    return i
            I.raise_(st, "ValueError")
        elif name == "count":
            return sum(1 for x in rec if self.py_eq(x, args[0]) is True)
        elif name == "sort":
            if all(isinstance(x, (int, float, str)) for x in rec) and not kw:
                I.write_obj(st, o, sorted(rec))
            else:
                I.write_obj(st, o, Unknown("sort"))
        else:
            return Unknown("list." + name)
        return None

    def m_dict(self, o, name, args, kw, st):
        I = self.I
        rec = st.objs[o.id]
        if not isinstance(rec, dict):
            if name in ("setdefault", "update", "pop", "clear"):
                I.write_obj(st, o, rec)
            return Unknown("dict")
        if name == "get":
            if self.hashable(args[0]):
                return rec.get(args[0], args[1] if len(args) > 1 else None)
            return Unknown("dict.get")
        if name == "keys":
            return tuple(rec)
        if name == "values":
            return tuple(rec.values())
        if name == "items":
            return tuple(rec.items())
        if name == "copy":
            return I.new_obj(st, "dict", dict(rec))
        if name == "pop":
            d = dict(rec)
            if args[0] in d:
                v = d.pop(args[0])
                I.write_obj(st, o, d)
                return v
            if len(args) > 1:
                return args[1]
            I.raise_(st, "KeyError")
        if name == "setdefault":
            if self.hashable(args[0]) and args[0] in rec:
                return rec[args[0]]
            d = dict(rec)
            v = args[1] if len(args) > 1 else None
            if self.hashable(args[0]):
                d[args[0]] = v
                I.write_obj(st, o, d)
            else:
                I.write_obj(st, o, Unknown("dict"))
            return v
        if name == "update":
            d = dict(rec)
            if args and isinstance(args[0], Ref) and isinstance(st.objs[args[0].id], dict):
                d.update(st.objs[args[0].id])
            d.update(kw)
            I.write_obj(st, o, d)
            return None
        if name == "clear":
            I.write_obj(st, o, {})
            return None
        return Unknown("dict." + name)

    def m_set(self, o, name, args, kw, st):
        rec = st.objs[o.id]
        if name == "add" and isinstance(rec, list):
            if args[0] not in rec:
                self.I.write_obj(st, o, rec + [args[0]])
            return None
        return Unknown("set." + name)

    def m_gen(self, o, name, args, kw, st):
        if name == "__next__":
            return self.b_next([o], {}, st)
        return Unknown("generator." + name)

    def m_inst(self, o, name, args, kw, st):
        from .interp import Inst
        rec = st.objs[o.id]
        if name == "_replace" and isinstance(rec, Inst):
            return self.I.new_obj(st, "inst", Inst(rec.cls, {**rec.attrs, **kw}))
        return Unknown("instance method")

    # ------------------------------------------------------------ random numbers
    def new_rng(self, args, kw, st, kind):
        seed = args[0] if args else kw.get("seed")
        if isinstance(seed, Ref) and seed.kind == "rng" and kind == "Generator":
            return seed
        if seed is None:
            key = "entropy"
        elif isinstance(seed, (int, str)):
            key = repr(seed)
        elif isinstance(seed, SNum):
            key = tm.show(seed.t)
        else:
            key = "?" + repr(seed)
            if isinstance(seed, Ref) and seed.kind == "rng":
                self.I.raise_(st, "TypeError", "seed")
        self.I.effect("new-rng", st, seed=seed, cls=kind)
        return self.I.new_obj(st, "rng", ("rng", ("private", key, kind), 0, ()))

    def draw(self, o, st, what):
        """Advance an rng; returns (source name, draw args)."""
        rec = st.objs[o.id]
        _, src, count, lv = rec
        self.I.effect("draw", st, src=src, count=count, loop=lv, what=what)
        self.I.write_obj_rng(st, o, ("rng", src, count + 1, lv))
        return repr(src[:2]), (tm.const(count),) + tuple(lv)

    GEN_ONLY = ("integers", "permuted", "spawn")
    STATE_ONLY = ("randint", "rand", "randn", "random_sample", "random_integers", "tomaxint", "seed", "get_state",
                  "set_state")

    def rand_size(self, v, st):
        """Shape given by a size argument, or None."""
        if v is None:
            return ()
        if isinstance(v, Ref) and v.kind == "list":
            v = tuple(I for I in self.I.iterate(v, st) or [])
        if isinstance(v, tuple):
            ts = [self.scalar_of(x, st) for x in v]
            return tuple(self.term(x) for x in ts) if all(is_num(x) for x in ts) else None
        v = self.scalar_of(v, st)
        return (self.term(v),) if is_num(v) else None

    def rand_array(self, name, dims, src, da, st, post, dt):
        """Array of independent draws: post(uniform term in [0, 1))."""
        vs = tuple(tm.fresh("i") for _ in dims)
        u = tm.sub(tm.opq("rand:" + name + ":" + src, *da, *vs), tm.HALF)
        return self.mk(st, dims, vs, post(u), dt, "np") if dims else SNum(post(u), dt, "np")

    def m_rng(self, o, name, args, kw, st):
        I = self.I
        cls = st.objs[o.id][1][-1]
        if cls == "Generator" and name in self.STATE_ONLY or cls == "RandomState" and name in self.GEN_ONLY:
            I.raise_(st, "AttributeError", name)
        if name == "choice" and args:
            pop = self.scalar_of(args[0], st)
            size = self.rand_size(args[1] if len(args) > 1 else kw.get("size"), st)
            rep = args[2] if len(args) > 2 else kw.get("replace", True)
            src, da = self.draw(o, st, "choice" if rep else "choice without replacement")
            if size is not None and isinstance(rep, bool):
                c = self.content(pop, st) if isinstance(pop, Arr) else None
                n = c.dims[0] if c is not None and c.dims else self.term(pop) if is_num(pop) else None
                if n is not None and not rep and len(size) == 1:
                    # a prefix of a uniform permutation
                    full = self.permutation(pop, src, da, st)
                    if isinstance(full, Arr):
                        return self.getitem(full, Slice(None, SNum(size[0], "int"), None), st)
                if n is not None and rep:
                    ix = self.rand_array("choice", size, src, da, st, lambda u: tm.fn("floor", tm.mul(n, u)), "i8")
                    return ix if c is None else self.getitem(pop, ix, st)
            return Unknown("random choice")
        if name in ("randint", "integers", "random", "random_sample", "rand", "uniform", "standard_normal", "randn",
                    "normal"):
            src, da = self.draw(o, st, name)
            if name in ("randint", "integers") and args and not kw.get("endpoint"):
                lo = args[0] if len(args) > 1 else kw.get("low", 0)
                hi = args[1] if len(args) > 1 else kw.get("high", args[0])
                if len(args) == 1 and "high" not in kw:
                    lo, hi = 0, args[0]
                if hi is None:
                    lo, hi = 0, lo
                size = self.rand_size(args[2] if len(args) > 2 else kw.get("size"), st)
                lo, hi = self.scalar_of(lo, st), self.scalar_of(hi, st)
                if size is not None and is_num(lo) and is_num(hi):
                    a, b = self.term(lo), self.term(hi)
                    return self.rand_array(name, size, src, da, st,
                                           lambda u: tm.add(a, tm.fn("floor", tm.mul(tm.sub(b, a), u))), "i8")
            elif name in ("rand", "randn"):
                size = self.rand_size(tuple(args) or None, st)
                if size is not None:
                    return self.rand_array(name, size, src, da, st, lambda u: u, "f8")
            elif name in ("random", "random_sample", "standard_normal"):
                size = self.rand_size(args[0] if args else kw.get("size"), st)
                if size is not None:
                    return self.rand_array(name, size, src, da, st, lambda u: u, "f8")
            elif not args and set(kw) <= {"size"}:
                size = self.rand_size(kw.get("size"), st)
                if size is not None:
                    return self.rand_array(name, size, src, da, st, lambda u: u, "f8")
            return Unknown("random draw " + name)
        if name in ("permutation", "permuted"):
            a = args[0]
            src, da = self.draw(o, st, name)
            return self.permutation(a, src, da, st)
        if name == "shuffle":
            a = args[0]
            src, da = self.draw(o, st, name)
            if isinstance(a, Arr) and len(a.dims) >= 1:
                c = I.read(a, st)
                n = c.dims[0]
                old = c

                def w(idx, _):
                    p = tm.perm(src, da, n, idx[0])
                    return tm.subst(old.body, {x.a[0]: (p if i == 0 else idx[i]) for i, x in enumerate(old.vars)})
                I.write(a, st, w)
                return None
            I.effect("unknown-call", st, what="shuffle", args=args)
            return None
        if name in ("get_state", "bit_generator", "seed", "set_state"):
            if name in ("seed", "set_state"):
                I.effect("reseed", st, src=st.objs[o.id][1])
            return Unknown("rng." + name)
        if name == "spawn":
            return Unknown("rng.spawn")
        src, da = self.draw(o, st, name)
        return Unknown("random draw " + name)

    def permutation(self, a, src, da, st):
        a = self.scalar_of(a, st)
        if is_num(a):
            v = tm.fresh("i")
            n = self.term(a)
            return self.mk(st, (n,), (v,), tm.perm(src, da, n, v), "i8", "np")
        if isinstance(a, Arr):
            c = self.I.read(a, st)
            n = c.dims[0]
            p = tm.perm(src, da, n, c.vars[0])
            v = tm.fresh("i")
            body = tm.subst(c.body, {c.vars[0].a[0]: tm.perm(src, da, n, v)})
            return self.mk(st, c.dims, (v,) + c.vars[1:], body, c.dt, c.ns)
        return Unknown("permutation of unknown")

    # ------------------------------------------------------------ joblib
    def run_parallel(self, f, args, kw, st):
        I = self.I
        opts = dict(f.kw)
        n_jobs = f.args[0] if f.args else opts.get("n_jobs", None)
        I.effect("parallel", st, n_jobs=n_jobs, opts=tuple(opts))
        seq = I.iterate(args[0], st)
        if seq is None:
            return I.new_obj(st, "list", Unknown("parallel over unknown"))

        def one(task, s):
            if not (isinstance(task, Partial) and task.kind == "call"):
                return Unknown("parallel task")
            ow, om = I.worker, I.worker_mark
            I.worker = ow + 1
            I.worker_mark = new_id()
            try:
                return I.call(task.fn, list(task.args), dict(task.kw), s)
            finally:
                I.worker, I.worker_mark = ow, om
        if isinstance(seq, list):
            return I.new_list(st, [one(t, st) for t in seq])

        def run(x):
            return x, one(seq.value, x)
        val = I.sym_loop(st, seq.var, seq.dim, run)
        return I.new_obj(st, "list", SymSeq(seq.var, seq.dim, val))

    # ------------------------------------------------------------ scipy
    def t_dist(self, name, args, kw, st):
        names = ["x", "df", "loc", "scale"]
        p = dict(zip(names, args))
        p.update(kw)
        x, df = p.get("x"), p.get("df")
        if p.get("loc", 0) not in (0, 0.0) or p.get("scale", 1) not in (1, 1.0):
            x = self.binary("Div", self.binary("Sub", x, p.get("loc", 0), st), p.get("scale", 1), st)
        self.foreign_check("scipy.stats.t." + name, [x, df], st)
        if name not in ("cdf", "sf"):
            return Unknown("t." + name)
        x, df = self.scalar_of(x, st), self.scalar_of(df, st)
        if not is_num(x) or not is_num(df):
            return Unknown("t." + name)
        t = tm.fn("tcdf", self.term(x), self.term(df))
        if name == "sf":
            t = tm.sub(tm.ONE, t)
        return SNum(t, "f8", "np")

    def norm_dist(self, name, args, kw, st):
        p = dict(zip(["x", "loc", "scale"], args))
        p.update(kw)
        x = p.get("x")
        if p.get("loc", 0) not in (0, 0.0) or p.get("scale", 1) not in (1, 1.0):
            x = self.binary("Div", self.binary("Sub", x, p.get("loc", 0), st), p.get("scale", 1), st)
        self.foreign_check("scipy.stats.norm." + name, [x], st)
        x = self.scalar_of(x, st)
        if name not in ("cdf", "sf") or not is_num(x):
            return Unknown("norm." + name)
        t = tm.fn("ncdf", self.term(x))
        return SNum(tm.sub(tm.ONE, t) if name == "sf" else t, "f8", "np")


def Abort_():
    from .interp import Abort
    return Abort


def ext(*paths):
    def deco(f):
        for p in paths:
            Lib.EXT[p] = f
        return f
    return deco


@ext("enum.auto")
def _auto(L, args, kw, st):
    return Ext("enum.auto()")


@ext("enum.unique", "functools.total_ordering")
def _ident(L, args, kw, st):
    return args[0]


@ext("dataclasses.dataclass")
def _dataclass(L, args, kw, st):
    if args:
        return L.make_dataclass(args[0], kw)
    return Partial(None, (), tuple(kw.items()), "dataclass")


@ext("dataclasses.astuple")
def _astuple(L, args, kw, st):
    from .interp import Inst
    o = args[0]
    if isinstance(o, Ref) and o.kind == "inst" and isinstance(st.objs[o.id], Inst):
        return tuple(st.objs[o.id].attrs.values())
    return Unknown("astuple")


@ext("dataclasses.asdict")
def _asdict(L, args, kw, st):
    from .interp import Inst
    o = args[0]
    if isinstance(o, Ref) and o.kind == "inst" and isinstance(st.objs[o.id], Inst):
        return L.I.new_obj(st, "dict", dict(st.objs[o.id].attrs))
    return Unknown("asdict")


@ext("dataclasses.replace")
def _dreplace(L, args, kw, st):
    from .interp import Inst
    o = args[0]
    if isinstance(o, Ref) and o.kind == "inst" and isinstance(st.objs[o.id], Inst):
        i = st.objs[o.id]
        return L.I.new_obj(st, "inst", Inst(i.cls, {**i.attrs, **kw}))
    return Unknown("replace")


@ext("dataclasses.fields")
def _dfields(L, args, kw, st):
    from .interp import Inst
    o = args[0]
    if isinstance(o, Ref) and o.kind == "inst" and isinstance(st.objs[o.id], Inst):
        names = list(st.objs[o.id].attrs)
        if st.objs[o.id].cls.fields:
            names = [f[0] if isinstance(f, tuple) else f for f in st.objs[o.id].cls.fields]
    elif isinstance(o, ClassVal) and o.kind == "dataclass":
        names = [f[0] if isinstance(f, tuple) else f for f in o.fields]
    else:
        return Unknown("fields")
    return tuple(L.I.new_obj(st, "inst", Inst(FIELD, {"name": n})) for n in names)


FIELD = ClassVal("Field", (), {}, "class")


@ext("dataclasses.field")
def _dfield(L, args, kw, st):
    if "default" in kw:
        return kw["default"]
    return Unknown("field default")


@ext("functools.partial")
def _partial(L, args, kw, st):
    return Partial(args[0], tuple(args[1:]), tuple(kw.items()), "partial")


@ext("functools.wraps")
def _wraps(L, args, kw, st):
    return Partial(None, (), (), "ident")


@ext("functools.lru_cache", "functools.cache")
def _lru(L, args, kw, st):
    if args and isinstance(args[0], (FuncVal, Compiled, Bound)):
        return Partial(args[0], (), (), "cached")
    return Partial(None, (), (), "lru")


@ext("functools.reduce")
def _reduce(L, args, kw, st):
    seq = L.I.iterate(args[1], st)
    if not isinstance(seq, list):
        return Unknown("reduce")
    seq = list(seq)
    if len(args) > 2:
        r = args[2]
    else:
        if not seq:
            L.I.raise_(st, "TypeError")
        r = seq.pop(0)
    for x in seq:
        r = L.I.call(args[0], [r, x], {}, st)
    return r


@ext("itertools.combinations", "itertools.permutations")
def _comb(L, args, kw, st):
    import itertools as it
    seq = L.I.iterate(args[0], st)
    if isinstance(seq, list) and isinstance(args[1], int):
        return L.gen(list(it.combinations(seq, args[1])), st)
    return L.gen(None, st)


@ext("itertools.product")
def _product(L, args, kw, st):
    import itertools as it
    seqs = [L.I.iterate(a, st) for a in args]
    if all(isinstance(s, list) for s in seqs):
        return L.gen(list(it.product(*seqs, repeat=kw.get("repeat", 1))), st)
    return L.gen(None, st)


@ext("itertools.chain")
def _chain(L, args, kw, st):
    seqs = [L.I.iterate(a, st) for a in args]
    if all(isinstance(s, list) for s in seqs):
        return L.gen([x for s in seqs for x in s], st)
    return L.gen(None, st)


@ext("itertools.chain.from_iterable")
def _chainf(L, args, kw, st):
    outer = L.I.iterate(args[0], st)
    if isinstance(outer, list):
        return _chain(L, outer, {}, st)
    return L.gen(None, st)


@ext("itertools.repeat")
def _repeat(L, args, kw, st):
    if len(args) > 1 and isinstance(args[1], int):
        return L.gen([args[0]] * args[1], st)
    if len(args) > 1 and isinstance(args[1], SNum):
        return L.gen(SymSeq(tm.fresh("i"), args[1].t, args[0]), st)
    return L.gen(None, st)


@ext("itertools.accumulate")
def _accum(L, args, kw, st):
    seq = L.I.iterate(args[0], st)
    if not isinstance(seq, list):
        return L.gen(None, st)
    out = []
    if kw.get("initial") is not None:
        out.append(kw["initial"])
    for x in seq:
        if not out:
            out.append(x)
        elif len(args) > 1 and args[1] is not None:
            out.append(L.I.call(args[1], [out[-1], x], {}, st))
        else:
            out.append(L.I.binop("Add", out[-1], x, st))
    return L.gen(out, st)


@ext("itertools.islice")
def _islice(L, args, kw, st):
    seq = L.I.iterate(args[0], st)
    if isinstance(seq, list) and all(isinstance(a, int) or a is None for a in args[1:]):
        import itertools as it
        return L.gen(list(it.islice(seq, *args[1:])), st)
    return L.gen(None, st)


@ext("itertools.zip_longest")
def _zipl(L, args, kw, st):
    return L.gen(L.seqs(args, st), st)


@ext("copy.copy", "copy.deepcopy")
def _copy(L, args, kw, st):
    v = args[0]
    I = L.I
    if isinstance(v, Arr):
        return L.call_np("numpy", "copy", [v], {}, st)
    if isinstance(v, Ref) and v.kind in ("list", "dict", "set", "inst"):
        return I.new_obj(st, v.kind, st.objs[v.id])
    if isinstance(v, Ref) and v.kind == "rng":
        _, src, c, lv = st.objs[v.id]
        I.effect("rng-copy", st, src=src)
        return I.new_obj(st, "rng", ("rng", ("copy",) + src, c, lv))
    return v


@ext("contextlib.suppress", "contextlib.nullcontext", "warnings.catch_warnings")
def _ctx(L, args, kw, st):
    return Unknown("context manager")


@ext("warnings.warn", "warnings.warn_explicit")
def _warn(L, args, kw, st):
    cat = args[1] if len(args) > 1 else kw.get("category")
    c = cat.path.split(".")[-1] if isinstance(cat, Ext) else getattr(cat, "name", None) or "UserWarning"
    L.I.effect("warn", st, category=c, msg=args[0] if args else None)
    return None


@ext("warnings.simplefilter", "warnings.filterwarnings")
def _wfilter(L, args, kw, st):
    L.I.effect("write-global", st, what="warning filters")
    return None


@ext("array_api_compat.array_namespace", "array_api_compat.get_namespace")
def _arrns(L, args, kw, st):
    nss = set()
    for a in args:
        if isinstance(a, Arr):
            nss.add(st.heap[a.root].ns)
        elif isinstance(a, SNum) and a.ns:
            nss.add(a.ns)
        elif isinstance(a, (Unknown, Phi)):
            if isinstance(a, Phi):
                return L.I.with_phi(st, list(args), lambda s, vs: _arrns(L, vs, kw, s))
            return Unknown("namespace of " + a.reason)
        elif a is None or isinstance(a, (bool, int, float)) or isinstance(a, SNum):
            # array-api-compat >= 1.5 ignores python scalars only when others are arrays
            L.I.raise_(st, "TypeError", "not an array API object")
        else:
            L.I.raise_(st, "TypeError", "not an array API object")
    if not nss:
        L.I.raise_(st, "TypeError", "no arrays")
    if len(nss) > 1:
        L.I.raise_(st, "TypeError", "multiple namespaces")
    return Ext("anp" if nss == {"np"} else "xp")


@ext("array_api_compat.is_numpy_array")
def _isnp(L, args, kw, st):
    a = args[0]
    return (isinstance(a, Arr) and st.heap[a.root].ns == "np") or (isinstance(a, SNum) and a.ns == "np")


@ext("array_api_compat.size")
def _size(L, args, kw, st):
    return L.getattr(args[0], "size", st)


@ext("array_api_compat.device")
def _dev(L, args, kw, st):
    return "cpu"


@ext("joblib.Parallel")
def _parallel(L, args, kw, st):
    return Partial(None, tuple(args), tuple(kw.items()), "Parallel")


@ext("joblib.delayed")
def _delayed(L, args, kw, st):
    return Partial(args[0], (), (), "delayed")


@ext("joblib.effective_n_jobs", "os.cpu_count", "joblib.cpu_count")
def _njobs(L, args, kw, st):
    return SNum(tm.opq("n_jobs"), "int")


@ext("scipy.stats.t.cdf")
def _tcdf(L, args, kw, st):
    return L.t_dist("cdf", args, kw, st)


@ext("scipy.stats.t.sf")
def _tsf(L, args, kw, st):
    return L.t_dist("sf", args, kw, st)


@ext("scipy.stats.t")
def _tfrozen(L, args, kw, st):
    return Partial(None, tuple(args), tuple(kw.items()), "frozen-t")


@ext("scipy.stats.norm.cdf", "scipy.special.ndtr")
def _ncdf(L, args, kw, st):
    return L.norm_dist("cdf", args, kw, st)


@ext("scipy.stats.norm.sf")
def _nsf(L, args, kw, st):
    return L.norm_dist("sf", args, kw, st)


@ext("scipy.stats.norm")
def _nfrozen(L, args, kw, st):
    return Partial(None, tuple(args), tuple(kw.items()), "frozen-norm")


@ext("scipy.special.betainc")
def _betainc(L, args, kw, st):
    L.foreign_check("scipy.special.betainc", args, st)
    v = [L.scalar_of(a, st) for a in args]
    if not all(is_num(x) for x in v):
        return Unknown("betainc")
    return SNum(tm.fn("betainc", *[L.term(x) for x in v]), "f8", "np")


@ext("scipy.special.stdtr")
def _stdtr(L, args, kw, st):
    return L.t_dist("cdf", [args[1], args[0]], {}, st)


@ext("scipy.spatial.distance.cdist")
def _cdist(L, args, kw, st):
    names = ["XA", "XB", "metric"]
    p = dict(zip(names, args))
    p.update(kw)
    x, y, metric = p.get("XA"), p.get("XB"), p.get("metric", "euclidean")
    extra = [k for k in p if k not in ("XA", "XB", "metric", "p")]
    L.foreign_check("scipy.spatial.distance.cdist", [x, y], st)
    x, y = L.as_arr(x, st), L.as_arr(y, st)
    if not isinstance(x, Arr) or not isinstance(y, Arr) or extra or not isinstance(metric, str):
        return Unknown("cdist")
    if len(x.dims) != 2 or len(y.dims) != 2:
        L.I.raise_(st, "ValueError", "XA must be a 2-dimensional array")
    L.I.may_raise(st, tm.cmp("!=", x.dims[1], y.dims[1]), "ValueError", "same number of columns")
    cx, cy = L.I.read(x, st), L.I.read(y, st)
    if "obj" in (cx.dt, cy.dt):
        L.I.effect("precision-loss", st, what="cdist of exact data")
    i, j, k = tm.fresh("i"), tm.fresh("j"), tm.fresh("k")
    d = tm.sub(tm.subst(cx.body, {cx.vars[0].a[0]: i, cx.vars[1].a[0]: k}),
               tm.subst(cy.body, {cy.vars[0].a[0]: j, cy.vars[1].a[0]: k}))
    s2 = tm.sum_(k, x.dims[1], tm.ipow(d, 2))
    if metric == "euclidean":
        body = tm.power(s2, tm.HALF)
    elif metric == "sqeuclidean":
        body = s2
    elif metric == "cityblock":
        body = tm.sum_(k, x.dims[1], tm.absv(d))
    elif metric == "chebyshev":
        body = tm.extremum("amax", k, x.dims[1], tm.absv(d))
    elif metric == "minkowski":
        pp = L.term(p.get("p", 2))
        body = tm.power(tm.sum_(k, x.dims[1], tm.power(tm.absv(d), pp)), tm.div(tm.ONE, pp))
    else:
        return Unknown("cdist metric " + metric)
    return L.mk(st, (x.dims[0], y.dims[0]), (i, j), body, "f8", "np")


@ext("scipy.spatial.distance.pdist")
def _pdist(L, args, kw, st):
    p = dict(zip(["X", "metric"], args))
    p.update(kw)
    m = _cdist(L, [p["X"], p["X"]], {k: v for k, v in p.items() if k != "X"}, st)
    if isinstance(m, Unknown):
        return m
    return Partial(None, (m,), (), "condensed")


@ext("scipy.spatial.distance.squareform")
def _squareform(L, args, kw, st):
    if isinstance(args[0], Partial) and args[0].kind == "condensed":
        return args[0].args[0]
    return Unknown("squareform")


@ext("scipy.spatial.distance_matrix")
def _dmat(L, args, kw, st):
    p = args[2] if len(args) > 2 else kw.get("p", 2)
    if p == 2:
        return _cdist(L, args[:2], {}, st)
    return _cdist(L, args[:2], {"metric": "minkowski", "p": p}, st)


@ext("numba.njit", "numba.jit")
def _njit(L, args, kw, st):
    kw = {k: v for k, v in kw.items()}
    sig = kw.pop("signature_or_function", None)
    if args and isinstance(args[0], FuncVal):
        return Compiled(args[0], None, "njit", tuple(kw.items()))
    if args:
        sig = args[0]
        if isinstance(sig, Ref) and sig.kind == "list":
            sig = tuple(st.objs[sig.id])
    return Partial(None, (sig,) if sig is not None else (), tuple(kw.items()), "njit")


@ext("numba.guvectorize")
def _guv(L, args, kw, st):
    sig = args[0]
    if isinstance(sig, Ref):
        sig = tuple(st.objs[sig.id])
    return Partial(None, (sig, args[1]), tuple(kw.items()), "guvectorize")


@ext("numba.vectorize")
def _vec(L, args, kw, st):
    return Partial(None, (), (), "vectorize")


@ext("numba.types.Array")
def _narr(L, args, kw, st):
    p = dict(zip(["dtype", "ndim", "layout", "readonly"], args))
    p.update(kw)
    return NType(p["dtype"].dt, p["ndim"], p.get("layout", "C"), bool(p.get("readonly", False)))


@ext("numba.types.Tuple", "numba.types.UniTuple")
def _ntuple(L, args, kw, st):
    a = args[0]
    if isinstance(a, NType):
        return NTuple((a,) * args[1])
    seq = L.I.iterate(a, st)
    return NTuple(tuple(seq))


@ext("numba.optional", "numba.types.Optional")
def _nopt(L, args, kw, st):
    return args[0]


@ext("numba.set_num_threads")
def _nthreads(L, args, kw, st):
    L.I.effect("write-global", st, what="numba thread count")
    return None


@ext("types.SimpleNamespace")
def _sns(L, args, kw, st):
    return Unknown("SimpleNamespace")


@ext("scipy.linalg.eigh")
def _scipy_eigh(L, args, kw, st):
    if kw or len(args) != 1:
        return Unknown("scipy.linalg.eigh")
    return (_scipy_matrix(L, "eigw", args, st), _scipy_matrix(L, "eigv", args, st))


@ext("scipy.linalg.inv")
def _scipy_inv(L, args, kw, st):
    return Unknown("scipy.linalg.inv") if kw or len(args) != 1 else _scipy_matrix(L, "inv", args, st)


@ext("scipy.linalg.sqrtm")
def _scipy_sqrtm(L, args, kw, st):
    return Unknown("scipy.linalg.sqrtm") if kw or len(args) != 1 else _scipy_matrix(L, "sqrtm", args, st)


def _scipy_matrix(L, kind, args, st):
    from .npfuncs import matrix_fn, Bad
    L.foreign_check("scipy.linalg." + kind, args, st)
    try:
        return matrix_fn(L, kind, args[0], "np", st)
    except Bad as e:
        return Unknown(str(e))
