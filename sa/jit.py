"""numba: compiled functions are interpreted from the same source, behind their declared signatures."""
from __future__ import annotations

from . import terms as tm
from .values import *
from .arrays import is_num, INTS, FLOATS


class JitLib:
    def call_compiled(self, f, args, kw, st):
        I = self.I
        if f.kind == "guvectorize":
            return self.call_gu(f, args, kw, st)
        if any(isinstance(a, Phi) for a in list(args) + list(kw.values())):
            ks = list(kw)
            n = len(args)
            return I.with_phi(st, list(args) + [kw[k] for k in ks],
                              lambda s, vs: self.call_compiled(f, vs[:n], dict(zip(ks, vs[n:])), s))
        if not isinstance(f.fn, FuncVal):
            return Unknown("compiled object")
        sigs = f.sig if isinstance(f.sig, tuple) else (f.sig,) if f.sig is not None else ()
        if kw:
            names = [a.arg for a in f.fn.node.args.args]
            full = list(args)
            for nm in names[len(args):]:
                if nm in kw:
                    full.append(kw.pop(nm) if False else kw[nm])
            if len(full) != len(args) + len(kw):
                I.raise_(st, "TypeError", "missing argument")
            args = full
        ret = None
        if sigs:
            if not I.compiled:
                errs = []
                for s in sigs:
                    if not isinstance(s, NSig):
                        return Unknown("numba signature")
                    e = self.sig_mismatch(s.args, args, st)
                    errs.append(e)
                    if e is None:
                        ret = s.ret
                        args = [self.sig_convert(t, a) for t, a in zip(s.args, args)]
                        break
                if None not in errs:
                    I.effect("sig-mismatch", st, what=errs[0], fn=f.fn.name)
                    I.raise_(st, "TypeError", "No matching definition for argument type(s)")
            else:
                ret = sigs[0].ret if isinstance(sigs[0], NSig) else None
        elif any(isinstance(a, Arr) and st.heap[a.root].dt == "obj" for a in args):
            I.raise_(st, "TypeError", "cannot determine Numba type")
        kernel = any(not is_num(a) for a in args)       # numbers in, numbers out: not a kernel for the data
        I.effect("compiled-call" if kernel else "compiled-helper", st, fn=f.fn.name)
        I.compiled += 1
        try:
            r = I.call(f.fn, args, {}, st)
        finally:
            I.compiled -= 1
        return self.unbox(r, ret, st)

    def sig_mismatch(self, types, args, st):
        if len(types) != len(args):
            return "wrong number of arguments"
        for t, a in zip(types, args):
            if not isinstance(t, NType):
                continue
            if isinstance(a, Unknown):
                continue
            if t.ndim:
                if not isinstance(a, Arr):
                    return "array expected"
                c = st.heap[a.root]
                if c.ns != "np":
                    return "NumPy array expected"
                if len(a.dims) != t.ndim:
                    return f"{len(a.dims)}-d array given, {t.ndim}-d expected"
                if c.dt != t.dt:
                    return f"dtype {c.dt} given, {t.dt} expected"
                if t.layout == "C" and not self.is_contig(a, st):
                    return "non-contiguous array given"
                if not t.readonly and self.I.roots.get(a.root, {}).get("readonly"):
                    return "read-only array given"
            else:
                if isinstance(a, Arr) or not is_num(a):
                    return f"scalar expected, {type(a).__name__} given"
                if self.ntype(a)[0] == "obj":
                    return "Python object given"
        return None

    def sig_convert(self, t, a):
        if isinstance(t, NType) and not t.ndim and is_num(a):
            d, _ = self.ntype(a)
            if t.dt == "f8":
                return self.num(self.term(a), "float")
            if t.dt == "i8":
                return self.num(self.cast_term(self.term(a), d, "i8"), "int")
            if t.dt == "b1":
                if isinstance(a, bool):
                    return a
                return self.num(tm.truth(self.term(a)), "bool")
        return a

    def unbox(self, r, t, st):
        if isinstance(r, Phi):
            return Phi(r.c, self.unbox(r.a, t, st), self.unbox(r.b, t, st))
        if isinstance(t, NTuple) and isinstance(r, tuple):
            return tuple(self.unbox(x, y, st) for x, y in zip(r, t.items))
        if isinstance(r, tuple):
            return tuple(self.unbox(x, None, st) for x in r)
        if isinstance(r, Arr) and not r.dims:
            r = self.scalar_of(r, st)
        if is_num(r) and not self.I.compiled:
            d, ns = self.ntype(r)
            d = self.strong(d)
            if isinstance(t, NType):
                if t.dt == "f8":
                    return self.num(self.term(r), "float")
                if t.dt == "i8":
                    return self.num(self.cast_term(self.term(r), d, "i8"), "int")
            return self.num(self.term(r), "float" if d in FLOATS else "bool" if d == "b1" else "int")
        return r

    def call_gu(self, f, args, kw, st):
        I = self.I
        sigs, layout = f.sig
        if kw:
            return Unknown("generalised ufunc with keywords")
        ins, _, outs = layout.replace(" ", "").partition("->")
        parts = [p.strip("()") for p in ins.replace("),(", ")|(").split("|")]
        oparts = [p.strip("()") for p in outs.replace("),(", ")|(").split("|")]
        cores = [tuple(x for x in p.split(",") if x) for p in parts + oparts]
        types = sigs[0] if isinstance(sigs, tuple) and sigs and isinstance(sigs[0], tuple) else None
        if types is None or len(types) != len(cores):
            return Unknown("generalised ufunc signature")
        nin = len(parts)
        if len(args) < nin or len(args) > len(cores):
            I.raise_(st, "TypeError", "wrong number of arguments")
        arrs = []
        for k, a in enumerate(args):
            if isinstance(a, Unknown):
                return a
            if not isinstance(a, Arr) and not is_num(a):
                a = self.as_arr(a, st)
                if isinstance(a, Unknown):
                    return a
            if isinstance(a, Arr) and st.heap[a.root].ns != "np":
                self.foreign_check("generalised ufunc", [a], st)
                a = self.to_np(a, st)
            dt = self.strong(st.heap[a.root].dt if isinstance(a, Arr) else self.ntype(a)[0])
            want = types[k].dt
            if k < nin:
                if dt == "obj" or (want == "b1" and dt != "b1"):
                    I.raise_(st, "TypeError", "ufunc not supported for the input types")
                if isinstance(a, Arr) and dt != want and want == "f8":
                    a = self.cast(a, "f8", st)
            else:
                if dt != want:
                    if dt in INTS or dt == "b1":
                        I.raise_(st, "UFuncTypeError", "Cannot cast ufunc output")
            arrs.append(a)
        alloc = len(args) < len(cores)
        loop = None
        cd = {}
        loops = []
        for k, a in enumerate(arrs):
            nd = len(a.dims) if isinstance(a, Arr) else 0
            need = len(cores[k])
            if nd < need:
                I.raise_(st, "ValueError", "does not have enough dimensions")
            for name, d in zip(cores[k], a.dims[nd - need:] if isinstance(a, Arr) else ()):
                if name in cd and cd[name] is not d:
                    I.may_raise(st, tm.cmp("!=", cd[name], d), "ValueError", "mismatch in its core dimension")
                else:
                    cd[name] = d
            ld = a.dims[:nd - need] if isinstance(a, Arr) else ()
            if len(ld) > 1:
                return Unknown("generalised ufunc over several axes")
            loops.append(ld)
            if ld:
                d = ld[0]
                if loop is None or tm.cval(loop) == 1:
                    loop = d
                elif loop is not d and tm.cval(d) != 1:
                    I.may_raise(st, tm.cmp("!=", loop, d), "ValueError", "operands could not be broadcast")
        for ld in loops[:nin]:
            if ld and loop is not None and ld[0] is not loop and tm.cval(ld[0]) == 1:
                I.effect("gu-broadcast", st, fn=f.fn.name)
        res_dims = [(() if loop is None else (loop,)) + tuple(cd[c] for c in core) for core in cores[nin:]]
        if alloc:
            for k, rd in enumerate(res_dims):
                if nin + k >= len(arrs):
                    vs = tuple(tm.fresh("i") for _ in rd)
                    I.site_n += 1
                    arrs.append(I.new_arr(st, rd, vs, tm.uninit(f"gufunc#{I.site_n}", *vs), types[nin + k].dt, "np"))
                    loops.append(() if loop is None else (loop,))
        else:
            for k in range(nin, len(arrs)):
                if loop is not None and not loops[k]:
                    I.raise_(st, "ValueError", "non-broadcastable output operand")
                if loop is not None and loops[k][0] is not loop:
                    if tm.cval(loops[k][0]) == 1:
                        I.raise_(st, "ValueError", "non-broadcastable output operand")
        I.effect("compiled-call", st, fn=f.fn.name)

        def row(s, r):
            vals = []
            for k, a in enumerate(arrs):
                if not isinstance(a, Arr):
                    vals.append(self.sig_convert(types[k], a))
                    continue
                v = a
                if loops[k]:
                    idx = 0 if tm.cval(loops[k][0]) == 1 else r
                    if k >= nin and not cores[k]:
                        # scalar output: one-element view
                        hi = self.binary("Add", idx, 1, s)
                        v = self.getitem(a, Slice(idx, hi, None), s)
                    else:
                        v = self.getitem(a, idx, s, True)
                elif k >= nin and not cores[k]:
                    v = self.expand_dims(a, 0, s)
                vals.append(v)
            I.compiled += 1
            try:
                I.call(f.fn, vals, {}, s)
            finally:
                I.compiled -= 1
        if loop is None:
            row(st, 0)
        elif tm.cval(loop) is not None and tm.cval(loop) <= 64:
            for r in range(int(tm.cval(loop))):
                row(st, r)
        else:
            v = tm.fresh("i")
            I.bounds[v.a[0]] = (0, I.term_bounds(loop)[1])

            def run(s):
                row(s, SNum(v, "int"))
                return s, None
            I.sym_loop(st, v, loop, run)
        if alloc:
            out = arrs[nin:]
            return out[0] if len(out) == 1 else tuple(out)
        out = arrs[nin:]
        return out[0] if len(out) == 1 else tuple(out)
