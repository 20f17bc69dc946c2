"""Indexing: views, gathers, masks, scatters, and subscripts of other objects."""
from __future__ import annotations

from . import terms as tm
from .values import *
from .arrays import is_num, INTS, FLOATS


class IndexLib:
    # ------------------------------------------------------------ helpers
    def norm_index(self, t, dim, st, inbounds=False):
        """Non-negative index term of a possibly negative index."""
        I = self.I
        c = tm.cval(t)
        if c is not None:
            if c != int(c):
                I.raise_(st, "IndexError", "index is not an integer")
            if c < 0:
                if not inbounds:
                    I.may_raise(st, tm.cmp("<", tm.add(dim, t), tm.ZERO), "IndexError", "index out of bounds")
                return tm.add(dim, t)
            if not inbounds:
                I.may_raise(st, tm.cmp("<=", dim, t), "IndexError", "index out of bounds")
            return t
        lo, hi = I.term_bounds(t)
        if lo >= 0 or tm.nonneg(t):
            return t
        if hi < 0:
            return tm.add(dim, t)
        cnd = tm.cmp("<", t, tm.ZERO)
        d = I.decide(cnd, st)
        if d is True:
            return tm.add(dim, t)
        if d is False:
            return t
        if not t.data and not t.fv:
            s = tm.sub(t, dim)
            # sizes only: n - 1 and the like are non-negative once the bounds say so
            if I.term_bounds(t)[0] >= 0:
                return t
        return tm.ite(cnd, tm.add(dim, t), t)

    def slice_bounds(self, s, dim, st):
        """(start, step, length) of a slice of an axis of length dim, or None."""
        I = self.I

        def val(x):
            x = self.scalar_of(x, st) if not is_num(x) and x is not None else x
            if x is None:
                return None
            if not is_num(x):
                return False
            return self.term(x)
        lo, hi, step = val(s.lo), val(s.hi), val(s.step)
        if lo is False or hi is False or step is False:
            return None
        sv = 1 if step is None else tm.cval(step)
        if sv is None or sv == 0:
            return None
        sv = int(sv)

        def clamp(t, default):
            """Clip a bound to [0, dim]."""
            if t is None:
                return default
            c = tm.cval(t)
            if c is not None and c < 0:
                return self.max0(tm.add(dim, t), st)
            if c is None:
                lo_, hi_ = I.term_bounds(t)
                if lo_ < 0 and not tm.nonneg(t):
                    cn = tm.cmp("<", t, tm.ZERO)
                    d = I.decide(cn, st)
                    if d is True:
                        return self.max0(tm.add(dim, t), st)
                    if d is None:
                        neg = self.max0(tm.add(dim, t), st)
                        return tm.ite(cn, neg, self.min_(t, dim, st))
            return self.min_(t, dim, st)
        if sv > 0:
            a, b = clamp(lo, tm.ZERO), clamp(hi, dim)
            n = self.max0(tm.sub(b, a), st)
            if sv != 1:
                n = tm.fn("floordiv", tm.add(n, tm.const(sv - 1)), tm.const(sv))
            return a, tm.const(sv), n
        last = tm.sub(dim, tm.ONE)
        if lo is None:
            a = last
        else:
            a = self.min_(clamp(lo, last), last, st)
        if hi is None:
            b = tm.const(-1)
        else:
            b = clamp(hi, tm.ZERO)
        n = self.max0(tm.sub(a, b), st)
        if sv != -1:
            n = tm.fn("floordiv", tm.add(n, tm.const(-sv - 1)), tm.const(-sv))
        return a, tm.const(sv), n

    def base_view(self, a, st):
        c = st.heap[a.root]
        if a.ix is None:
            vv = tuple(tm.fresh("w") for _ in c.vars)
            return vv, vv
        return a.vv, a.ix

    def expand(self, a, i, st):
        """Index as a list of entries, one per consumed axis plus None entries; or None."""
        items = list(i) if isinstance(i, tuple) else [i]
        out = []
        for x in items:
            if isinstance(x, Ref) and x.kind == "list" or isinstance(x, SymSeq):
                x = self.as_arr(x, st)
            if isinstance(x, Arr) and not x.dims:
                c = self.I.read(x, st)
                if c.dt not in ("b1", "bool"):
                    x = SNum(c.body, c.dt, c.ns)
            out.append(x)
        items = out

        def width(x):
            if x is None or x is Ellipsis:
                return 0
            if isinstance(x, Arr):
                c = st.heap[x.root]
                return len(x.dims) if c.dt in ("b1", "bool") else 1
            return 1
        used = sum(width(x) for x in items)
        nd = len(a.dims)
        if used > nd:
            self.I.raise_(st, "IndexError", "too many indices for array")
        full = [Slice(None, None, None)] * (nd - used)
        if any(x is Ellipsis for x in items):
            k = next(j for j, x in enumerate(items) if x is Ellipsis)
            items = items[:k] + full + items[k + 1:]
        else:
            items = items + full
        return items

    # ------------------------------------------------------------ array read
    def arr_view(self, a, items, st, inbounds):
        vv, ix = self.base_view(a, st)
        m, nvv, ndims = {}, [], []
        ax = 0
        for x in items:
            if x is None:
                nvv.append(tm.fresh("w"))
                ndims.append(tm.ONE)
                continue
            d = a.dims[ax]
            w = vv[ax]
            ax += 1
            if isinstance(x, Slice):
                if x.lo is None and x.hi is None and x.step is None:
                    nw = tm.fresh("w")
                    self.I.bounds[nw.a[0]] = (0, self.I.term_bounds(d)[1])
                    m[w.a[0]] = nw
                    nvv.append(nw)
                    ndims.append(d)
                    continue
                r = self.slice_bounds(x, d, st)
                if r is None:
                    return Unknown("slice with unknown bounds")
                s0, step, n = r
                nw = tm.fresh("w")
                self.I.bounds[nw.a[0]] = (0, self.I.term_bounds(n)[1])
                m[w.a[0]] = tm.add(s0, tm.mul(step, nw))
                nvv.append(nw)
                ndims.append(n)
            else:
                t = self.term(x)
                m[w.a[0]] = self.norm_index(t, d, st, inbounds)
        nix = tuple(tm.subst(t, m) for t in ix)
        c = st.heap[a.root]
        return Arr(a.root, tuple(ndims), tuple(nvv), nix)

    def getitem(self, o, i, st, inbounds=False):
        I = self.I
        if isinstance(o, Phi) or isinstance(i, Phi):
            return I.with_phi(st, [o, i], lambda s, vs: self.getitem(vs[0], vs[1], s, inbounds))
        if isinstance(i, tuple) and any(isinstance(x, Phi) for x in i):
            return I.with_phi(st, list(i), lambda s, vs: self.getitem(o, tuple(vs), s, inbounds))
        if isinstance(o, Unknown):
            return Unknown("element of " + o.reason)
        if isinstance(o, SNum) and o.ns == "np":
            if i == () or i is Ellipsis:
                return o
            if i is None:
                return self.as_arr_dims(o, 1, st)
            I.raise_(st, "IndexError", "invalid index to scalar variable")
        if isinstance(o, Arr):
            return self.arr_getitem(o, i, st, inbounds)
        return self.obj_getitem(o, i, st)

    def split_bool(self, i, st):
        """Boolean scalars in an index: (their conjunction or None, remaining index)."""
        cnd, out = None, []
        for x in (i if isinstance(i, tuple) else (i,)):
            t = None
            if isinstance(x, bool):
                t = tm.ONE if x else tm.ZERO
            elif isinstance(x, SNum) and x.dt in ("bool", "b1"):
                t = x.t
            elif isinstance(x, Arr) and not x.dims:
                c = self.I.read(x, st)
                if c.dt in ("bool", "b1"):
                    t = c.body
            if t is None:
                out.append(x)
            else:
                cnd = t if cnd is None else tm.and_(cnd, t)
        return cnd, tuple(out) if cnd is not None else i

    def arr_getview(self, a, i, st):
        items = self.expand(a, i, st)
        if any(isinstance(x, (Unknown, Arr)) for x in items):
            return None
        r = self.arr_view(a, items, st, False)
        return None if isinstance(r, Unknown) else r

    def as_arr_dims(self, o, nd, st):
        dt, ns = self.ntype(o)
        vs = tuple(tm.fresh("i") for _ in range(nd))
        return self.I.new_arr(st, (tm.ONE,) * nd, vs, self.term(o), self.strong(dt), ns or "np", quiet=True)

    def arr_getitem(self, a, i, st, inbounds):
        I = self.I
        c = st.heap[a.root]
        if c.mask is not None:
            return self.masked_getitem(a, i, st)
        items = self.expand(a, i, st)
        if any(isinstance(x, Unknown) for x in items):
            return Unknown("index " + next(x.reason for x in items if isinstance(x, Unknown)))
        for x in items:
            if isinstance(x, float) or isinstance(x, SNum) and x.dt in ("float", "f8", "f4", "obj"):
                I.raise_(st, "IndexError", "only integers are valid indices")
            if isinstance(x, str):
                I.raise_(st, "IndexError", "only integers are valid indices")
            if isinstance(x, bool) or isinstance(x, SNum) and x.dt in ("bool", "b1"):
                return Unknown("boolean scalar index")
        adv = [x for x in items if isinstance(x, Arr)]
        if not adv:
            r = self.arr_view(a, items, st, inbounds)
            if isinstance(r, Unknown):
                return r
            if not r.dims and c.ns != "xp":
                cc = I.read(r, st)
                return SNum(cc.body, cc.dt, "np")
            return r
        return self.gather(a, items, st)

    def split_mask(self, a, items, st):
        """Masks among the entries."""
        return [k for k, x in enumerate(items) if isinstance(x, Arr) and st.heap[x.root].dt in ("b1", "bool")]

    def gather(self, a, items, st):
        I = self.I
        ns = st.heap[a.root].ns
        mk = self.split_mask(a, items, st)
        for x in items:
            if isinstance(x, Arr) and st.heap[x.root].ns != ns:
                I.effect("foreign-array", st, what="indexing mixes array libraries")
        if mk:
            if len(mk) > 1 or sum(isinstance(x, Arr) for x in items) > 1:
                return Unknown("several masks")
            k = mk[0]
            m = items[k]
            if st.heap[m.root].mask is not None:
                return Unknown("filtered mask")
            pre = list(items)
            pre[k:k + 1] = [Slice(None, None, None)] * max(len(m.dims), 0)
            if not m.dims:
                return Unknown("0-d mask")
            v = self.arr_view(a, pre, st, False)
            if isinstance(v, Unknown):
                return v
            if len(v.dims) != len(m.dims):
                return Unknown("row mask")
            for d, e in zip(v.dims, m.dims):
                if d is not e:
                    I.may_raise(st, tm.cmp("!=", d, e), "IndexError", "boolean index did not match")
            cv, cm = I.read(v, st), I.read(m, st)
            mask = tm.truth(tm.subst(cm.body, {x.a[0]: y for x, y in zip(cm.vars, cv.vars)}))
            cc = Content(cv.dims, cv.vars, cv.body, cv.dt, ns, mask, cv.dims)
            cnt = self.c_count(cc)
            return self.mk(st, (cnt,), cv.vars, cv.body, cv.dt, ns, mask, cv.dims)
        for x in items:
            if isinstance(x, Arr) and st.heap[x.root].dt in FLOATS + ("obj",):
                I.raise_(st, "IndexError", "arrays used as indices must be of integer type")
        # integer arrays
        vv, ix = self.base_view(a, st)
        advpos = [k for k, x in enumerate(items) if isinstance(x, Arr) or is_num(x)]
        cs = [self.content(items[k], st) for k in advpos]
        b = self.bc(cs, st)
        if b is None:
            return Unknown("gather with filtered arrays")
        bdims, bvars, bodies, mask, base = b
        contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
        m, ndims, nvars = {}, [], []
        ax = 0
        placed = False
        front = not contiguous
        if front:
            ndims, nvars, placed = list(bdims), list(bvars), True
        for k, x in enumerate(items):
            if x is None:
                nvars.append(tm.fresh("i"))
                ndims.append(tm.ONE)
                continue
            d, w = a.dims[ax], vv[ax]
            ax += 1
            if k in advpos:
                t = bodies[advpos.index(k)]
                if isinstance(items[k], Arr):
                    n0 = I.site_n
                    m[w.a[0]] = self.norm_index(t, d, st, True)
                else:
                    m[w.a[0]] = self.norm_index(t, d, st)
                if not placed:
                    ndims += list(bdims)
                    nvars += list(bvars)
                    placed = True
                continue
            r = self.slice_bounds(x, d, st)
            if r is None:
                return Unknown("slice with unknown bounds")
            nw = tm.fresh("i")
            I.bounds[nw.a[0]] = (0, I.term_bounds(r[2])[1])
            m[w.a[0]] = tm.add(r[0], tm.mul(r[1], nw))
            ndims.append(r[2])
            nvars.append(nw)
        c = st.heap[a.root]
        body = tm.subst(c.body, {v.a[0]: tm.subst(t, m) for v, t in zip(c.vars, ix)})
        if mask is not None:
            if len(ndims) != len(bdims):
                return Unknown("gather with filtered arrays")
            return self.mk(st, bdims, bvars, body, c.dt, ns, mask, base)
        return self.mk(st, tuple(ndims), tuple(nvars), body, c.dt, ns)

    def masked_getitem(self, a, i, st):
        c = st.heap[a.root]
        if i is Ellipsis or isinstance(i, Slice) and i.lo is None and i.hi is None and i.step is None:
            return a
        return Unknown("element of a filtered array")

    # ------------------------------------------------------------ array write
    def setitem(self, o, i, v, st, aug=False):
        I = self.I
        if isinstance(o, Unknown):
            return
        if isinstance(o, Arr):
            return self.arr_setitem(o, i, v, st, aug)
        if isinstance(o, SNum):
            I.raise_(st, "TypeError", "does not support item assignment")
        if isinstance(o, Ref) and o.kind == "list":
            rec = st.objs[o.id]
            if isinstance(rec, list):
                if isinstance(i, int):
                    if not -len(rec) <= i < len(rec):
                        I.raise_(st, "IndexError")
                    r = list(rec)
                    r[i] = v
                    I.write_obj(st, o, r)
                    return
                if isinstance(i, SNum):
                    r = [I.merge(tm.cmp("==", i.t, tm.const(k)), v, x, st) for k, x in enumerate(rec)]
                    I.write_obj(st, o, r)
                    return
                if isinstance(i, Slice) and i.lo is None and i.hi is None and i.step is None:
                    seq = I.iterate(v, st)
                    if isinstance(seq, list):
                        I.write_obj(st, o, list(seq))
                        return
            if isinstance(rec, SymSeq) and isinstance(i, SNum):
                x = rec.value
                if is_num(x) and is_num(v):
                    t = tm.ite(tm.cmp("==", rec.var, i.t), self.term(v), self.term(x))
                    d1, n1 = self.ntype(x)
                    I.write_obj(st, o, SymSeq(rec.var, rec.dim, SNum(t, d1, n1)))
                    return
            I.write_obj(st, o, Unknown("list assignment"))
            return
        if isinstance(o, Ref) and o.kind == "dict":
            rec = st.objs[o.id]
            if isinstance(rec, dict) and self.hashable(i):
                r = dict(rec)
                r[i] = v
                I.write_obj(st, o, r)
            else:
                I.write_obj(st, o, Unknown("dict assignment"))
            return
        if isinstance(o, Ref) and o.kind == "inst":
            m = self.getattr_or(o, "__setitem__", st)
            if m is not MISSING and not isinstance(m, Unknown):
                I.call(m, [i, v], {}, st)
                return
        if isinstance(o, tuple) or isinstance(o, str):
            I.raise_(st, "TypeError", "does not support item assignment")
        I.effect("unknown-call", st, what="item assignment", args=[o])

    def arr_setitem(self, a, i, v, st, aug):
        I = self.I
        meta = I.roots.get(a.root, {})
        if meta.get("readonly"):
            I.raise_(st, "ValueError", "assignment destination is read-only")
        c0 = st.heap[a.root]
        if aug and isinstance(v, Arr) and v.root == a.root:
            return   # written through the view already
        if isinstance(v, Phi):
            v = self.scalar_of(v, st)
        if isinstance(v, (tuple, SymSeq)) or isinstance(v, Ref) and v.kind == "list":
            v = self.as_arr(v, st, c0.ns)
        unknown = None
        if not (is_num(v) or isinstance(v, Arr)):
            if isinstance(v, Unknown):
                unknown = v.reason
            else:
                I.raise_(st, "TypeError", "setting an array element")
        elif isinstance(v, Arr) and st.heap[v.root].ns != c0.ns:
            I.effect("foreign-array", st, what="assignment mixes array libraries")
        if c0.mask is not None:
            I.write(a, st, lambda idx, old: I.unk("write to a filtered array"))
            return
        cnd, i = self.split_bool(i, st)
        if cnd is not None:
            d = tm.cval(cnd)
            d = I.decide(cnd, st) if d is None else bool(d)
            if d is False:
                return
            if d is None:
                vc = self.content(v, st) if not unknown else None
                if unknown or vc.dims:
                    I.write(a, st, lambda idx, old: I.unk("conditional write", *idx))
                    return
                r = self.arr_getview(a, i, st)
                if r is None:
                    I.write(a, st, lambda idx, old: I.unk("conditional write", *idx))
                    return
                dst = st.heap[a.root].dt
                nv = self.cast_term(vc.body, vc.dt, dst, st)
                I.write(r, st, lambda idx, old: tm.ite(cnd, nv, old))
                return
        items = self.expand(a, i, st)
        if any(isinstance(x, Unknown) for x in items):
            I.write(a, st, lambda idx, old: I.unk("write at an unknown index", *idx))
            return
        adv = [x for x in items if isinstance(x, Arr)]
        if not adv:
            if any(isinstance(x, (float, str)) for x in items):
                I.raise_(st, "IndexError", "only integers are valid indices")
            r = self.arr_view(a, items, st, False)
            if isinstance(r, Unknown):
                I.write(a, st, lambda idx, old: I.unk("write at an unknown index", *idx))
                return
            if unknown:
                I.write(r, st, lambda idx, old: I.unk(unknown, *idx))
                return
            if not r.dims and isinstance(v, Arr) and v.dims:
                if all(tm.cval(d) == 1 for d in v.dims):
                    v = self.scalar_of(v, st)
                else:
                    I.raise_(st, "ValueError", "setting an array element with a sequence")
            self.assign_whole(r, v, st)
            return
        if unknown:
            I.write(a, st, lambda idx, old: I.unk(unknown, *idx))
            return
        self.scatter_write(a, items, v, st)

    def scatter_write(self, a, items, v, st):
        I = self.I
        mk = self.split_mask(a, items, st)
        dst = st.heap[a.root].dt
        cv = self.content(v, st)
        if mk:
            k = mk[0]
            m = items[k]
            cm = I.read(m, st)
            if len(mk) > 1 or len([x for x in items if isinstance(x, Arr)]) > 1 or cm.mask is not None:
                I.write(a, st, lambda idx, old: I.unk("masked write", *idx))
                return
            pre = list(items)
            pre[k:k + 1] = [Slice(None, None, None)] * len(m.dims)
            r = self.arr_view(a, pre, st, False)
            if isinstance(r, Unknown):
                I.write(a, st, lambda idx, old: I.unk("masked write", *idx))
                return
            lead = sum(1 for x in items[:k] if x is None or isinstance(x, Slice))
            for d, e in zip(r.dims[lead:], m.dims):
                if d is not e:
                    I.may_raise(st, tm.cmp("!=", d, e), "IndexError", "boolean index did not match")
            if cv.mask is not None:
                def valt(idx):
                    ren = {x.a[0]: y for x, y in zip(cv.vars, idx)}
                    mm = tm.truth(tm.subst(cm.body, {x.a[0]: y for x, y in zip(cm.vars, idx[lead:])}))
                    if tm.subst(cv.mask, ren) is mm:
                        return tm.subst(cv.body, ren)
                    return I.unk("masked write of another selection", *idx)
            elif cv.dims and any(tm.cval(d) != 1 for d in cv.dims):
                if len(r.dims) > len(m.dims) and len(cv.dims) <= len(r.dims) - len(m.dims):
                    def valt(idx):
                        return tm.subst(cv.body, {x.a[0]: (tm.ZERO if tm.cval(d) == 1 else y) for x, d, y in
                                                  zip(cv.vars, cv.dims, idx[len(idx) - len(cv.dims):])})
                else:
                    def valt(idx):
                        return I.unk("masked write of an array", *idx)
            else:
                z = tm.subst(cv.body, {x.a[0]: tm.ZERO for x in cv.vars})

                def valt(idx):
                    return z
            heap_old = st.heap[a.root]

            def w(idx, old):
                mm = tm.truth(tm.subst(cm.body, {x.a[0]: y for x, y in zip(cm.vars, idx[lead:])}))
                return tm.ite(mm, self.cast_term(valt(idx), cv.dt, dst, st), old)
            I.write(r, st, w)
            return
        advpos = [k for k, x in enumerate(items) if isinstance(x, Arr)]
        if len(advpos) != 1 or any(is_num(x) for x in items) and False:
            # several index arrays: only scalar pairs over one shared axis
            cs = [self.content(items[k], st) for k in advpos]
            b = self.bc(cs, st)
            if b is None or len(b[0]) != 1 or b[3] is not None or len(items) != len(advpos) or \
                    (cv.dims and len(cv.dims) != 1):
                I.write(a, st, lambda idx, old: I.unk("scatter write", *idx))
                return
            kdim, kv, bodies = b[0][0], b[1][0], b[2]
            val = tm.subst(cv.body, {x.a[0]: (tm.ZERO if tm.cval(d) == 1 else kv)
                                     for x, d in zip(cv.vars, cv.dims)})
            val = self.cast_term(val, cv.dt, dst, st)
            ts = [self.norm_index(t, d, st, True) for t, d in zip(bodies, a.dims)]

            def w2(idx, old):
                hit = tm.and_(*[tm.cmp("==", t, p) for t, p in zip(ts, idx)])
                vv = val
                for t, p in zip(ts, idx):
                    vv = tm._replace(vv, {t: p}) if t.op not in ("c", "v") else vv
                if kv.a[0] not in vv.fv:
                    ex = tm.cmp("<", tm.ZERO, tm.sum_(kv, kdim, hit))
                    return tm.ite(ex, vv, old)
                return tm.scatter(kv, kdim, hit, val, tm.ONE, old)
            I.write(a, st, w2)
            return
        k = advpos[0]
        ci = self.content(items[k], st)
        if ci.dt in FLOATS:
            I.raise_(st, "IndexError", "arrays used as indices must be of integer type")
        pre = list(items)
        pre[k] = Slice(None, None, None)
        r = self.arr_view(a, pre, st, False)
        if isinstance(r, Unknown):
            I.write(a, st, lambda idx, old: I.unk("scatter write", *idx))
            return
        axis = sum(1 for x in pre[:k] if x is None or isinstance(x, Slice))
        dim = r.dims[axis]
        if ci.mask is not None and len(ci.vars) != 1 or ci.mask is None and len(ci.dims) != 1:
            I.write(a, st, lambda idx, old: I.unk("scatter write", *idx))
            return
        q = tm.fresh("q")
        kdim = ci.vary[0] if ci.mask is not None else ci.dims[0]
        it = tm.subst(ci.body, {ci.vars[0].a[0]: q})
        mask = tm.ONE if ci.mask is None else tm.subst(ci.mask, {ci.vars[0].a[0]: q})
        raw = it
        it = self.norm_index(it, dim, st, True)
        # value at (…, q, …)
        rd = list(r.dims)
        rd[axis] = ci.dims[0]
        if cv.mask is not None:
            ren = {x.a[0]: q for x in cv.vars[:1]}
            if len(cv.vars) != 1 or mask is tm.ONE or tm.subst(cv.mask, ren) is not mask or len(rd) != 1:
                I.write(a, st, lambda idx, old: I.unk("scatter write", *idx))
                return
        elif not self.check_fits(tuple(rd), cv.dims, st):
            return

        def w(idx, old):
            full = list(idx)
            p = full[axis]
            full[axis] = q
            if cv.mask is not None:
                val = tm.subst(cv.body, {cv.vars[0].a[0]: q})
            else:
                off = len(full) - len(cv.dims)
                m = {x.a[0]: (tm.ZERO if tm.cval(d) == 1 else full[off + j])
                     for j, (x, d) in enumerate(zip(cv.vars, cv.dims))}
                val = tm.subst(cv.body, m)
            val = self.cast_term(val, cv.dt, dst, st)
            hit = tm.and_(mask, tm.cmp("==", it, p))
            if it is q and mask is tm.ONE:
                inb = tm.and_(tm.cmp("<=", tm.ZERO, p), self.I.simp_cond(tm.cmp("<", p, kdim)))
                return tm.ite(inb, tm.subst(val, {q.a[0]: p}), old)
            v2 = val
            if it.op not in ("c", "v"):
                v2 = tm._replace(val, {it: p})
            if q.a[0] not in v2.fv:
                ex = tm.cmp("<", tm.ZERO, tm.sum_(q, kdim, hit))
                return tm.ite(ex, v2, old)
            if mask is tm.ONE:
                return tm.scatter(q, kdim, it, val, p, old)
            return tm.scatter(q, kdim, hit, val, tm.ONE, old)
        I.write(r, st, w)

    # ------------------------------------------------------------ other objects
    def obj_getitem(self, o, i, st):
        I = self.I
        i = self.scalar_of(i, st) if isinstance(i, Arr) else i
        if isinstance(o, Ref) and o.kind == "list":
            rec = st.objs[o.id]
            if isinstance(rec, list):
                r = self.seq_getitem(rec, i, st)
                if isinstance(i, Slice) and isinstance(r, (list, tuple)):
                    return I.new_list(st, list(r))
                return r
            if isinstance(rec, SymSeq):
                r = self.symseq_getitem(rec, i, st)
                if isinstance(r, SymSeq) and isinstance(i, Slice):
                    return I.new_obj(st, "list", r)
                return r
            return Unknown("element of unknown list")
        if isinstance(o, tuple):
            r = self.seq_getitem(list(o), i, st)
            return tuple(r) if isinstance(r, list) else r
        if isinstance(o, str):
            if isinstance(i, int) and -len(o) <= i < len(o):
                return o[i]
            if isinstance(i, Slice) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                return o[slice(i.lo, i.hi, i.step)]
            return SStr("character")
        if isinstance(o, SymSeq):
            return self.symseq_getitem(o, i, st)
        if isinstance(o, Ref) and o.kind == "dict":
            rec = st.objs[o.id]
            if not isinstance(rec, dict):
                return Unknown("element of unknown dict")
            if self.hashable(i):
                if i in rec:
                    return rec[i]
                if isinstance(i, SNum):
                    return Unknown("dict lookup")
                I.raise_(st, "KeyError", i)
            return Unknown("dict lookup")
        if isinstance(o, ClassVal):
            if o.kind == "enum":
                if isinstance(i, str):
                    if i in o.members:
                        return o.members[i]
                    I.raise_(st, "KeyError", i)
                return Unknown("enum lookup")
            return o
        if isinstance(o, Ext):
            return o
        if isinstance(o, NType):
            idx = i if isinstance(i, tuple) else (i,)
            lay = "A"
            if isinstance(idx[-1], Slice) and idx[-1].step == 1:
                lay = "C"
            return NType(o.dt, len(idx), lay)
        if isinstance(o, Ref) and o.kind == "inst":
            m = self.getattr_or(o, "__getitem__", st)
            if m is not MISSING and not isinstance(m, Unknown):
                return I.call(m, [i], {}, st)
            return Unknown("item of object")
        if isinstance(o, SStr):
            return SStr("character")
        if o is None or is_num(o) or isinstance(o, FuncVal):
            I.raise_(st, "TypeError", "not subscriptable")
        return Unknown("item of object")

    def seq_getitem(self, items, i, st):
        I = self.I
        if isinstance(i, bool) or isinstance(i, int):
            if not -len(items) <= i < len(items):
                I.raise_(st, "IndexError")
            return items[i]
        if isinstance(i, SNum):
            if not items:
                I.raise_(st, "IndexError")
            c = tm.cval(i.t)
            if c is not None:
                return self.seq_getitem(items, int(c), st)
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                cnd = tm.cmp("==", i.t, tm.const(k))
                a = items[k]
                if is_num(a) and is_num(r):
                    (d1, n1), (d2, n2) = self.ntype(a), self.ntype(r)
                    r = SNum(tm.ite(cnd, self.term(a), self.term(r)), self.promote(d1, d2), n1 or n2)
                else:
                    r = Phi(cnd, a, r)
            return r
        if isinstance(i, Slice):
            xs = []
            for x in (i.lo, i.hi, i.step):
                if isinstance(x, SNum):
                    c = tm.cval(x.t)
                    if c is None:
                        return Unknown("slice of a sequence with symbolic bounds")
                    x = int(c)
                if x is not None and not isinstance(x, int):
                    return Unknown("slice of a sequence")
                xs.append(x)
            return list(items[slice(*xs)])
        if isinstance(i, Unknown):
            return Unknown("element at unknown index")
        I.raise_(st, "TypeError", "indices must be integers")

    def symseq_getitem(self, s, i, st):
        I = self.I
        if is_num(i):
            t = self.norm_index(self.term(i), s.dim, st)
            return I.inst_value(s.value, s.var, t, st)
        if isinstance(i, Slice):
            r = self.slice_bounds(i, s.dim, st)
            if r is None:
                return Unknown("slice of a sequence")
            v = tm.fresh("i")
            I.bounds[v.a[0]] = (0, I.term_bounds(r[2])[1])
            return SymSeq(v, r[2], I.inst_value(s.value, s.var, tm.add(r[0], tm.mul(r[1], v)), st))
        return Unknown("element at unknown index")
