"""Affinely invariant distance correlation: C25."""
from __future__ import annotations

from .catalog import *
from .props4 import dispatch_call, exclusive, which, compiled_or_error


def covariance(X, p):
    n = X.n
    mean = [tm.mul(spec.S(n, lambda i, k=k: X.at(i, tm.const(k))), tm.ipow(n, -1)) for k in range(p)]
    dev = lambda i, k: tm.sub(X.at(i, tm.const(k)), mean[k])
    return [[tm.mul(spec.S(n, lambda i, k=k, l=l: tm.mul(dev(i, k), dev(i, l))), tm.ipow(tm.sub(n, spec.ONE), -1))
             for l in range(p)] for k in range(p)]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return tm.add(*[tm.scale((-1) ** k, tm.mul(m[0][k], det([r[:k] + r[k + 1:] for r in m[1:]])))
                    for k in range(len(m))])


def inverse(m):
    n = len(m)
    if n == 1:
        return [[tm.ipow(m[0][0], -1)]]
    d = tm.ipow(det(m), -1)
    minor = lambda i, j: [r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]
    return [[tm.scale((-1) ** (i + j), tm.mul(det(minor(j, i)), d)) for j in range(n)] for i in range(n)]


def mahalanobis(X, p):
    """Distances of the observations after multiplication by the inverse root of their covariance matrix."""
    inv = inverse(covariance(X, p))

    def a(i, j):
        d = [tm.sub(X.at(i, tm.const(k)), X.at(j, tm.const(k))) for k in range(p)]
        q = tm.add(*[tm.mul(d[k], inv[k][l], d[l]) for k in range(p) for l in range(p)])
        return tm.power(q, tm.HALF)
    return a


def affine(X, p, Y, q):
    n = X.n
    A, B = spec.centred(mahalanobis(X, p), n), spec.centred(mahalanobis(Y, q), n)
    m = spec.mean_prod
    return spec.corr(m(A, B, n), m(A, A, n), m(B, B, n))


AFAM = ["generic", "ties", "small", "positive", "tiny", "huge", "offset", {"y": "=x"}, {"x": "sorted", "y": "reversed"},
        {"x": "huge", "y": "tiny"}, {"x": "binary"}, "negative", "columns", {"x": "columns"}]


def regular(C, i, pts, ps):
    """Points at which no covariance matrix is singular (elsewhere the value is not defined)."""
    ds = [det(covariance(i.smp[k], p)) for k, p in ps.items()]
    out = []
    for pt in pts:
        E = pt.evaluator()
        try:
            if all(E.ev(d, {}) != 0 for d in ds):
                out.append(pt)
        except tm.EvalError:
            continue
    return out


def af_case(C, rule, fn, fx, p, fy, q, kw, label, fams, **opts):
    i = In(C)
    i.add("x", fx, "n", p, 4, **opts)
    if opts.pop("same", False):
        i.arr["y"], i.smp["y"] = i.arr["x"], i.smp["x"]
    else:
        i.add("y", fy, "n", q, 4, **opts)
    o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], kw, i.st)
    ps = {"x": 1 if fx != "mat" else p, "y": 1 if fy != "mat" else q}
    w = affine(i.smp["x"], ps["x"], i.smp["y"], ps["y"])
    if not fn.endswith("_sqr"):
        w = spec.root(w)
    ns = (6, 5, 8) if not C.thorough else (6, 5, 7, 8, 9, 11, 13)
    pts = regular(C, i, i.points(families=fams, sizes=sizes_for(C, i.shape, ns)), ps)
    C.compare(rule, f"{fn} x={fx}({p}) y={fy}({q}) {label}", o, w, pts)
    return i, o


def c25(C):
    rule = "value = distance correlation of the samples standardised by the inverse root of their covariance matrices"
    for fn in AFINV:
        for fx, p, fy, q in (("mat", 2, "mat", 2), ("mat", 1, "mat", 1), ("mat", 3, "mat", 2), ("1d", 1, "1d", 1),
                             ("mat", 2, "1d", 1), ("col", 1, "mat", 2), ("col", 1, "col", 1), ("mat", 1, "mat", 3)):
            for m in (None, "AUTO", "NAIVE", "AVL", "MERGESORT"):
                if m in FAST and max(p, q) > 1:
                    continue
                if m == "AUTO" and (p, q) not in ((2, 2), (1, 1)):
                    continue
                if C.skip():
                    continue
                fams = AFAM if m in (None, "NAIVE") or C.thorough else AFAM[:4]
                af_case(C, rule, fn, fx, p, fy, q, {} if m is None else {"method": method(C, m)},
                        m or "default method", fams)
        for dt, ns, order in (("di", "np", "C"), ("du", "np", "C"), ("f4", "np", "C"), ("f8", "np", "A"),
                              ("f8", "xp", "C")):
            for f, p in (("mat", 2), ("1d", 1)):
                if C.skip():
                    continue
                af_case(C, rule, fn, f, p, f, p, {}, f"dtype={dt} namespace={ns} layout={order}", AFAM[:6], dt=dt, ns=ns,
                        order=order)
        for cm in ("NO_COMPILE", "COMPILE_CPU"):
            for m in FAST + (("AUTO", "NAIVE") if cm == "NO_COMPILE" else ()):
                if C.skip():
                    continue
                af_case(C, rule, fn, "1d", 1, "1d", 1, {"method": method(C, m), "compile_mode": cmode(C, cm)},
                        f"{m} {cm}", AFAM[:4])
        # the method and the compile mode are passed on
        if C.skip():
            continue
        excl = exclusive(C, "distance_correlation_sqr")
        rule2 = "the requested method is the one that runs"
        for m in ("NAIVE",) + FAST:
            for f in ("1d", "col"):
                i, o = dispatch_call(C, fn, method(C, m), f)
                got = which(C, o, excl)
                if o.crash or not o.returned or not got or not all(excl.values()):
                    C.row(rule2, f"{fn} {m} {f}", UNDECIDED, o.crash or "no function belongs to one method only", o.entry)
                elif m not in got:
                    C.row(rule2, f"{fn} {m} {f}", VIOLATED, f"runs {sorted(got)}", o.entry, o.path)
                else:
                    C.row(rule2, f"{fn} {m} {f}", CHECKED, str(sorted(got)), o.entry, o.path)
        ok = [dispatch_call(C, fn, method(C, m), "1d")[1] for m in METHODS]
        for m in METHODS:
            i, o = dispatch_call(C, fn, method(C, m), "1d", cm="NO_COMPILE")
            C.effects("no compiled kernel runs without compilation", f"{fn} {m}", o, ("compiled-call",),
                      "compiled kernel called", need_return=True)
            i, o = dispatch_call(C, fn, method(C, m), "1d", cm="COMPILE_PARALLEL")
            C.rejects("unsupported compile modes raise an error", f"{fn} {m} COMPILE_PARALLEL", o,
                      i.points(families=["generic"])[:2], ok)
            i, o = dispatch_call(C, fn, method(C, m), "1d", cm="COMPILE_CPU")
            if m == "NAIVE":
                C.rejects("unsupported compile modes raise an error", f"{fn} {m} COMPILE_CPU", o,
                          i.points(families=["generic"])[:2], ok)
            else:
                compiled_or_error(C, f"{fn} {m} COMPILE_CPU", i, o)
        for bad in ("fast", "", "avltree"):
            i, o = dispatch_call(C, fn, bad)
            C.rejects("unknown method names are refused", f"{fn} {bad!r}", o, i.points(families=["generic"])[:2], ok)


# ---------------------------------------------------------------- C26

def exact_entries(C):
    """(label, build(i) -> (fn, args, kw, specification, alternative))"""
    for fn in COV + CORR + STATS:
        for m in (None, "NAIVE", "AVL"):
            for f in ("1d", "col", "mat"):
                if f == "mat" and m == "AVL" or f == "col" and (m == "NAIVE" or fn not in (COV[0], STATS[1])):
                    continue

                def build(i, fn=fn, m=m, f=f):
                    i.add("x", f, "n", 2, dt="obj")
                    i.add("y", f, "n", 2, dt="obj")
                    kw = {} if m is None else {"method": method(C, m)}
                    return "dcor:" + fn, [i.arr["x"], i.arr["y"]], kw, want_of(fn, i.smp["x"], i.smp["y"])
                yield f"{fn} {m or 'default'} {f}", build
    for fn in (COV[0], STATS[1]):
        def build(i, fn=fn):
            i.add("x", "1d", "n", 1, dt="obj")
            i.add("y", "1d", "n", 1, dt="obj")
            return "dcor:" + fn, [i.arr["x"], i.arr["y"]], \
                {"method": method(C, "AVL"), "compile_mode": cmode(C, "NO_COMPILE")}, want_of(fn, i.smp["x"], i.smp["y"])
        yield f"{fn} AVL NO_COMPILE", build
    for fn, f in (("partial_distance_covariance", spec.partial_dcov), ("partial_distance_correlation", spec.partial_dcor)):
        for form in ("1d", "mat"):
            def build(i, fn=fn, f=f, form=form):
                for q in "xyz":
                    i.add(q, form, "n", 2, dt="obj")
                return "dcor:" + fn, [i.arr[q] for q in "xyz"], {}, f(*[i.smp[q] for q in "xyz"])
            yield f"{fn} {form}", build
    for form in ("1d", "mat"):
        for u in (None, "U", "V"):
            def build(i, form=form, u=u):
                i.add("x", form, "n", 2, dt="obj")
                i.add("y", form, "m", 2, dt="obj")
                return "dcor:energy_distance", [i.arr["x"], i.arr["y"]], {"estimation_stat": u} if u else {}, \
                    spec.energy(i.smp["x"], i.smp["y"], u=u == "U")
            yield f"energy_distance {form} {u or 'default'}", build
        for two in (False, True):
            def build(i, form=form, two=two):
                i.add("x", form, "n", 2, dt="obj")
                X = Y = i.smp["x"]
                if two:
                    i.add("y", form, "m", 2, dt="obj")
                    Y = i.smp["y"]
                return "dcor.distances:pairwise_distances", [i.arr[q] for q in ("xy" if two else "x")], {}, \
                    SpecArr((X.n, Y.n), lambda a, b: spec.dist(X, a, Y, b))
            yield f"pairwise_distances {form} {'two samples' if two else 'one sample'}", build
    for fn, f in (("double_centered", spec.centred), ("u_centered", spec.u_centred)):
        def build(i, fn=fn, f=f):
            a = i.matrix("a", dt="obj")
            n = a.dims[0]
            return "dcor:" + fn, [a], {}, SpecArr((n, n), f(lambda r, c: tm.elem("a", r, c), n))
        yield fn, build


def result_types(v, st):
    """Numeric types in a result."""
    if isinstance(v, Arr):
        return {st.heap[v.root].dt}
    if isinstance(v, SNum):
        return {v.dt}
    if isinstance(v, Phi):
        return result_types(v.a, st) | result_types(v.b, st)
    if isinstance(v, tuple):
        return set().union(*[result_types(x, st) for x in v]) if v else set()
    if isinstance(v, Ref):
        r = st.objs.get(v.id)
        if hasattr(r, "attrs"):
            return set().union(*[result_types(x, st) for k, x in r.attrs.items() if not k.startswith("@")])
    if isinstance(v, float):
        return {"float"}
    return set()


XFAM = ["generic", "ties", {"x": "constant"}, "tiny", "huge", "offset", {"y": "=x"}, "constant"]


def c26(C):
    for kind in ("Fraction", "Decimal"):
        for label, build in exact_entries(C):
            if C.skip():
                continue
            i = In(C)
            C.I.exact = kind
            try:
                fn, args, kw, w = build(i)
                o = C.call(fn, args, kw, i.st)
            finally:
                C.I.exact = None
            cfg = f"{label} of {kind}"
            C.compare("the value is that of the definition", cfg, o, w, i.points(families=XFAM, sym_arrays=("a",)))
            rational = "centered" in label or label.startswith(COV[:2]) and "NAIVE" not in label and "mat" not in label
            if kind == "Decimal" or rational:       # elsewhere roots of fractions are floating-point numbers anyway
                C.effects("exact numbers are not converted to floating point", cfg, o, ("precision-loss",), "conversion")
            if kind == "Decimal" and o.returned and not o.crash:
                bad = sorted(t for t in result_types(o.value, o.st) if t in ("float", "f8", "f4"))
                # a constant result (degenerate data) has no type to lose
                C.row("the result is a decimal number", cfg, VIOLATED if bad else CHECKED,
                      f"result of type {bad}" if bad else "", o.entry, o.path)


PROPS = {"C25": c25, "C26": c26}
