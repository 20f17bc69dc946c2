"""Covariance and correlation: C01 - C04."""
from __future__ import annotations

from .common import *


def c01(C):
    rule = "value of the naive method = mean product of double-centred (inner product of U-centred) distance matrices"
    forms = [("1d", "1d"), ("col", "col"), ("mat", "mat"), ("1d", "mat"), ("mat", "1d")]
    for fn in COV[:2]:
        u = fn.startswith("u_")
        for fx, fy in forms:
            for exp in ("default", "given"):
                if C.skip():
                    continue
                i = pair(C, fx, fy, lo=4 if u else 1)
                kw = {"method": method(C, "NAIVE")}
                e = spec.ONE
                if exp == "given":
                    kw["exponent"] = C.S.scalar("e")
                    e = kw["exponent"].t
                o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], kw, i.st)
                w = want_of(fn, i.smp["x"], i.smp["y"], e)
                sizes = sizes_for(C, i.shape) if u else sizes_for(C, i.shape, (5, 3, 2, 1, 8))
                C.compare(rule, f"{fn} x={fx} y={fy} exponent={exp}", o, w, i.points(sizes=sizes),
                          alt=expanded(i.smp["x"], i.smp["y"], e, u))
    for dt, ns, order in (("f4", "np", "C"), ("obj", "np", "C"), ("di", "np", "C"), ("f8", "xp", "C"),
                          ("f8", "np", "A")):
        for fn in COV[:2]:
            for f in ("1d", "mat"):
                if C.skip():
                    continue
                i = pair(C, f, f, dt=dt, ns=ns, order=order)
                o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, "NAIVE")}, i.st)
                w = want_of(fn, i.smp["x"], i.smp["y"])
                C.compare(rule, f"{fn} {f} dtype={dt} namespace={ns} layout={order}", o, w,
                          i.points(families=PAIR[:8]), alt=expanded(i.smp["x"], i.smp["y"], spec.ONE,
                                                                     fn.startswith("u_")))
    for how in VARIANTS:
        for fn in COV[:2]:
            for f in ("1d", "mat"):
                if C.skip():
                    continue
                i = variant(C, how, f, f)
                o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, "NAIVE")}, i.st)
                X, Y = i.smp["x"], i.smp["y"]
                C.compare(rule, f"{fn} {f} samples={how}", o, want_of(fn, X, Y), i.points(families=PAIR[:6]),
                          alt=expanded(X, Y, spec.ONE, fn.startswith("u_")))
    for fn in COV[:2]:
        for f in ("1d", "mat"):
            if C.skip():
                continue
            i = pair(C, f, f)
            o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]],
                       {"method": "naive", "compile_mode": cmode(C, "NO_COMPILE")}, i.st)
            C.compare(rule, f"{fn} {f} no compilation", o, want_of(fn, i.smp["x"], i.smp["y"]),
                      i.points(families=PAIR[:6]))
    # other automatic routes to the naive method
    for fx, fy in (("mat", "mat"), ("1d", "mat")):
        for fn in COV[:2]:
            if C.skip():
                continue
            i = pair(C, fx, fy)
            if fx == "mat":
                i = In(C)
                i.add("x", "mat", "n", 2)
                i.add("y", "mat", "n", 3)
            else:
                i = In(C)
                i.add("x", "1d")
                i.add("y", "mat", "n", 2)
            o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {}, i.st)
            C.compare(rule, f"{fn} automatic method x={fx} y={fy}", o, want_of(fn, i.smp["x"], i.smp["y"]),
                      i.points(families=PAIR[:8]))


def expanded(X, Y, e, u):
    """The same estimator with the centring multiplied out."""
    n = X.n
    a, b = spec.dmat(X, e), spec.dmat(Y, e)
    s1 = spec.S(n, lambda i: spec.S(n, lambda j: tm.mul(a(i, j), b(i, j))))
    s3 = spec.S(n, lambda i: tm.mul(spec.S(n, lambda j: a(i, j)), spec.S(n, lambda j: b(i, j))))
    sa = spec.S(n, lambda i: spec.S(n, lambda j: a(i, j)))
    sb = spec.S(n, lambda i: spec.S(n, lambda j: b(i, j)))
    c = lambda k: tm.sub(n, tm.const(k))
    inv = lambda t: tm.ipow(t, -1)
    if u:
        return tm.add(tm.mul(inv(n), inv(c(3)), s1), tm.scale(-2, tm.mul(inv(n), inv(c(2)), inv(c(3)), s3)),
                      tm.mul(inv(n), inv(c(1)), inv(c(2)), inv(c(3)), sa, sb))
    return tm.add(tm.mul(tm.ipow(n, -2), s1), tm.scale(-2, tm.mul(tm.ipow(n, -3), s3)),
                  tm.mul(tm.ipow(n, -4), sa, sb))


def c02(C):
    rule = "value of the fast algorithm = value of the definition"
    fns = ("distance_covariance_sqr", "u_distance_covariance_sqr", "distance_stats_sqr", "u_distance_stats_sqr")
    for m in FAST:
        for cm in ("AUTO", "NO_COMPILE", "COMPILE_CPU"):
            for fn in fns:
                for f in ("1d", "col"):
                    if C.skip():
                        continue
                    if f == "col" and (cm == "COMPILE_CPU" or fn.startswith("u_")) and not C.thorough:
                        continue
                    i = pair(C, f, f)
                    o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]],
                               {"method": method(C, m), "compile_mode": cmode(C, cm)}, i.st)
                    fam = PAIR if fn == fns[0] else PAIR[:6] + PAIR[9:11]
                    C.compare(rule, f"{fn} {m} {cm} {f}", o, want_of(fn, i.smp["x"], i.smp["y"]),
                              i.points(families=fam, sizes=sizes_for(C, i.shape, fast_sizes(C))))
        for dt, order in (("f8", "A"), ("f4", "C"), ("di", "C"), ("obj", "C")):
            if m == "MERGESORT" and dt == "obj":
                continue
            for cm in ("AUTO",) if dt != "f8" else ("AUTO", "COMPILE_CPU"):
                if C.skip():
                    continue
                i = pair(C, "1d", "1d", dt=dt, order=order, readonly=True)
                o = C.call("dcor:distance_covariance_sqr", [i.arr["x"], i.arr["y"]],
                           {"method": method(C, m), "compile_mode": cmode(C, cm)}, i.st)
                C.compare(rule, f"distance_covariance_sqr {m} {cm} dtype={dt} layout={order} read-only", o,
                          want_of("distance_covariance_sqr", i.smp["x"], i.smp["y"]),
                          i.points(families=["generic", "ties"], sizes=sizes_for(C, i.shape, fast_sizes(C))))
        for how in VARIANTS:
            for fn in (fns[0], fns[2]):
                if C.skip():
                    continue
                i = variant(C, how)
                o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, m)}, i.st)
                C.compare(rule, f"{fn} {m} samples={how}", o, want_of(fn, i.smp["x"], i.smp["y"]),
                          i.points(families=["generic", "ties", "sorted"], sizes=sizes_for(C, i.shape, (5, 6, 8))))
    for fn in fns:
        if C.skip():
            continue
        i = pair(C)
        o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {}, i.st)
        C.compare(rule, f"{fn} automatic method", o, want_of(fn, i.smp["x"], i.smp["y"]),
                  i.points(families=PAIR[:6], sizes=sizes_for(C, i.shape, fast_sizes(C))))


def fast_sizes(C):
    return (5, 4, 8, 11, 6, 13) if not C.thorough else (5, 4, 6, 7, 8, 9, 11, 12, 15, 16, 17, 19)


def c03(C):
    rule = "correlation = covariance / sqrt|variance product|, 0 exactly when that is 0; roots clamp at 0"
    for fn in CORR + STATS[:2] + ("distance_covariance", "distance_stats"):
        for m, f in (("NAIVE", "1d"), ("NAIVE", "mat"), ("AUTO", "1d"), ("AVL", "1d"), ("MERGESORT", "1d"),
                     ("AUTO", "mat2")):
            for ns in ("np", "xp"):
                if C.skip():
                    continue
                if ns == "xp" and (m != "NAIVE" and f != "mat2"):
                    continue
                if f == "mat2":
                    i = In(C)
                    i.add("x", "mat", "n", 2, ns=ns)
                    i.add("y", "mat", "n", 2, ns=ns)
                else:
                    i = pair(C, f, f, ns=ns)
                o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, m)}, i.st)
                X, Y = i.smp["x"], i.smp["y"]
                w = want_of(fn, X, Y)
                neg = []
                s = spec.stats_sqr(X, Y, spec.ONE, fn.startswith("u_"))
                if fn in ("distance_covariance", "distance_stats"):
                    z = {"covariance_xy": spec.ZERO, "correlation_xy": spec.ZERO,
                         "variance_x": spec.root(s["variance_x"]), "variance_y": spec.root(s["variance_y"])}
                    neg = [(s["covariance_xy"], spec.ZERO if fn == "distance_covariance" else z)]
                elif m == "NAIVE":
                    neg = [(s["variance_x"], None)]
                fam = PAIR if m in ("NAIVE", "AVL") else PAIR[:7]
                sizes = None if m == "NAIVE" else sizes_for(C, i.shape, (5, 4, 8, 11))
                C.compare(rule, f"{fn} {m} {f} namespace={ns}", o, w, i.points(families=fam, sizes=sizes), neg=neg)
    for how in VARIANTS + ("f4/f4", "di/di", "obj/obj"):
        for fn in CORR:
            for m, f in (("NAIVE", "1d"), ("NAIVE", "mat"), ("AUTO", "1d"), ("MERGESORT", "1d")):
                if how == "obj/obj" and m == "MERGESORT":
                    continue
                if fn == CORR[1] and m in FAST and not C.thorough or C.skip():
                    continue
                i = variant(C, how, f, f)
                o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, m)}, i.st)
                C.compare(rule, f"{fn} {m} {f} samples={how}", o, want_of(fn, i.smp["x"], i.smp["y"]),
                          i.points(families=["generic", "ties", {"x": "constant"}, "tiny", "constant"],
                                   sizes=sizes_for(C, i.shape, (5, 6, 7))))
    # exponent given
    for fn in CORR:
        for f in ("1d", "mat"):
            if C.skip():
                continue
            i = pair(C, f, f)
            e = C.S.scalar("e")
            o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, "NAIVE"), "exponent": e}, i.st)
            C.compare(rule, f"{fn} NAIVE {f} exponent given", o, want_of(fn, i.smp["x"], i.smp["y"], e.t),
                      i.points(families=PAIR[:8]))


def c04(C):
    rule = "same term as the counterpart function"
    fields = ("covariance_xy", "correlation_xy", "variance_x", "variance_y")
    for m in METHODS:
        forms = (("1d", "1d", ""), ("col", "col", "")) + ((("mat", "mat", ""), ("1d", "mat", "")) if m in ("NAIVE", "AUTO")
                                                          else ())
        forms += tuple(("1d", "1d", h) for h in VARIANTS if h != "same")
        forms += tuple(("mat", "mat", h) for h in VARIANTS if h != "same") if m in ("NAIVE", "AUTO") else ()
        for fx, fy, how in forms:
            for exp in (("default", "given") if m in ("NAIVE", "AUTO") and fx != "col" and not how else ("default",)):
                for pre, sq in (("", "_sqr"), ("u_", "_sqr"), ("", "")):
                    if how and (pre or not sq) and not C.thorough:
                        continue
                    if C.skip():
                        continue
                    if how:
                        i = variant(C, how, fx, fy)
                    else:
                        i = In(C)
                        i.add("x", fx, "n", 2)
                        i.add("y", fy, "n", 2)
                    kw = {"method": method(C, m)}
                    if exp == "given":
                        kw["exponent"] = C.S.scalar("e")
                    cfg = f"{m} x={fx} y={fy} exponent={exp}" + (f" samples={how}" if how else "")

                    def run(fn, a, b):
                        st = i.st.copy()
                        return C.call(f"dcor:{pre}{fn}{sq}", [i.arr[a], i.arr[b]], dict(kw), st)
                    os = run("distance_stats", "x", "y")
                    if os.crash or not os.returned:
                        C.row(rule, cfg, UNDECIDED, os.crash or "always raises", os.entry)
                        continue
                    sizes = sizes_for(C, i.shape, (5, 4, 8))
                    pts = i.points(families=PAIR[:5] + PAIR[10:11], sizes=sizes)
                    for fld, fn, a, b in (("covariance_xy", "distance_covariance", "x", "y"),
                                          ("correlation_xy", "distance_correlation", "x", "y"),
                                          ("variance_x", "distance_covariance", "x", "x"),
                                          ("variance_y", "distance_covariance", "y", "y")):
                        o = run(fn, a, b)
                        v = C.field(os, fld)
                        if v is MISSING:
                            C.row(rule, f"{cfg}: stats field {fld}", VIOLATED, "field missing", os.entry)
                            continue
                        C.compare(rule, f"{cfg}: {pre}{fn}{sq}({a},{b}) = {pre}distance_stats{sq}.{fld}", o, v, pts,
                                  spec_st=os.st)
                    if not sq:
                        continue
                    if pre:
                        continue
                    for fn in ("distance_covariance", "distance_correlation", "distance_stats"):
                        st = i.st.copy()
                        o = C.call(f"dcor:{fn}", [i.arr["x"], i.arr["y"]], dict(kw), st)
                        o2 = C.call(f"dcor:{fn}_sqr", [i.arr["x"], i.arr["y"]], dict(kw), i.st.copy())
                        w = C.rooted(o2)
                        if w is None:
                            C.row(rule, f"{cfg}: {fn}", UNDECIDED, "squared counterpart not analysable", o2.entry)
                            continue
                        C.compare(f"root of the squared counterpart", f"{cfg}: {fn} = sqrt({fn}_sqr)", o, w, pts)
    # order of iteration over stats objects
    for fn in STATS:
        if C.skip():
            continue
        i = pair(C)
        o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, "NAIVE")}, i.st)
        it = C.iterate(o)
        w = tuple(C.field(o, f) for f in fields)
        if it is None:
            C.row("iteration order of stats objects", fn, UNDECIDED, "not iterable by the analysis", o.entry)
        else:
            o.value = it
            C.compare("iteration order of stats objects", fn, o, w, i.points(families=PAIR[:2]), spec_st=o.st)
    # affine invariant versions: squared correlation of scaled data and its root
    for m in ("NAIVE", "AUTO"):
        if C.skip():
            continue
        i = pair(C, "mat", "mat")
        st2 = i.st.copy()
        o = C.call("dcor:distance_correlation_af_inv", [i.arr["x"], i.arr["y"]], {"method": method(C, m)}, i.st)
        o2 = C.call("dcor:distance_correlation_af_inv_sqr", [i.arr["x"], i.arr["y"]], {"method": method(C, m)}, st2)
        w = C.rooted(o2)
        if w is None:
            C.row(rule, f"af_inv {m}", UNDECIDED, "not analysable", o2.entry)
        else:
            C.compare("root of the squared counterpart", f"af_inv {m}", o, w, i.points(families=PAIR[:2]))


PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
