"""Incompatible samples, integer data, memory, input forms, symmetry: C20 - C24."""
from __future__ import annotations

import math

from .catalog import *
from .props2 import fld, NAMES, samples
from .props3 import test_inputs, KINDS
from .props4 import growth, row_mode, dispatch_call, Sizes

PARTIAL = ("partial_distance_covariance", "partial_distance_correlation")
TTEST = ("distance_correlation_t_statistic", "distance_correlation_t_test")


# ---------------------------------------------------------------- C20

LENGTHS = [dict(n=5, m=6), dict(n=5, m=4), dict(n=5, m=1), dict(n=1, m=5), dict(n=4, m=8), dict(n=9, m=3),
           dict(n=6, m=2), dict(n=2, m=6)]


def mismatched(C, forms, which, names, kwa, consts=None):
    """Samples of which one has m observations and the others n."""
    i = In(C)
    for k, (q, f) in enumerate(zip(names, forms)):
        s = ("m" if k == which else "n") if consts is None else consts[k == which]
        i.add(q, f, s, 2, lo=1, **kwa)
    return i


def c20(C):
    rule = "samples of different sizes are refused"
    npd = dict(dt="f8", ns="np")
    for fn in COV + STATS + CORR + AFINV:
        for m in METHODS:
            for f in (("1d", "1d"), ("col", "col"), ("1d", "col"), ("mat", "mat"), ("1d", "mat"), ("mat", "1d")):
                if m in FAST and "mat" in f:
                    continue
                for cm in ("AUTO", "NO_COMPILE", "COMPILE_CPU"):
                    if cm == "COMPILE_CPU" and (m not in FAST) or fn in AFINV and (cm != "AUTO" or "1d" in f):
                        continue
                    if f != ("1d", "1d") and cm != "AUTO" and not C.thorough:
                        continue
                    for ns in ("np", "xp"):
                        if ns == "xp" and (m in FAST or cm != "AUTO"):
                            continue
                        for consts in (None, (5, 1), (1, 5), (5, 4)):
                            if consts and (f not in (("1d", "1d"), ("mat", "mat")) or ns == "xp" and not C.thorough):
                                continue
                            if C.skip():
                                continue
                            i = mismatched(C, f, 1, "xy", dict(dt="f8", ns=ns), consts)
                            kw = {"method": method(C, m)}
                            if fn not in AFINV:
                                kw["compile_mode"] = cmode(C, cm)
                            o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], kw, i.st)
                            C.rejects(rule, f"{fn} {m} {cm} x={f[0]} y={f[1]} namespace={ns} sizes={consts or '(n, m)'}",
                                      o, C.points(i.shape, [dict(s, e=1) for s in LENGTHS], ["generic"]))
    for fn in COV + CORR:
        for m in FAST + ("AUTO", "NAIVE"):
            for dt in ("di", "f4"):
                if C.skip():
                    continue
                i = mismatched(C, ("1d", "1d"), 1, "xy", dict(dt=dt, ns="np"))
                o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, m)}, i.st)
                C.rejects(rule, f"{fn} {m} dtype={dt}", o, C.points(i.shape, LENGTHS, ["generic"]))
    # exponent given
    for fn in COV + CORR:
        for m in ("NAIVE", "AUTO"):
            if C.skip():
                continue
            i = mismatched(C, ("1d", "1d"), 1, "xy", npd)
            o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, m), "exponent": 1.5}, i.st)
            C.rejects(rule, f"{fn} {m} exponent=1.5", o, C.points(i.shape, LENGTHS, ["generic"]))
    triples(C, rule)
    tests(C, rule)
    components(C)
    rows_sizes(C)


def triples(C, rule):
    for fn in PARTIAL:
        for which in range(3):
            for f in ("1d", "col", "mat"):
                for ns in ("np", "xp"):
                    for consts in (None, (5, 1), (1, 5), (5, 4)):
                        if C.skip():
                            continue
                        i = mismatched(C, (f,) * 3, which, "xyz", dict(dt="f8", ns=ns), consts)
                        o = C.call("dcor:" + fn, [i.arr[q] for q in "xyz"], {}, i.st)
                        C.rejects(rule, f"{fn} {f} namespace={ns} other size in position {which} "
                                  f"sizes={consts or '(n, m)'}", o, C.points(i.shape, LENGTHS, ["generic"]))


def tests(C, rule):
    todo = [("distance_covariance_test", 2), ("partial_distance_covariance_test", 3)] + [(t, 2) for t in TTEST]
    for fn, k in todo:
        for which in range(1, k) if k == 2 else range(k):
            for f in ("1d", "mat"):
                for ns in ("np", "xp"):
                    for consts in (None, (5, 1), (1, 5), (5, 4)):
                        for R in (0, "R"):
                            if fn in TTEST and R:
                                continue
                            if C.skip():
                                continue
                            i = mismatched(C, (f,) * k, which, "xyz"[:k], dict(dt="f8", ns=ns), consts)
                            kw = {}
                            if fn not in TTEST:
                                kw = {"random_state": C.S.rng(i.st), "num_resamples": SNum(C.S.size("R", 0), "int")
                                      if R else 0}
                            o = C.call("dcor.independence:" + fn, [i.arr[q] for q in "xyz"[:k]], kw, i.st)
                            C.rejects(rule, f"{fn} {f} namespace={ns} other size in position {which} resamples={R} "
                                      f"sizes={consts or '(n, m)'}", o,
                                      C.points(i.shape, [dict(s, R=2) for s in LENGTHS], ["generic"]))


def components(C):
    rule = "samples with different numbers of components are refused"
    P = [dict(n=4, m=5, p=2, q=3), dict(n=4, m=5, p=1, q=3), dict(n=5, m=5, p=3, q=1), dict(n=4, m=4, p=2, q=1),
         dict(n=2, m=3, p=3, q=2), dict(n=3, m=2, p=2, q=4), dict(n=1, m=3, p=3, q=1)]
    todo = [("dcor.distances:pairwise_distances", {}), ("dcor:energy_distance", {"estimation_stat": "V"}),
            ("dcor:energy_distance", {"estimation_stat": "U"}), ("dcor.homogeneity:energy_test_statistic", {}),
            ("dcor.homogeneity:energy_test", {})]
    for fn, opts in todo:
        for ns in ("np", "xp"):
            for e in (None, 1.5):
                for dt in ("f8", "di", "f4"):
                    if dt == "di" and ns == "xp":
                        continue
                    for fx, fy, px, py in (("mat", "mat", "p", "q"), ("mat", "mat", 1, 3), ("mat", "mat", 3, 1),
                                           ("mat", "mat", 2, 3), ("1d", "mat", 1, 2), ("mat", "1d", 2, 1),
                                           ("col", "mat", 1, 2)):
                        if dt == "f4" and px != "p":
                            continue
                        if C.skip():
                            continue
                        i = In(C)
                        i.add("x", fx, "n", px, lo=1, dt=dt, ns=ns)
                        i.add("y", fy, "m", py, lo=1, dt=dt, ns=ns)
                        args = [i.arr["x"], i.arr["y"]]
                        kw = dict(opts)
                        if e:
                            kw["exponent"] = e
                        if fn.endswith("energy_test"):
                            kw["random_state"] = C.S.rng(i.st)
                            kw["num_resamples"] = 0
                        o = C.call(fn, args, kw, i.st)
                        C.rejects(rule, f"{fn.partition(':')[2]} {opts.get('estimation_stat', '')} x={fx}({px}) "
                                  f"y={fy}({py}) exponent={e} dtype={dt} namespace={ns}", o,
                                  C.points(i.shape, P, ["generic"]))
    for bad in range(3):
        for R in (0, "R"):
            if C.skip():
                continue
            i = In(C)
            for k, (q, s) in enumerate(zip("xyz", ("n", "m", "k"))):
                i.add(q, "mat", s, "q" if k == bad else "p", lo=1)
            kw = {"random_state": C.S.rng(i.st), "num_resamples": SNum(C.S.size("R", 0), "int") if R else 0}
            o = C.call("dcor.homogeneity:energy_test", [i.arr[q] for q in "xyz"], kw, i.st)
            C.rejects(rule, f"energy_test of 3 samples, other dimension in position {bad} resamples={R}", o,
                      C.points(i.shape, [dict(s, k=3, R=2) for s in P], ["generic"]))


def rows_sizes(C):
    rule = "row-wise collections of different lengths or sample sizes are refused"
    for fn in COV + CORR:
        for mode in ("AUTO", "NAIVE", "OPTIMIZED"):
            for what in ("h", "n"):
                for cm in (None, "NO_COMPILE"):
                    if cm and mode == "OPTIMIZED":
                        continue
                    if C.skip():
                        continue
                    i = In(C)
                    h, n = C.S.size("h", 1), C.S.size("n", 4)
                    h2, n2 = (C.S.size("g", 1), n) if what == "h" else (h, C.S.size("m", 1))
                    i.arr["x"] = C.S.array(i.st, "x", (h, n))
                    i.arr["y"] = C.S.array(i.st, "y", (h2, n2))
                    i.shape = {"x": ("h", "n"), "y": ("g", "n") if what == "h" else ("h", "m")}
                    kw = {"rowwise_mode": row_mode(C, mode)}
                    if cm:
                        kw["compile_mode"] = cmode(C, cm)
                    o = C.call("dcor:rowwise", [C.fn("dcor:" + fn), i.arr["x"], i.arr["y"]], kw, i.st)
                    o.entry = C.where(C.fn("dcor:rowwise"))
                    sz = [dict(h=2, g=3, n=5, m=4), dict(h=3, g=1, n=5, m=6), dict(h=1, g=2, n=4, m=1),
                          dict(h=2, g=4, n=6, m=8)]
                    C.rejects(rule, f"rowwise({fn}) mode={mode} compile={cm or 'default'} differing in "
                              f"{'rows' if what == 'h' else 'observations'}", o, C.points(i.shape, sz, ["generic"]))


# ---------------------------------------------------------------- C21

INTSTAT = ("double_centered", "u_centered", "mean_product", "u_product", "u_projection", "u_complementary_projection")
WRAP = "no arithmetic in a fixed-width integer type"


def c21(C):
    for case in catalog(C, dts=("di", "du"), exps=("default", "given")):
        if case.fn.partition(":")[2] in INTSTAT:
            continue
        if C.skip():
            continue
        o, i = case.run()
        pts = case.points() if any(e.kind == "int-arith" for e in o.effects) else ()
        C.effects(WRAP, case.cfg, o, ("int-arith",), "integer data are combined", need_return=True, points=pts)
    for case in catalog(C, dts=("di",), nss=("xp",), methods=("AUTO", "NAIVE"), cmodes=("AUTO",), rowwise=False):
        if case.fn.partition(":")[2] in INTSTAT:
            continue
        if C.skip():
            continue
        o, i = case.run()
        pts = case.points() if any(e.kind == "int-arith" for e in o.effects) else ()
        C.effects(WRAP, case.cfg, o, ("int-arith",), "integer data are combined", points=pts)
    rule = "value for integer data = value of the definition"
    fam = ["generic", "ties", {"x": "constant"}, "huge", "sorted", "binary", {"y": "=x"}]
    for fn in COV + CORR + STATS:
        for m in METHODS:
            for dx, dy in (("di", "di"), ("du", "du"), ("di", "du"), ("f8", "di"), ("di", "f8"), ("di", "f4")):
                for f in ("1d", "mat"):
                    if m in FAST and f == "mat":
                        continue
                    for cm in ("AUTO", "NO_COMPILE"):
                        if cm == "NO_COMPILE" and (m == "NAIVE" or f == "mat"):
                            continue
                        if not C.thorough and m != "NAIVE" and f != "mat" and fn not in (COV[0], COV[1], CORR[2]) \
                                and (dx, dy) != ("di", "du"):
                            continue
                        if C.skip((fn, m, f)):
                            continue
                        i = In(C)
                        i.add("x", f, "n", 2, dt=dx)
                        i.add("y", f, "n", 2, dt=dy)
                        o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]],
                                   {"method": method(C, m), "compile_mode": cmode(C, cm)}, i.st)
                        pts = i.points(families=fam, sizes=sizes_for(C, i.shape, (5, 4, 7)), int_arrays=("x", "y"))
                        cfg = f"{fn} {m} {cm} {f} x={dx} y={dy}"
                        C.compare(rule, cfg, o, want_of(fn, i.smp["x"], i.smp["y"]), pts)
                        C.effects(WRAP, cfg, o, ("int-arith",), "integer data are combined",
                                  points=pts if any(e.kind == "int-arith" for e in o.effects) else ())
    for u in ("U", "V"):
        for f in ("1d", "mat"):
            for dx, dy in (("di", "di"), ("du", "di"), ("f8", "du")):
                if C.skip():
                    continue
                i = In(C)
                i.add("x", f, "n", "p", dt=dx)
                i.add("y", f, "m", "p", dt=dy)
                o = C.call("dcor:energy_distance", [i.arr["x"], i.arr["y"]], {"estimation_stat": u}, i.st)
                C.compare(rule, f"energy_distance {u} {f} x={dx} y={dy}", o,
                          spec.energy(i.smp["x"], i.smp["y"], spec.ONE, u == "U"),
                          i.points(families=fam[:4], sizes=[dict(n=4, m=5, p=2), dict(n=5, m=3, p=1)],
                                   int_arrays=("x", "y")))
    for kind in KINDS:
        for dt in ("di", "du"):
            if C.skip():
                continue
            i, fn, args, stat, n = test_inputs(C, kind, dt=dt)
            o = C.call(fn, args, {"random_state": C.S.rng(i.st), "num_resamples": 0}, i.st)
            fld(C, rule, f"{kind} test dtype={dt}", o, "statistic", stat(spec.ONE, False),
                i.points(families=fam[:4], sizes=sizes_for(C, i.shape, (5, 4)), int_arrays=tuple(i.shape)))


# ---------------------------------------------------------------- C22

def c22(C):
    rule = "no allocation grows faster than n log n"
    fns = COV + CORR + STATS
    for fn in fns:
        for m in (None, "AUTO") + FAST:
            for cm in (None, "AUTO", "NO_COMPILE", "COMPILE_CPU"):
                for f, fy in (("1d", "1d"), ("col", "col"), ("1d", "col"), ("col", "1d")):
                    for dt in ("f8", "f4", "di"):
                        if not C.thorough and (f != "1d" or fy != "1d" or dt != "f8") and (
                                cm not in (None,) or fn not in (COV[0], COV[1], STATS[0], CORR[2])):
                            continue
                        for order in ("C", "A"):
                            if order == "A" and (dt != "f8" or cm):
                                continue
                            if C.skip((fn, f, fy)):
                                continue
                            i, o = dispatch_call(C, fn, method(C, m) if m else None, f, "np", dt, cm=cm, fy=fy,
                                                 order=order)
                            memory(C, rule, f"{fn} method={m or 'default'} compile={cm or 'default'} x={f} y={fy} "
                                   f"dtype={dt}" + (" layout=A" if order == "A" else ""), i, o)
    for fn in COV + CORR:
        for mode in ("AUTO", "OPTIMIZED", "NAIVE"):
            if C.skip():
                continue
            i = In(C)
            h, n = tm.const(2), C.S.size("n", 4)
            for q in "xy":
                i.arr[q] = C.S.array(i.st, q, (h, n))
                i.shape[q] = (2, "n")
            o = C.call("dcor:rowwise", [C.fn("dcor:" + fn), i.arr["x"], i.arr["y"]],
                       {"rowwise_mode": row_mode(C, mode)}, i.st)
            o.entry = C.where(C.fn("dcor:rowwise"))
            memory(C, rule, f"rowwise({fn}) mode={mode}", i, o)


def upper(t, n):
    """An upper bound of a size term when the sample size is n (None: not found)."""
    op, a = t.op, t.a
    if op == "c":
        return a[0]
    if op == "s":
        return Sizes(n)[a[0]]
    if op == "v":
        return n
    if op in ("cmp", "and", "not"):
        return 1
    if op == "sum":
        d, b = upper(a[1], n), upper(a[2], n)
        return None if d is None or b is None or b < 0 else max(d, 0) * b
    if op == "ite":
        x, y = upper(a[1], n), upper(a[2], n)
        return None if x is None or y is None else max(x, y)
    if op == "+":
        r = a[0]
        for c, p in a[1:]:
            if c < 0:
                if p.op in ("s", "v", "cmp", "and", "not"):
                    continue
                return None
            x = upper(p, n)
            if x is None:
                return None
            r += c * x
        return r
    if op == "*":
        r = 1
        for b, e in a:
            x = upper(b, n)
            if x is None or x < 0 or e < 0:
                return None
            r *= x ** e
        return r
    if op == "fn" and a[0] in ("ceil", "floor", "log2"):
        x = upper(a[1], n)
        if x is None:
            return None
        return math.ceil(x) if a[0] != "log2" else math.log2(max(x, 1))
    if not t.fv:
        try:
            return tm.Evaluator(Sizes(n), no_data).ev(t, {})
        except (tm.EvalError, OverflowError):
            return None
    return None


def no_data(name, idx):
    raise tm.EvalError("depends on the data")


def bounded(dims):
    r = 1
    n = 2 ** 14
    for d in dims:
        u = upper(d, n)
        if u is None:
            return False
        r *= max(u, 0)
    return r <= 64 * n * 14


def memory(C, rule, cfg, i, o):
    if o.crash:
        return C.row(rule, cfg, UNDECIDED, o.crash, o.entry)
    if not o.returned:
        return C.row(rule, cfg, UNDECIDED, "every path raises", o.entry, o.path)
    n, lost = 0, None
    for e in o.effects:
        if e.kind != "alloc":
            continue
        n += 1
        g = growth(e.info["dims"], "n")
        if g is None:
            if not bounded(e.info["dims"]):
                lost = e
        elif g and C.feasible(e, big_points(C, i)):
            return C.row(rule, cfg, VIOLATED, f"allocates {' x '.join(str(d) for d in e.info['dims'])} elements",
                         site(e), o.path)
    if lost is not None:
        return C.row(rule, cfg, UNDECIDED, "size of an allocation not known at " + str(site(lost)), site(lost), o.path)
    return C.row(rule, cfg, CHECKED, f"{n} allocations", o.entry, o.path)


def big_points(C, i):
    """Points that decide conditions on sizes: large sizes, data only where a condition needs them."""
    return C.points(i.shape, [dict(n=40, e=1), dict(n=500, e=1), dict(n=7, e=1)], ["generic"])


# ---------------------------------------------------------------- C23

def c23(C):
    rule = "same value for a vector and a one-column matrix"
    two = [(fn, m) for fn in COV + CORR + STATS for m in METHODS] + [(fn, m) for fn in AFINV for m in ("AUTO", "NAIVE")]
    for fn, m in two:
        for e in (None, 1.5):
            if e and m in FAST or e and fn in AFINV:
                continue
            if C.skip((fn, m)):
                continue
            fs = [("1d", "1d"), ("col", "1d"), ("1d", "col"), ("col", "col")]
            alike(C, rule, f"{fn} {m}" + (f" exponent={e}" if e else ""), "dcor:" + fn, "xy", ("n", "n"), fs,
                  dict({"method": method(C, m)}, **({"exponent": e} if e else {})))
            if m in ("NAIVE", "AUTO") and fn not in AFINV:
                alike(C, rule, f"{fn} {m} with a matrix" + (f" exponent={e}" if e else ""), "dcor:" + fn, "xy",
                      ("n", "n"), [("1d", "mat"), ("col", "mat")],
                      dict({"method": method(C, m)}, **({"exponent": e} if e else {})))
                alike(C, rule, f"{fn} {m} after a matrix" + (f" exponent={e}" if e else ""), "dcor:" + fn, "xy",
                      ("n", "n"), [("mat", "1d"), ("mat", "col")],
                      dict({"method": method(C, m)}, **({"exponent": e} if e else {})))
    three = [("1d", "1d", "1d"), ("col", "1d", "1d"), ("1d", "col", "1d"), ("1d", "1d", "col"), ("col", "col", "col")]
    for fn in PARTIAL:
        if not C.skip():
            alike(C, rule, fn, "dcor:" + fn, "xyz", ("n",) * 3, three, {})
    for fn in TTEST:
        if not C.skip():
            alike(C, rule, fn, "dcor.independence:" + fn, "xy", ("n", "n"), [t[:2] for t in three[:3]] +
                  [("col", "col")], {})
    both = [("1d", "1d"), ("col", "1d"), ("1d", "col"), ("col", "col")]
    for e in (None, 1.5):
        kw = {"exponent": e} if e else {}
        tag = f" exponent={e}" if e else ""
        if not C.skip():
            alike(C, rule, "pairwise_distances of two samples" + tag, "dcor.distances:pairwise_distances", "xy",
                  ("n", "m"), both, kw)
        if not C.skip():
            alike(C, rule, "pairwise_distances of one sample" + tag, "dcor.distances:pairwise_distances", "x",
                  ("n",), [("1d",), ("col",)], kw)
        for u in "UV":
            for fn in ("dcor:energy_distance", "dcor.homogeneity:energy_test_statistic"):
                if not C.skip():
                    alike(C, rule, f"{fn.partition(':')[2]} {u}{tag}", fn, "xy", ("n", "m"), both,
                          dict(kw, estimation_stat=u))
        for fn, names, ns, fs in (("dcor.independence:distance_covariance_test", "xy", ("n", "n"), both),
                                  ("dcor.independence:partial_distance_covariance_test", "xyz", ("n",) * 3, three),
                                  ("dcor.homogeneity:energy_test", "xyz", ("n", "m", "k"), three)):
            for R in (0, 2):
                if not C.skip():
                    alike(C, rule, f"{fn.partition(':')[2]}{tag} resamples={R}", fn, names, ns, fs,
                          dict(kw, num_resamples=R, random_state=17))


def alike(C, rule, label, fn, names, sizes, forms, kw):
    outs = []
    for fs in forms:
        i = In(C)
        for q, f, s in zip(names, fs, sizes):
            # a column reads the same numbers as the vector
            i.add(q, f, s, 2, elem=(lambda q: lambda a, b: tm.elem(q, a))(q) if f == "col" else None)
            i.shape[q] = (s,) if f == "col" else i.shape[q]
        o = C.call(fn, [i.arr[q] for q in names], kw, i.st)
        outs.append((fs, i, o))
    fs0, i0, o0 = outs[0]
    for fs, i, o in outs[1:]:
        cfg = f"{label}: {'/'.join(fs)} = {'/'.join(fs0)}"
        if o0.crash or o.crash:
            C.row(rule, cfg, UNDECIDED, o0.crash or o.crash, o.entry)
            continue
        if not o0.returned or not o.returned:
            C.row(rule, cfg, UNDECIDED if o0.returned == o.returned else VIOLATED,
                  "one form raises, the other returns" if o0.returned != o.returned else "always raises",
                  o.entry, o.path)
            continue
        pts = i.points(families=["generic", "ties", {"x": "constant"}, "huge", "sorted"],
                       sizes=[dict(n=5, m=4, k=3, e=1), dict(n=4, m=5, k=4, e=1), dict(n=7, m=3, k=2, e=1)])
        C.compare(rule, cfg, o, o0.value, pts, spec_st=o0.st)


# ---------------------------------------------------------------- C24

def c24(C):
    rule = "same value after exchanging the samples"
    fam = ["generic", "ties", {"x": "constant"}, {"y": "constant"}, "huge", {"x": "tiny"}, "sorted"]
    for fn in COV + CORR + STATS + AFINV:
        for m in METHODS:
            if fn in AFINV and m in FAST:
                continue
            for fx, fy in (("1d", "1d"), ("mat", "mat"), ("1d", "mat"), ("col", "1d")):
                if m in FAST and "mat" in (fx, fy):
                    continue
                if fn in AFINV and (fx, fy) != ("mat", "mat"):
                    continue
                for e in (None, "e"):
                    if e and (m in FAST or fn in AFINV):
                        continue
                    if m != "NAIVE" and fx == "1d" and fy == "1d" and not e and not C.thorough and \
                            fn not in (COV[0], STATS[1], CORR[2]):
                        continue
                    if C.skip():
                        continue
                    swap(C, rule, f"{fn} {m} x={fx} y={fy} exponent={e or 1}", "dcor:" + fn, [("x", fx, "n", "p"),
                         ("y", fy, "n", "q")], (1, 0), dict({"method": method(C, m)},
                         **({"exponent": C.S.scalar("e")} if e else {})), fam)
    for fn in PARTIAL:
        for f in ("1d", "mat"):
            if C.skip():
                continue
            swap(C, rule, f"{fn} {f}", "dcor:" + fn, [(q, f, "n", q2) for q, q2 in zip("xyz", ("p", "q", "p2"))],
                 (1, 0, 2), {}, fam + [{"z": "=x"}, {"z": "constant"}])
    for fn in TTEST[:1]:
        for f in ("1d", "mat"):
            if C.skip():
                continue
            swap(C, rule, f"{fn} {f}", "dcor.independence:" + fn, [("x", f, "n", "p"), ("y", f, "n", "q")], (1, 0),
                 {}, fam)
    for fn in ("dcor:energy_distance", "dcor.homogeneity:energy_test_statistic"):
        for u in "UV":
            for f in ("1d", "mat"):
                for e in (None, "e"):
                    if C.skip():
                        continue
                    kw = {"estimation_stat": u}
                    if e:
                        kw["exponent"] = C.S.scalar("e")
                    swap(C, rule, f"{fn.partition(':')[2]} {u} {f} exponent={e or 1}", fn,
                         [("x", f, "n", "p"), ("y", f, "m", "p")], (1, 0), kw, fam)
    rule = "the statistic does not depend on the order of the samples"
    for f in ("1d", "mat"):
        for u in "UV":
            for order in ((1, 0, 2), (2, 1, 0), (0, 2, 1), (1, 2, 0), (2, 0, 1)):
                if C.skip():
                    continue
                swap(C, rule, f"energy_test {u} {f} order {order}", "dcor.homogeneity:energy_test",
                     [(q, f, s, "p") for q, s in zip("xyz", ("n", "m", "k"))], order,
                     {"num_resamples": 0, "random_state": 17, "estimation_stat": u}, fam, "statistic")


def swap(C, rule, label, fn, smp, order, kw, fam, field=None):
    outs = []
    for o_ in (tuple(range(len(smp))), order):
        i = In(C)
        for q, f, n, p in smp:
            i.add(q, f, n, p)
        args = [i.arr[q] for q, *_ in smp]
        o = C.call(fn, [args[k] for k in o_], kw, i.st)
        outs.append((i, o))
    (i0, o0), (i, o) = outs
    if o0.crash or o.crash or not o0.returned or not o.returned:
        return C.row(rule, label, UNDECIDED, o0.crash or o.crash or "always raises", o.entry, o.path)
    pts = i.points(families=fam, sizes=sizes_for(C, i.shape, (5, 4, 7)))
    if field:
        w = C.field(o0, field)
        return fld(C, rule, label, o, field, w, pts, spec_st=o0.st)
    v = o0.value
    if isinstance(v, Ref) and isinstance(o0.st.objs.get(v.id), Inst):
        d = dict(o0.st.objs[v.id].attrs)
        if "variance_x" in d:
            d["variance_x"], d["variance_y"] = d["variance_y"], d["variance_x"]
        v = {k: x for k, x in d.items() if not k.startswith("@")}
    C.compare(rule, label, o, v, pts, spec_st=o0.st)


PROPS = {"C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24}
