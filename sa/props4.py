"""Exponents, dispatch, row-wise evaluation, array libraries: C16 - C19."""
from __future__ import annotations

from .catalog import *
from .props2 import pair_sum, stat_arg, fld, NAMES, SIZES, samples, alternatives
from .props3 import test_inputs, KINDS, site


# ---------------------------------------------------------------- C16

def exponent_targets(C):
    """(label, build(i) -> (fn, args, kw, spec(e), field))"""
    for fn in COV + CORR + STATS:
        for m, fx, fy in (("NAIVE", "1d", "1d"), ("NAIVE", "mat", "1d"), ("AUTO", "1d", "1d"), ("AUTO", "mat", "mat"),
                          ("AUTO", "col", "1d")):
            if m == "AUTO" and fx != "mat" and fn not in (COV[0], COV[1], CORR[2], STATS[0]) and not C.thorough:
                continue

            def build(i, fn=fn, m=m, fx=fx, fy=fy):
                i.add("x", fx, "n", 2)
                i.add("y", fy, "n", 2)
                X, Y = i.smp["x"], i.smp["y"]
                return "dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, m)}, \
                    lambda e: want_of(fn, X, Y, e), None
            yield f"{fn} {m} x={fx} y={fy}", build
    for f in ("1d", "mat"):
        for u in ("U", "V"):
            for fn in ("dcor:energy_distance", "dcor.homogeneity:energy_test_statistic"):
                def build(i, f=f, u=u, fn=fn):
                    i.add("x", f, "n", "p")
                    i.add("y", f, "m", "p")
                    X, Y = i.smp["x"], i.smp["y"]
                    w = (lambda e: spec.energy(X, Y, e, u == "U")) if fn.endswith("distance") else \
                        (lambda e: pair_sum([X, Y], None, e, u == "U"))
                    return fn, [i.arr["x"], i.arr["y"]], {"estimation_stat": u}, w, None
                yield f"{fn.partition(':')[2]} {f} {u}", build
    for kind in KINDS:
        def build(i, kind=kind):
            j, fn, args, stat, n = test_inputs(C, kind)
            i.st, i.shape, i.arr, i.smp = j.st, j.shape, j.arr, j.smp
            return fn, args, {}, lambda e: stat(e, False), "statistic"
        yield f"{kind} test", build


EXPS = [Fraction(1, 2), Fraction(3, 2), Fraction(1), Fraction(127, 64), Fraction(1, 64), Fraction(7, 4)]
OUT = [Fraction(2), Fraction(0), Fraction(-1), Fraction(5, 2), Fraction(3)]


def e_sizes(C, i, es):
    out = []
    base = [dict(n=5, m=4, k=3, p=2, q=2, p2=1), dict(n=4, m=6, k=2, p=1, q=1, p2=2)]
    for k, e in enumerate(es):
        out.append(dict(base[k % 2], e=e))
    return out


def c16(C):
    for label, build in exponent_targets(C):
        if C.skip():
            continue
        i = In(C)
        fn, args, kw, w, field = build(i)
        E = C.S.scalar("e")
        o = C.call(fn, args, dict(kw, exponent=E), i.st)
        pts = []
        for fam in ("generic", "ties"):
            pts += C.points(i.shape, e_sizes(C, i, EXPS), [fam])
        rule = "all distances are raised to the given exponent"
        if field:
            fld(C, rule, label, o, field, w(E.t), pts)
        else:
            C.compare(rule, label, o, w(E.t), pts)
        warn_rule(C, label, o, C.points(i.shape, e_sizes(C, i, EXPS + OUT), ["generic"]))
        # exponent 1 given as other numbers
        for val in (1.0, 2):
            i2 = In(C)
            fn, args, kw, w, field = build(i2)
            o = C.call(fn, args, dict(kw, exponent=val), i2.st)
            pts = C.points(i2.shape, e_sizes(C, i2, EXPS[:2]), ["generic"])
            if field:
                fld(C, rule, f"{label} exponent={val}", o, field, w(tm.const(val)), pts)
            else:
                C.compare(rule, f"{label} exponent={val}", o, w(tm.const(val)), pts)
            warn_rule(C, f"{label} exponent={val}", o, pts[:1], lambda p, val=val: not 0 < val < 2)
        i3 = In(C)
        fn, args, kw, w, field = build(i3)
        o = C.call(fn, args, kw, i3.st)
        pts = C.points(i3.shape, e_sizes(C, i3, EXPS[:2]), ["generic"])
        if field:
            fld(C, "the default exponent is 1", label, o, field, w(spec.ONE), pts)
        else:
            C.compare("the default exponent is 1", label, o, w(spec.ONE), pts)
        warn_rule(C, f"{label} default exponent", o, pts[:1], lambda p: False)
    for fn in COV + CORR + STATS:
        for m in FAST:
            for f in ("1d", "col"):
                if f == "col" and fn != COV[0]:
                    continue
                if C.skip():
                    continue
                i = pair(C, f, f)
                E = C.S.scalar("e")
                o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, m), "exponent": E}, i.st)
                sz = [s for s in e_sizes(C, i, EXPS + OUT) if s["e"] != 1]
                i1 = pair(C, f, f)
                ok = [C.call("dcor:" + fn, [i1.arr["x"], i1.arr["y"]], {"method": method(C, m)}, i1.st)]
                C.rejects("methods for exponent 1 refuse other exponents", f"{fn} {m} {f}", o,
                          C.points(i.shape, sz, ["generic"]), ok)
                C.compare("and accept exponent 1", f"{fn} {m} {f}", o, want_of(fn, i.smp["x"], i.smp["y"]),
                          C.points(i.shape, [dict(n=5, e=Fraction(1))], ["generic"]))
                for val in (0.5, 2, 1.5):
                    i = pair(C, f, f)
                    o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, m), "exponent": val}, i.st)
                    C.rejects("methods for exponent 1 refuse other exponents", f"{fn} {m} {f} exponent={val}", o,
                              C.points(i.shape, [dict(n=5)], ["generic"]), ok)


def warn_rule(C, label, o, pts, expect=None):
    """The exponent warning is issued exactly outside the open interval (0, 2)."""
    rule = "a warning is issued exactly when the exponent is not in (0, 2)"
    if o.crash:
        return C.row(rule, label, UNDECIDED, o.crash, o.entry)
    ws = [e for e in o.effects if e.kind == "warn" and "Deprecat" not in str(e.info.get("category"))]
    if any(not known(c) for e in ws for c in e.pc):
        return C.row(rule, label, UNDECIDED, "condition of a warning not known", o.entry, o.path)
    for p in pts:
        want = expect(p) if expect else not 0 < p.syms["e"] < 2
        E = p.evaluator()
        try:
            hit = [e for e in ws if all(E.ev(c, {}) != 0 for c in e.pc)]
        except (KeyError, tm.EvalError) as e:
            return C.row(rule, label, UNDECIDED, f"condition of a warning: {e}", o.entry, o.path)
        if bool(hit) != want:
            what = "no warning" if want else f"a warning ({C.show(hit[0])})"
            return C.row(rule, label, VIOLATED, f"{p.describe()}: {what}", site(hit[0]) if hit else o.entry, o.path)
    return C.row(rule, label, CHECKED, f"{len(pts)} exponents", o.entry, o.path)


# ---------------------------------------------------------------- C17

def entered(o):
    """Functions entered under a feasible path, by definition site."""
    return {p for p in o.path}


def quadratic(C, o, sym="n"):
    """Allocations growing like the square of the sample size."""
    return [e for e in o.effects if e.kind == "alloc" and growth(e.info["dims"], sym)]


def growth(dims, sym, base=None):
    """True when the number of elements grows faster than n log n; None when not known."""
    vals = []
    for n in (2 ** 10, 2 ** 14):
        E = tm.Evaluator(Sizes(n), lambda *a: (_ for _ in ()).throw(tm.EvalError("data")))
        try:
            v = 1
            for d in dims:
                v *= max(0, int(E.ev(d, {})))
        except (tm.EvalError, KeyError, OverflowError, ValueError):
            return None
        vals.append(v)
    import math
    return vals[1] > 64 * 2 ** 14 * math.log2(2 ** 14) and vals[1] > 40 * vals[0]


class Sizes(dict):
    """Every sample size symbol has the same large value."""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def __missing__(self, k):
        if k in ("n", "m", "k", "l"):
            return self.n
        if k == "e":
            return 1
        return 2


def dispatch_call(C, fn, m, f="1d", ns="np", dt="f8", cm=None, e=None, n="n", p=2, fy=None, order="C"):
    i = In(C)
    i.add("x", f, n, p, ns=ns, dt=dt, order=order)
    i.add("y", fy or f, n, p, ns=ns, dt=dt, order=order)
    kw = {}
    if m is not None:
        kw["method"] = m
    if cm is not None:
        kw["compile_mode"] = cmode(C, cm)
    if e is not None:
        kw["exponent"] = e
    o = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], kw, i.st)
    return i, o


def which(C, o, excl):
    """Set of algorithms whose own functions were entered."""
    return {m for m, s in excl.items() if s & entered(o)}


def exclusive(C, fn):
    sets = {m: entered(dispatch_call(C, fn, method(C, m))[1]) for m in ("NAIVE",) + FAST}
    return {m: s - set().union(*[t for k, t in sets.items() if k != m]) for m, s in sets.items()}


def module_of(sites):
    return {s.split(":")[0] for s in sites}


def c17(C):
    names = {"NAIVE": ("naive", "NAIVE", "Naive"), "AVL": ("avl", "AVL", "Avl"),
             "MERGESORT": ("mergesort", "MERGESORT", "MergeSort"), "AUTO": ("auto", "AUTO", "Auto")}
    fns = COV + CORR + STATS + (AFINV if C.thorough else ())
    for fn in fns:
        if C.skip():
            continue
        excl = exclusive(C, fn)
        weak = [m for m, s in excl.items() if not s]
        ok = []
        for m in METHODS:
            i, o0 = dispatch_call(C, fn, method(C, m))
            ok.append(o0)
            for nm in names[m]:
                rule = "a name selects the same algorithm as the enum member"
                i, o = dispatch_call(C, fn, nm)
                if o.crash or o0.crash:
                    C.row(rule, f"{fn} {nm}", UNDECIDED, o.crash or o0.crash, o.entry)
                    continue
                if not o.returned and o0.returned:
                    C.row(rule, f"{fn} {nm}", VIOLATED, "the name is refused", o.entry, o.path)
                    continue
                a, b = which(C, o0, excl), which(C, o, excl)
                if a != b:
                    C.row(rule, f"{fn} {nm}", VIOLATED, f"enters the functions of {sorted(b)} instead of {sorted(a)}",
                          o.entry, o.path)
                elif weak:
                    C.row(rule, f"{fn} {nm}", UNDECIDED, f"{weak} have no functions of their own", o.entry)
                else:
                    C.row(rule, f"{fn} {nm}", CHECKED, f"{sorted(a)}", o.entry, o.path)
            if m == "AUTO":
                continue
            rule = "the requested method is the one that runs"
            mods = module_of(excl[m])
            other = {"AVL": "mergesort", "MERGESORT": "avl"}
            if m == "NAIVE":
                bad = [s for s in entered(o0) if "_fast_dcov_" in s] if not weak else []
                q = quadratic(C, o0)
                if not q:
                    bad = bad or ["no pairwise distance matrix is formed"]
                C.row(rule, f"{fn} {m}", VIOLATED if bad and not o0.crash and o0.returned else CHECKED,
                      str(bad[:3]) if bad else "", o0.entry, o0.path)
            elif any("avl" in s for s in mods) or any("mergesort" in s for s in mods):
                bad = [s for s in entered(o0) if f"_fast_dcov_{other[m]}" in s]
                own = [s for s in entered(o0) if f"_fast_dcov_{m.lower()}" in s]
                v = VIOLATED if bad and not own else CHECKED
                C.row(rule, f"{fn} {m}", v, f"runs {bad[:2]}" if v == VIOLATED else "", o0.entry, o0.path)
        for bad in ("fast", "", "naive ", "avltree", "merge_sort", "auto2"):
            i, o = dispatch_call(C, fn, bad)
            C.rejects("unknown method names are refused", f"{fn} {bad!r}", o, i.points(families=["generic"])[:2], ok)
    auto_rules(C, fns)
    compile_rules(C)


def auto_rules(C, fns):
    rule = "automatic choice: fast only for univariate NumPy data, more than 3 observations, exponent 1"
    cases = [("1d", "1d", "np", "f8", "n", None, True), ("col", "col", "np", "f8", "n", None, True),
             ("1d", "col", "np", "f8", "n", None, True), ("mat", "mat", "np", "f8", "n", None, False),
             ("1d", "mat", "np", "f8", "n", None, False), ("mat", "1d", "np", "f8", "n", None, False),
             ("1d", "1d", "xp", "f8", "n", None, False), ("col", "col", "xp", "f8", "n", None, False),
             ("1d", "1d", "np", "f8", 3, None, False), ("1d", "1d", "np", "f8", 4, None, True),
             ("1d", "1d", "np", "f8", 2, None, False),
             ("1d", "1d", "np", "f8", "n", 1.5, False), ("1d", "1d", "np", "f8", "n", 1, True),
             ("1d", "1d", "np", "f8", "n", 1.0, True), ("1d", "1d", "np", "f8", "n", 0.5, False),
             ("1d", "1d", "np", "f8", "n", 0.999, False), ("1d", "1d", "np", "f8", "n", 2, False),
             ("1d", "1d", "np", "f4", "n", None, True), ("1d", "1d", "np", "di", "n", None, True)]
    for fn in fns[:9]:
        for fx, fy, ns, dt, n, e, fast in cases:
            if fn not in (COV[0], COV[1], STATS[0], CORR[1]) and (fx, dt, n) != ("1d", "f8", "n") and not C.thorough:
                continue
            if n != "n" and n <= 3 and fn.startswith("u_"):
                continue
            if C.skip():
                continue
            excl = exclusive(C, fn)
            if not all(excl.values()):
                C.row(rule, fn, UNDECIDED, "algorithms share all functions", None)
                continue
            for m in (None, method(C, "AUTO")):
                i, o = dispatch_call(C, fn, m, fx, ns, dt, e=e, n=n, fy=fy)
                cfg = f"{fn} x={fx} y={fy} namespace={ns} dtype={dt} n={n} exponent={e} {'AUTO' if m else 'default'}"
                if o.crash:
                    C.row(rule, cfg, UNDECIDED, o.crash, o.entry)
                    continue
                got = which(C, o, excl)
                used_fast = bool(got & set(FAST))
                used_naive = "NAIVE" in got
                if fast:
                    if used_naive and not used_fast:
                        C.row(rule, cfg, VIOLATED, "the naive algorithm is used", o.entry, o.path)
                    elif used_naive:
                        C.row(rule, cfg, path_verdict(C, o, i, excl, True), "both algorithms may run", o.entry, o.path)
                    else:
                        C.row(rule, cfg, CHECKED, str(sorted(got)), o.entry, o.path)
                else:
                    if used_fast:
                        C.row(rule, cfg, path_verdict(C, o, i, excl, False), "a fast algorithm is used", o.entry,
                              o.path)
                    else:
                        C.row(rule, cfg, CHECKED, str(sorted(got)), o.entry, o.path)


def path_verdict(C, o, i, excl, fast):
    """Both algorithms appear on some path: look for a point that takes the wrong one."""
    bad = excl["NAIVE"] if fast else excl["AVL"] | excl["MERGESORT"]
    pts = i.points(families=["generic", "ties", "constant", "huge"])
    for e in o.effects:
        if e.kind == "enter" and C.where(e.info["fn"]) in bad:
            if any(not known(c) for c in e.pc):
                return UNDECIDED
            for p in pts:
                E = p.evaluator()
                try:
                    if all(E.ev(c, {}) != 0 for c in e.pc):
                        return VIOLATED
                except (KeyError, tm.EvalError):
                    return UNDECIDED
    return UNDECIDED


def compile_rules(C):
    for m in METHODS:
        for f in ("1d", "col", "mat"):
            if m in FAST and f == "mat":
                continue
            for fn in (COV[0], COV[1], STATS[0], CORR[1]):
                for dt in ("f8", "f4", "di"):
                    if dt != "f8" and (f != "1d" or fn != COV[0]):
                        continue
                    if C.skip():
                        continue
                    cfg = f"{fn} {m} {f} dtype={dt}"
                    i, o = dispatch_call(C, fn, method(C, m), f, dt=dt, cm="NO_COMPILE")
                    C.effects("no compiled kernel runs without compilation", cfg, o, ("compiled-call",),
                              "compiled kernel called", need_return=True)
                    slow = m == "NAIVE" or f == "mat"
                    ok = [o]
                    for cm in ("COMPILE_CPU", "COMPILE_PARALLEL"):
                        i, o = dispatch_call(C, fn, method(C, m), f, dt=dt, cm=cm)
                        if slow or cm == "COMPILE_PARALLEL":
                            C.rejects("unsupported compile modes raise an error", f"{cfg} {cm}", o,
                                      i.points(families=["generic"])[:2], ok)
                        else:
                            compiled_or_error(C, f"{cfg} {cm}", i, o)
                    # automatic compile mode gives an answer
                    i, o = dispatch_call(C, fn, method(C, m), f, dt=dt, cm="AUTO")
                    if not o.crash and not o.returned:
                        C.row("automatic compile mode works", cfg, VIOLATED, f"raises {o.raised[-1:]}"[:200], o.entry,
                              o.path)


def compiled_or_error(C, cfg, i, o):
    """With an explicit compiled mode every returning path calls a compiled kernel."""
    rule = "an explicit compiled mode never falls back silently"
    if o.crash:
        return C.row(rule, cfg, UNDECIDED, o.crash, o.entry)
    if not o.returned:
        return C.row(rule, cfg, CHECKED, "every path raises", o.entry, o.path)
    ks = [e for e in o.effects if e.kind == "compiled-call"]
    if not ks:
        return C.row(rule, cfg, VIOLATED, "returns without calling a compiled kernel", o.entry, o.path)
    ob = Observer(o, C.S)
    for p in i.points(families=["generic", "ties"], sizes=sizes_for(C, i.shape, (5, 4))):
        E = p.evaluator()
        try:
            if any(all(E.ev(c, {}) != 0 for c in e.pc) for e in ks):
                continue
            raised = any(all(E.ev(c, {}) != 0 for c in g) for g, _ in ob.raised)
        except (KeyError, tm.EvalError):
            continue
        if not raised and all(known(c) for e in ks for c in e.pc) and not ob.fuzzy:
            return C.row(rule, cfg, VIOLATED, f"{p.describe()}: no compiled kernel is called", o.entry, o.path)
    return C.row(rule, cfg, CHECKED, f"{len(ks)} kernel calls", o.entry, o.path)


# ---------------------------------------------------------------- C18

def row_sample(name, h, n, nd, p=1):
    if nd == 1:
        return spec.Sample(name, n, 1, 1, get=lambda i, k: tm.elem(name, h, i))
    return spec.Sample(name, n, p, 2, get=lambda i, k: tm.elem(name, h, i, k))


def row_input(C, form, dt="f8", order="C"):
    """Collections of h samples of n observations: vectors, columns or matrices with 2 columns."""
    i = In(C)
    h, n = C.S.size("h", 1), C.S.size("n", 4)
    dims = {"1d": (h, n), "col": (h, n, tm.const(1)), "mat": (h, n, tm.const(2))}[form]
    shp = {"1d": ("h", "n"), "col": ("h", "n", 1), "mat": ("h", "n", 2)}[form]
    for q in "xy":
        i.arr[q] = C.S.array(i.st, q, dims, dt=dt, order=order)
        i.shape[q] = shp
    i.h, i.n = h, n
    return i


def row_mode(C, m):
    v = C.S.enum("RowwiseMode", m)
    if v is MISSING:
        raise Missing("RowwiseMode." + m)
    return v


ROW_SIZES = [dict(h=2, n=5, e=Fraction(3, 2)), dict(h=3, n=4, e=Fraction(1, 2)), dict(h=1, n=6, e=Fraction(5, 4))]
ROW_FAM = ["generic", "ties", {"x": "constant"}, {"y": "constant"}, "constant", "tiny", "huge", {"y": "=x"}, "offset",
           {"x": "zero", "y": "tiny"}]


def row_spec(fn, i, form, e=spec.ONE):
    nd = 1 if form == "1d" else 2
    p = {"1d": 1, "col": 1, "mat": 2}[form]

    def at(h):
        X, Y = row_sample("x", h, i.n, nd, p), row_sample("y", h, i.n, nd, p)
        if fn == "energy_distance":
            return spec.energy(X, Y, e)
        return want_of(fn, X, Y, e)
    return SpecArr((i.h,), at)


def c18(C):
    rule = "entry i = value of the function on the i-th pair"
    fns = COV + CORR
    modes = ("AUTO", "NAIVE", "OPTIMIZED")
    for fn in fns:
        for mode in modes:
            for cm in (None, "AUTO", "NO_COMPILE", "COMPILE_CPU", "COMPILE_PARALLEL"):
                for form in ("1d", "col", "mat"):
                    if form != "1d" and cm not in (None, "NO_COMPILE"):
                        continue
                    if form == "col" and fn not in (COV[0], CORR[2]) and not C.thorough:
                        continue
                    if cm == "AUTO" and not C.thorough:
                        continue
                    if C.skip((fn, form)):
                        continue
                    row_case(C, rule, fn, mode, cm, form, {})
        for dt, order in (("di", "C"), ("f4", "C"), ("f8", "A")):
            for mode in modes:
                if fn not in (COV[0], CORR[0]):
                    continue
                if C.skip((fn, "1d")):
                    continue
                row_case(C, rule, fn, mode, None, "1d", {}, dt, order)
        for m in METHODS:
            for mode in modes:
                if C.skip((fn, "1d") if m != "NAIVE" else (fn, m)):
                    continue
                if m in FAST and mode == "NAIVE" and fn not in (COV[0], CORR[1]):
                    continue
                row_case(C, rule, fn, mode, None, "1d", {"method": m})
        for mode in modes:
            if C.skip((fn, "exponent")):
                continue
            row_case(C, rule, fn, mode, None, "1d", {"exponent": "e"})
            row_case(C, rule, fn, mode, None, "1d", {"exponent": 1.5})
    for mode in modes:
        for form in ("1d", "mat"):
            if C.skip():
                continue
            row_case(C, rule, "energy_distance", mode, None, form, {})
    for fn in ("distance_covariance_sqr", "u_distance_correlation_sqr", "distance_correlation"):
        for mode in modes:
            for hs in (1, 2, 3):
                if C.skip():
                    continue
                list_case(C, rule, fn, mode, hs)
    if not C.skip():
        row_paths(C)


def row_case(C, rule, fn, mode, cm, form, opts, dt="f8", order="C"):
    i = row_input(C, form, dt, order)
    kw = {"rowwise_mode": row_mode(C, mode)}
    e = spec.ONE
    if cm:
        kw["compile_mode"] = cmode(C, cm)
    if "method" in opts:
        kw["method"] = method(C, opts["method"])
    if "exponent" in opts:
        if opts["exponent"] == "e":
            kw["exponent"] = C.S.scalar("e")
            e = kw["exponent"].t
        else:
            kw["exponent"] = opts["exponent"]
            e = tm.const(opts["exponent"])
    f = C.fn("dcor:" + fn)
    o = C.call("dcor:rowwise", [f, i.arr["x"], i.arr["y"]], kw, i.st)
    o.entry = C.where(C.fn("dcor:rowwise"))
    cfg = f"rowwise({fn}) mode={mode} compile={cm or 'default'} {form} {opts or ''} dtype={dt}" + \
        (f" layout={order}" if order != "C" else "")
    pts = i.points(families=ROW_FAM if form != "mat" else ROW_FAM[:5], sizes=ROW_SIZES)
    fast = form != "mat" and fn in COV + CORR
    m = opts.get("method", "AUTO")
    plain = "exponent" not in opts
    optimised = fast and m in ("AUTO", "AVL") and plain and cm != "NO_COMPILE"
    # what plain evaluation would do
    refuses = m in FAST and not plain or cm == "COMPILE_PARALLEL" or cm == "COMPILE_CPU" and (
        m == "NAIVE" or form == "mat") or fn == "energy_distance" and cm
    if mode == "OPTIMIZED" and not optimised:
        if "exponent" in opts and opts["exponent"] == "e":
            return C.compare(rule, cfg, o, row_spec(fn, i, form),
                             C.points(i.shape, [dict(h=2, n=5, e=Fraction(1))], ["generic"]))
        return C.rejects("the optimised mode fails when there is no optimised implementation", cfg, o, pts[:3])
    if refuses and not (optimised and mode != "NAIVE"):
        return C.rejects("modes refused by the function are refused row-wise", cfg, o, pts[:3])
    neg = []
    if fn in CORR and optimised and mode != "NAIVE":
        # a variance that rounding made negative counts with its absolute value, as in the function itself
        nd, p = (1, 1) if form == "1d" else (2, 1)
        X, Y = (row_sample(q, spec.ZERO, i.n, nd, p) for q in "xy")
        s = spec.stats_sqr(X, Y, spec.ONE, fn.startswith("u_"))
        # (absolute values do not change the specified result, hence the specification itself as the expected value)
        neg = [(s[k], row_spec(fn, i, form, e)) for k in ("variance_x", "variance_y")]
    C.compare(rule, cfg, o, row_spec(fn, i, form, e), pts, neg=neg)


def list_case(C, rule, fn, mode, h):
    """Collections given as tuples of h arrays of possibly different sizes."""
    i = In(C)
    xs, ys, want = [], [], []
    same_n = mode == "OPTIMIZED"
    for k in range(h):
        n = "n" if same_n else ("n", "m", "k")[k]
        xs.append(i.add(f"x{k}", "1d", n))
        ys.append(i.add(f"y{k}", "1d", n))
        want.append(want_of(fn, i.smp[f"x{k}"], i.smp[f"y{k}"]))
    if not same_n and h > 1:
        # ragged collections: only the naive evaluation can take them
        if mode != "NAIVE":
            return
    f = C.fn("dcor:" + fn)
    o = C.call("dcor:rowwise", [f, tuple(xs), tuple(ys)], {"rowwise_mode": row_mode(C, mode)}, i.st)
    o.entry = C.where(C.fn("dcor:rowwise"))
    w = SpecArr((tm.const(h),), lambda j: pick(j, want))
    C.compare(rule, f"rowwise({fn}) mode={mode} tuple of {h} arrays", o, w,
              i.points(families=["generic", "ties", "constant"], sizes=[dict(n=5, m=4, k=6), dict(n=4, m=5, k=4)]))


def pick(j, vals):
    r = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        r = tm.ite(tm.cmp("==", j, tm.const(k)), vals[k], r)
    return r


def row_paths(C):
    """Which implementation runs, seen from the functions that are entered."""
    rule = "the naive mode never uses an optimised implementation"
    for fn in COV + CORR:
        paths = {}
        for mode in ("NAIVE", "OPTIMIZED"):
            i = row_input(C, "1d")
            o = C.call("dcor:rowwise", [C.fn("dcor:" + fn), i.arr["x"], i.arr["y"]],
                       {"rowwise_mode": row_mode(C, mode), "method": method(C, "AVL")}, i.st)
            paths[mode] = o
        i = In(C)
        i.add("x")
        i.add("y")
        direct = C.call("dcor:" + fn, [i.arr["x"], i.arr["y"]], {"method": method(C, "AVL")}, i.st)
        if any(o.crash for o in (*paths.values(), direct)):
            C.row(rule, fn, UNDECIDED, "not analysable", direct.entry)
            continue
        extra = entered(paths["OPTIMIZED"]) - entered(direct)
        extra = {s for s in extra if not s.endswith(" rowwise")}
        kernels = {e.info.get("fn") for e in paths["OPTIMIZED"].effects if e.kind == "gu-broadcast"}
        bad = [e for e in paths["NAIVE"].effects if e.kind == "gu-broadcast"]
        if bad:
            C.row(rule, fn, VIOLATED, C.show(bad[0]), site(bad[0]), paths["NAIVE"].path)
        else:
            C.row(rule, fn, CHECKED, f"{len(kernels)} vectorised kernels are not reached", direct.entry,
                  paths["NAIVE"].path)


# ---------------------------------------------------------------- C19

def stat_values(v, st):
    """Numbers and arrays inside a returned statistic."""
    if isinstance(v, Phi):
        return stat_values(v.a, st) + stat_values(v.b, st)
    if isinstance(v, tuple):
        return [x for y in v for x in stat_values(y, st)]
    if isinstance(v, Ref) and isinstance(st.objs.get(v.id), Inst):
        return [x for k, y in sorted(st.objs[v.id].attrs.items()) for x in stat_values(y, st) if k != "pvalue"]
    return [v]


def c19(C):
    rule = "results are arrays of the caller's library"
    for case in catalog(C, nss=("xp",), methods=("AUTO", "NAIVE"), cmodes=("AUTO", "NO_COMPILE"), rowwise=False,
                        dts=("f8", "f4")):
        if C.skip():
            continue
        o, i = case.run()
        pts = case.points() if any(e.kind in ("foreign-array", "nonstandard") for e in o.effects) else ()
        C.effects("only operations of the caller's library touch its arrays", case.cfg, o,
                  ("foreign-array", "nonstandard"), "operation of another library", points=pts)
        if o.crash:
            continue
        if not o.returned:
            C.row(rule, case.cfg, VIOLATED, f"always raises {o.raised[-1][1] if o.raised else ''}"[:200], o.entry,
                  o.path)
            continue
        if "projection" in case.fn:
            b = i.matrix("b", ns="xp")
            o2 = C.call(o.value, [b], {}, o.st)
            o2.entry, o2.path = o.entry, o.path
            C.effects("only operations of the caller's library touch its arrays", case.cfg + " applied", o2,
                      ("foreign-array", "nonstandard"), "operation of another library")
            o = o2
            if o.crash or not o.returned:
                continue
        vals = stat_values(o.value, o.st)
        if any(isinstance(v, Unknown) for v in vals):
            C.row(rule, case.cfg, UNDECIDED, "unknown value", o.entry, o.path)
            continue
        bad = []
        for v in vals:
            if isinstance(v, Arr):
                if C.I.read(v, o.st).ns != "xp":
                    bad.append("a NumPy array")
            elif isinstance(v, SNum):
                bad.append("a NumPy scalar" if v.ns == "np" else "a Python number")
            elif isinstance(v, (int, float)):
                bad.append("a Python number")
            else:
                bad.append(type(v).__name__)
        C.row(rule, case.cfg, VIOLATED if bad else CHECKED, f"returns {bad[0]}" if bad else f"{len(vals)} values",
              o.entry, o.path)
        pv = C.field(o, "pvalue")
        if pv is not MISSING and any(isinstance(x, Arr) for x in alternatives(pv)):
            C.row("p-values are plain floats", case.cfg, VIOLATED, "the p-value is an array", o.entry, o.path)


PROPS = {"C16": c16, "C17": c17, "C18": c18, "C19": c19}
