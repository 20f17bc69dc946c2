"""Centering, products, partial statistics and energy distances: C05 - C09."""
from __future__ import annotations

from .arrays import FLOATS
from .common import *

TEST_SIZES = (5, 4, 7, 6)


def mat(name):
    return lambda i, j: tm.elem(name, i, j)


# ---------------------------------------------------------------- C05

def c05(C):
    rule = "value = element-wise centring formula"
    for fn, low in (("double_centered", 1), ("u_centered", 3)):
        for dt, ns in (("f8", "np"), ("di", "np"), ("du", "np"), ("f4", "np"), ("obj", "np"), ("f8", "xp"),
                       ("di", "xp")):
            for out in ("none", "other", "same", "view", "transposed", "other f8", "other f4"):
                if out in ("other", "same", "view", "transposed") and dt not in ("f8", "f4"):
                    continue
                if out[-2:] == dt or dt == "obj" and out != "none" or ns == "xp" and out == "other f4":
                    continue
                if C.skip():
                    continue
                i = In(C)
                a = i.matrix("a", lo=low, dt=dt, ns=ns, kind="input" if out.split()[0] in ("none", "other") else "out")
                n = tm.sym("n")
                kw = {}
                target = None
                if out.startswith("other"):
                    target = C.S.array(i.st, "b", (n, n), dt=out[6:] or dt, ns=ns, kind="out")
                    i.shape["b"] = ("n", "n")
                elif out == "same":
                    target = a
                elif out in ("view", "transposed"):
                    v = (tm.fresh("w"), tm.fresh("w"))
                    target = Arr(a.root, a.dims, v, v if out == "view" else v[::-1])
                if target is not None:
                    kw["out"] = target
                cen = (spec.centred if fn[0] == "d" else spec.u_centred)(mat("a"), n)
                cfg = f"{fn} dtype={dt} namespace={ns} out={out}"
                o = C.call("dcor:" + fn, [a], kw, i.st)
                w = SpecArr((n, n), cen)
                szs = sizes_for(C, i.shape, (5, 4, 3, 8, 2, 1) if low == 1 else (5, 4, 3, 8))
                pts = i.points(families=["generic", "ties", "constant", "tiny", "huge", "zero", "offset"], sizes=szs,
                               sym_arrays=("a", "b"))
                C.compare(rule, cfg, o, w, pts)
                if o.crash or not o.returned:
                    continue
                if out.split()[0] in ("none", "other"):
                    C.effects("input left untouched", cfg, o, ("write-input",), "the input is written", points=pts)
                if target is not None:
                    got = alternatives(o.value)
                    bad = [g for g in got if not (isinstance(g, Arr) and g.root == target.root)]
                    if any(isinstance(g, Unknown) for g in got):
                        C.row("output array returned", cfg, UNDECIDED, "unknown value", o.entry)
                    else:
                        C.row("output array returned", cfg, VIOLATED if bad else CHECKED,
                              "the result is not the given output array" if bad else "", o.entry, o.path)
                    o2 = sub(o, target)
                    o2.crash, o2.returned, o2.raised, o2.base_pc = None, True, o.raised, o.base_pc
                    o2.entry, o2.path = o.entry, o.path
                    C.compare("output array holds the result", cfg, o2, w, pts)
                else:
                    dts = {C.I.read(g, o.st).dt for g in alternatives(o.value) if isinstance(g, Arr)}
                    bad = [d for d in dts if d not in FLOATS + ("obj",)]
                    C.row("floating point result", cfg, VIOLATED if bad else CHECKED,
                          f"result dtype class {bad}" if bad else str(sorted(dts)), o.entry, o.path)
                    roots = {g.root for g in alternatives(o.value) if isinstance(g, Arr)}
                    if a.root in roots:
                        C.row("input left untouched", cfg, VIOLATED, "the result shares memory with the input",
                              o.entry, o.path)


def alternatives(v):
    if isinstance(v, Phi):
        return alternatives(v.a) + alternatives(v.b)
    return [v]


# ---------------------------------------------------------------- C06

def c06(C):
    n = tm.sym("n")
    A, B = mat("a"), mat("b")
    fam = ["generic", "ties", {"a": "zero"}, {"a": "tiny"}, {"a": "tiny", "b": "huge"}, {"b": "zero"}, {"b": "=a"},
           "constant", "tiny", "huge", "binary", "negative"]
    ip = spec.u_prod
    aa, ab = ip(A, A, n), ip(A, B, n)
    proj = lambda i, j: tm.ite(tm.cmp("==", aa, spec.ZERO), spec.ZERO, tm.mul(ab, tm.ipow(aa, -1), A(i, j)))
    specs = {
        "u_product": ip(A, B, n),
        "mean_product": spec.mean_prod(A, B, n),
        "u_projection": SpecArr((n, n), proj),
        "u_complementary_projection": SpecArr((n, n), lambda i, j: tm.sub(B(i, j), proj(i, j))),
    }
    for fn, w in specs.items():
        for dt, ns in (("f8", "np"), ("f4", "np"), ("f8", "xp"), ("obj", "np"), ("di", "np")):
            if dt == "di" and fn != "mean_product":
                continue
            if C.skip():
                continue
            i = In(C)
            lo = 1
            a, b = i.matrix("a", lo=lo, dt=dt, ns=ns), i.matrix("b", lo=lo, dt=dt, ns=ns)
            szs = sizes_for(C, i.shape, (5, 4, 7, 2, 1) if fn != "mean_product" else (5, 4, 3, 2, 1))
            pts = i.points(families=fam, sizes=szs)
            if "projection" in fn:
                o1 = C.call("dcor:" + fn, [a], {}, i.st)
                if o1.crash or not o1.returned:
                    C.row("projection formula", f"{fn} {dt} {ns}", UNDECIDED, o1.crash or "raises", o1.entry)
                    continue
                fs = o1.value
                o = C.call(fs, [b], {}, o1.st)
                o.raised = o1.raised + o.raised
                o.entry, o.path = o1.entry, o1.path + o.path
                o.base_pc = o1.base_pc
                # a second use of the same projector gives the same value for its own argument
                C.compare("projection formula", f"{fn} dtype={dt} namespace={ns}", o, w, pts)
                if o.returned and not o.crash:
                    o3 = C.call(fs, [b], {}, o.st)
                    o3.entry, o3.path, o3.base_pc = o1.entry, o.path, o1.base_pc
                    C.compare("projection formula", f"{fn} dtype={dt} namespace={ns} used again", o3, w, pts)
                    o4 = C.call(fs, [a], {}, o.st)
                    o4.entry, o4.path, o4.base_pc = o1.entry, o.path, o1.base_pc
                    sa_ = SpecArr((n, n), A) if fn == "u_projection" else \
                        SpecArr((n, n), lambda x, y: spec.ZERO)
                    pz = [p for p in pts if not (p.label.startswith("a:zero"))]
                    C.compare("projection of the direction itself", f"{fn} dtype={dt} namespace={ns}", o4, sa_, pz)
            else:
                o = C.call("dcor:" + fn, [a, b], {}, i.st)
                C.compare("product formula", f"{fn} dtype={dt} namespace={ns}", o, w, pts)
    # rectangular mean product
    if not C.skip():
        i = In(C)
        nn, p = C.S.size("n", 1), C.S.size("p", 1)
        a = C.S.array(i.st, "a", (nn, p))
        b = C.S.array(i.st, "b", (nn, p))
        i.shape = {"a": ("n", "p"), "b": ("n", "p")}
        o = C.call("dcor:mean_product", [a, b], {}, i.st)
        w = tm.mul(tm.ipow(nn, -1), tm.ipow(p, -1), spec.S(nn, lambda x: spec.S(p, lambda y: tm.mul(A(x, y), B(x, y)))))
        C.compare("product formula", "mean_product of rectangular matrices", o, w, i.points(families=fam[:6]))


# ---------------------------------------------------------------- C07

def c07(C):
    for fn, f in (("partial_distance_covariance", spec.partial_dcov),
                  ("partial_distance_correlation", spec.partial_dcor)):
        for forms in (("1d", "1d", "1d"), ("mat", "mat", "mat"), ("1d", "col", "mat"), ("col", "1d", "1d")):
            for dt, ns in (("f8", "np"), ("f8", "xp"), ("di", "np"), ("f4", "np")):
                if dt != "f8" and forms[0] != "1d":
                    continue
                if C.skip():
                    continue
                i = In(C)
                for nm, fm, p in zip("xyz", forms, ("p", "q", "p2")):
                    i.add(nm, fm, "n", p, ns=ns, dt=dt)
                X, Y, Z = (i.smp[k] for k in "xyz")
                o = C.call("dcor:" + fn, [i.arr[k] for k in "xyz"], {}, i.st)
                fam = TRIPLE if forms[0] == forms[1] == "1d" else TRIPLE[:6] + TRIPLE[-5:]
                C.compare("definition through U-centred matrices", f"{fn} {'/'.join(forms)} dtype={dt} namespace={ns}",
                          o, f(X, Y, Z), i.points(families=fam, sizes=sizes_for(C, i.shape, (5, 4, 6, 7))))


# ---------------------------------------------------------------- C08

STAT_FORMS = [("default", None, False), ("enum", "V", False), ("enum", "U", True), ("'v'", "v", False),
              ("'V'", "V", False), ("'u'", "u", True), ("'U'", "U", True), ("'v_statistic'", "v_statistic", False),
              ("'V_STATISTIC'", "V_STATISTIC", False), ("'u_statistic'", "u_statistic", True),
              ("'U_STATISTIC'", "U_STATISTIC", True), ("'U_Statistic'", "U_Statistic", True)]


def stat_arg(C, form, v):
    if form == "default":
        return {}
    if form == "enum":
        e = C.S.enum("EstimationStatistic", v + "_STATISTIC")
        if e is MISSING:
            raise Missing("EstimationStatistic")
        return {"estimation_stat": e}
    return {"estimation_stat": v}


def opaque_average(C):
    return Opaque("average")


def avg_energy(C, blocks, u):
    """2 A(xy) - A(xx) - A(yy) with an uninterpreted symmetric functional A."""
    def val(f, n, m, upper):
        def s(k):
            def cell(i, j):
                v = tm.ipow(f(i, j), k)
                return tm.ite(tm.cmp("<", i, j), v, spec.ZERO) if upper else v
            return spec.S(n, lambda i: spec.S(m, lambda j: cell(i, j)))
        cnt = tm.mul(tm.HALF, n, tm.sub(n, spec.ONE)) if upper else tm.mul(n, m)
        return tm.opq("user:average", cnt, s(1), s(2), s(3))
    (dxx, dyy, dxy, n, m) = blocks
    return tm.sub(tm.scale(2, val(dxy, n, m, False)), tm.add(val(dxx, n, n, u), val(dyy, m, m, u)))


EN_FAM = ["generic", "ties", "constant", {"x": "constant"}, "tiny", "huge", "offset", {"y": "=x"}, "binary",
          {"x": "huge", "y": "tiny"}]


def en_points(C, i, fam=None, **kw):
    return i.points(families=fam or EN_FAM, sizes=[dict(n=5, m=4, p=2, q=2, e=Fraction(1, 2)),
                                                  dict(n=3, m=6, p=1, q=1, e=Fraction(3, 2)),
                                                  dict(n=4, m=4, p=3, q=3, e=Fraction(5, 4)),
                                                  dict(n=2, m=3, p=2, q=2, e=Fraction(1, 2))] +
                    ([dict(n=9, m=2, p=2, q=2, e=Fraction(7, 4)), dict(n=8, m=11, p=1, q=1, e=Fraction(1))]
                     if C.thorough else []), **kw)


def two(C, fx, fy, ns="np", dt="f8", lo=2):
    i = In(C)
    i.add("x", fx, "n", "p", lo, ns=ns, dt=dt)
    i.add("y", fy, "m", "p", lo, ns=ns, dt=dt)
    return i


def c08(C):
    rule = "2 avg(xy) - avg(xx) - avg(yy)"
    for label, v, u in STAT_FORMS:
        for fx, fy in (("1d", "1d"), ("mat", "mat"), ("1d", "col")):
            for exp in ("default", "given"):
                if label[0] == "'" and (fx, exp) != ("1d", "given") and not C.thorough:
                    continue
                for av in ("default", "mean", "given"):
                    if av == "given" and (label[0] == "'" or fx != "1d"):
                        continue
                    if C.skip():
                        continue
                    i = two(C, fx, fy)
                    kw = stat_arg(C, label, v)
                    e = spec.ONE
                    if exp == "given":
                        kw["exponent"] = C.S.scalar("e")
                        e = kw["exponent"].t
                    X, Y = i.smp["x"], i.smp["y"]
                    if av == "given":
                        kw["average"] = opaque_average(C)
                        w = avg_energy(C, (spec.dmat(X, e), spec.dmat(Y, e), lambda a, b: spec.dist(X, a, Y, b, e),
                                           X.n, Y.n), u)
                    else:
                        if av == "mean":
                            kw["average"] = Ext("numpy.mean")
                        w = spec.energy(X, Y, e, u)
                    o = C.call("dcor:energy_distance", [i.arr["x"], i.arr["y"]], kw, i.st)
                    C.compare(rule, f"statistic={label} x={fx} y={fy} exponent={exp} average={av}", o, w,
                              en_points(C, i))
    for ns, dt in (("xp", "f8"), ("np", "f4"), ("np", "di"), ("np", "obj")):
        for label, v, u in STAT_FORMS[1:3]:
            for f in ("1d", "mat"):
                if C.skip():
                    continue
                i = two(C, f, f, ns, dt)
                o = C.call("dcor:energy_distance", [i.arr["x"], i.arr["y"]], stat_arg(C, label, v), i.st)
                C.compare(rule, f"statistic={label}:{v} {f} dtype={dt} namespace={ns}", o,
                          spec.energy(i.smp["x"], i.smp["y"], spec.ONE, u), en_points(C, i))
    # one observation in a sample (V-statistic)
    if not C.skip():
        i = two(C, "mat", "mat", lo=1)
        o = C.call("dcor:energy_distance", [i.arr["x"], i.arr["y"]], {}, i.st)
        C.compare(rule, "single observations", o, spec.energy(i.smp["x"], i.smp["y"]),
                  i.points(families=["generic"], sizes=[dict(n=1, m=1, p=2), dict(n=1, m=4, p=1), dict(n=3, m=1, p=2)]))
    for bad in ("w", "", "uv", "statistic", "u_stat", "V STATISTIC", "x_statistic", "vstatistic"):
        for fn in ("dcor:energy_distance", "dcor.homogeneity:energy_test_statistic", "dcor.homogeneity:energy_test"):
            if C.skip():
                continue
            i = two(C, "1d", "1d")
            o = C.call(fn, [i.arr["x"], i.arr["y"]], {"estimation_stat": bad}, i.st)
            C.rejects("unknown statistic names are rejected", f"{fn} {bad!r}", o, en_points(C, i)[:4])


# ---------------------------------------------------------------- C09

def block_energy(D, pos, size, u, avg):
    """Sum over pairs of n m/(n+m) times the energy distance of blocks of the matrix D."""
    out = []
    k = len(size)
    for a in range(k):
        for b in range(a + 1, k):
            off = lambda o: (lambda t: tm.add(o, t))
            fa, fb = off(pos[a]), off(pos[b])
            xx = lambda i, j, fa=fa: D(fa(i), fa(j))
            yy = lambda i, j, fb=fb: D(fb(i), fb(j))
            xy = lambda i, j, fa=fa, fb=fb: D(fa(i), fb(j))
            n, m = size[a], size[b]
            en = avg_energy(None, (xx, yy, xy, n, m), u) if avg else spec.energy_terms(xx, yy, xy, n, m, u)
            out.append(tm.mul(n, m, tm.ipow(tm.add(n, m), -1), en))
    return tm.add(*out)


def pair_sum(X, Ys=None, e=spec.ONE, u=False, avg=False):
    """Specified statistic of a list of samples."""
    out = []
    for a in range(len(X)):
        for b in range(a + 1, len(X)):
            P, Q = X[a], X[b]
            if avg:
                en = avg_energy(None, (spec.dmat(P, e), spec.dmat(Q, e),
                                       lambda i, j, P=P, Q=Q: spec.dist(P, i, Q, j, e), P.n, Q.n), u)
            else:
                en = spec.energy(P, Q, e, u)
            out.append(tm.mul(P.n, Q.n, tm.ipow(tm.add(P.n, Q.n), -1), en))
    return tm.add(*out)


NAMES = ("x", "y", "z", "w", "v")
SIZES = ("n", "m", "k", "l", "h")


def samples(C, k, form="mat", ns="np", dt="f8", lo=2):
    i = In(C)
    for nm, sz in zip(NAMES[:k], SIZES):
        i.add(nm, form, sz, "p", lo, ns=ns, dt=dt)
    return i


def k_points(C, i, fam=None):
    szs = [dict(n=3, m=4, k=2, l=3, h=2, p=2, e=Fraction(1, 2)), dict(n=4, m=2, k=3, l=2, h=3, p=1, e=Fraction(3, 2)),
           dict(n=2, m=2, k=4, l=5, h=2, p=3, e=Fraction(5, 4)), dict(n=3, m=3, k=3, l=3, h=3, p=1, e=Fraction(7, 4))]
    return i.points(families=fam or ["generic", "ties", {"y": "=x"}, {"y": "constant"}, "tiny", "huge", "constant"],
                    sizes=szs)


def c09(C):
    rule = "sum over unordered pairs of nm/(n+m) energy distance"
    for k in (2, 3, 4) + ((5,) if C.thorough else ()):
        for form in ("mat", "1d"):
            for label, v, u in (STAT_FORMS[0], STAT_FORMS[2], STAT_FORMS[5], STAT_FORMS[10]):
                for exp in ("default", "given"):
                    for av in ("default", "given"):
                        if k > 2 and form == "1d" and av == "given":
                            continue
                        if label[0] == "'" and (k > 2 or av == "given"):
                            continue
                        if C.skip():
                            continue
                        i = samples(C, k, form)
                        kw = stat_arg(C, label, v)
                        e = spec.ONE
                        if exp == "given":
                            kw["exponent"] = C.S.scalar("e")
                            e = kw["exponent"].t
                        if av == "given":
                            kw["average"] = opaque_average(C)
                        w = pair_sum([i.smp[q] for q in NAMES[:k]], None, e, u, av == "given")
                        args = [i.arr[q] for q in NAMES[:k]]
                        st2 = i.st.copy()
                        o = C.call("dcor.homogeneity:energy_test", args, dict(kw), i.st)
                        cfg = f"{k} samples {form} statistic={label} exponent={exp} average={av}"
                        fld(C, rule, f"energy_test({cfg}).statistic", o, "statistic", w, k_points(C, i))
                        if k == 2:
                            o = C.call("dcor.homogeneity:energy_test_statistic", args, dict(kw), st2)
                            C.compare(rule, f"energy_test_statistic({cfg})", o, w, k_points(C, i))
    for ns, dt in (("xp", "f8"), ("np", "di"), ("np", "f4")):
        for k in (2, 3):
            if C.skip():
                continue
            i = samples(C, k, "mat", ns, dt)
            o = C.call("dcor.homogeneity:energy_test", [i.arr[q] for q in NAMES[:k]], {}, i.st)
            fld(C, rule, f"energy_test({k} samples dtype={dt} namespace={ns}).statistic", o, "statistic",
                pair_sum([i.smp[q] for q in NAMES[:k]]), k_points(C, i))


def fld(C, rule, cfg, o, name, w, pts, **kw):
    """Compare one field of a returned object."""
    if o.crash or not o.returned:
        if o.returned is False and not o.crash:
            return C.compare(rule, cfg, o, w, pts, **kw)
        return C.row(rule, cfg, UNDECIDED, o.crash, o.entry, o.path)
    v = C.field(o, name)
    if v is MISSING:
        return C.row(rule, cfg, VIOLATED if not isinstance(o.value, Unknown) else UNDECIDED,
                     f"result has no field {name}", o.entry, o.path)
    keep = o.value
    o.value = v
    try:
        if isinstance(w, list):
            return C.compare_any(rule, cfg, o, w, pts, **kw)
        return C.compare(rule, cfg, o, w, pts, **kw)
    finally:
        o.value = keep


PROPS = {"C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}
