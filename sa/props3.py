"""Tests, distances, purity: C10 - C15."""
from __future__ import annotations

from .catalog import *
from .props2 import NAMES, SIZES, samples, fld, block_energy, stat_arg, alternatives


# ---------------------------------------------------------------- permutation tests

def perms_of(t):
    """Distinct (source, draw) of the permutations in a term."""
    out = []
    for x in tm.walk(t):
        if x.op == "perm":
            k = (x.a[0], x.a[1])
            if k not in out:
                out.append(k)
    return out


def set_loop(draw, r):
    """The draw of resample r."""
    out, used = [], False
    for x in draw:
        fv = sorted(x.fv) if isinstance(x, tm.T) else []
        if fv:
            out.append(tm.subst(x, {f: r for f in fv}))
            used = True
        else:
            out.append(x)
    return tuple(out), used


def test_inputs(C, kind, f="1d", ns="np", dt="f8"):
    """(input, entry, arguments, spec of the statistic as a function of index maps)"""
    if kind.startswith("energy"):
        k = int(kind[-1])
        i = samples(C, k, f, ns, dt)
        X = [i.smp[q] for q in NAMES[:k]]
        pos, tot = [], spec.ZERO
        for s in X:
            pos.append(tot)
            tot = tm.add(tot, s.n)

        def at(idx, comp):
            r = X[-1].at(tm.sub(idx, pos[-1]), comp)
            for s, q in list(zip(X, pos))[-2::-1]:
                r = tm.ite(tm.cmp("<", idx, tm.add(q, s.n)), s.at(tm.sub(idx, q), comp), r)
            return r
        P = spec.Sample("pool", tot, X[0].p, X[0].nd, get=at)

        def stat(e, u, s=lambda t: t, swap=False):
            D = lambda a, b: spec.dist(P, s(a), P, s(b), e)
            return block_energy(D, pos, [x.n for x in X], u, False)
        return i, "dcor.homogeneity:energy_test", [i.arr[q] for q in NAMES[:k]], stat, tot
    i = In(C)
    names = "xy" if kind == "dcov" else "xyz"
    for q, p in zip(names, ("p", "q", "p2")):
        i.add(q, f, "n", p, ns=ns, dt=dt)
    X = [i.smp[q] for q in names]
    n = X[0].n

    def stat(e, u, s=lambda t: t, swap=False):
        if kind == "dcov":
            A, B = (spec.centred(spec.dmat(q, e), n) for q in X)
            ip = spec.mean_prod
        else:
            a, b, c = (spec.u_centred(spec.dmat(q, e), n) for q in X)
            cc = spec.u_prod(c, c, n)
            prj = lambda M: (lambda co: lambda x, y: tm.sub(M(x, y), tm.mul(co, c(x, y))))(
                tm.ite(tm.cmp("==", cc, spec.ZERO), spec.ZERO, tm.mul(spec.u_prod(M, c, n), tm.ipow(cc, -1))))
            A, B = prj(a), prj(b)
            ip = spec.u_prod
        if swap:
            return tm.mul(n, ip(A, lambda x, y: B(s(x), s(y)), n))
        return tm.mul(n, ip(lambda x, y: A(s(x), s(y)), B, n))
    fn = "dcor.independence:" + ("distance_covariance_test" if kind == "dcov" else "partial_distance_covariance_test")
    return i, fn, [i.arr[q] for q in names], stat, n


KINDS = ("dcov", "partial", "energy2", "energy3")


def perm_points(C, i, kind):
    fam = ["generic", "ties", "constant", "binary", {"x": "constant"}, "tiny"]
    base = [dict(n=4, m=3, k=2, R=3), dict(n=5, m=2, k=3, R=4), dict(n=4, m=4, k=2, R=0), dict(n=4, m=2, k=2, R=1)]
    if kind == "partial":
        base = [dict(b, n=max(4, b["n"])) for b in base]
    for k, b in enumerate(base):
        b.update(p=1 + k % 2, q=1 + (k + 1) % 2, p2=1, e=(Fraction(1, 2), Fraction(3, 2))[k % 2], J=2 + k)
    szs = base if not C.thorough else base + [dict(b, R=6) for b in base]
    pts = i.points(families=fam, sizes=szs)
    # extreme outcomes: every resample is the same permutation, so that all or none exceed the observed value
    again = [same_draws(p, k) for k, p in enumerate(pts[:2] + pts[:1])]
    return again[:1] + pts[:1] + again[1:] + pts[1:]


def same_draws(p, k):
    make = p.remake
    q = p.with_(seed=("same", k))
    q.remake = lambda sz: same_draws(make(sz), k)
    return q


def c10(C):
    rule = "p-value = (1 + number of resamples strictly above the observed statistic) / (1 + resamples)"
    for kind in KINDS:
        for f in ("1d", "mat"):
            for exp in ("default", "given"):
                for rs in ("RandomState", "Generator", "seed", "none"):
                    for ns, dt in (("np", "f8"), ("xp", "f8"), ("np", "di"), ("np", "f4")):
                        if (ns, dt) != ("np", "f8") and (rs != "RandomState" or exp == "given" or f == "mat"):
                            continue
                        if rs in ("Generator", "none") and (f == "mat" or exp == "given"):
                            continue
                        for u in ((False, True) if kind.startswith("energy") else (False,)):
                            if C.skip():
                                continue
                            perm_case(C, rule, kind, f, exp, rs, ns, dt, u)
        for R in (None, 0, 1, 2):
            if C.skip():
                continue
            i, fn, args, stat, n = test_inputs(C, kind)
            kw = {"random_state": C.S.rng(i.st)}
            if R is not None:
                kw["num_resamples"] = R
            o = C.call(fn, args, kw, i.st)
            w = pval_spec(C, o, stat, n, tm.const(R or 0), spec.ONE, False)
            fld(C, rule, f"{kind} num_resamples={R}", o, "pvalue", w, perm_points(C, i, kind))
            fld(C, "reported statistic is the one of the original data", f"{kind} num_resamples={R}", o, "statistic",
                stat(spec.ONE, False), perm_points(C, i, kind))


def pval_spec(C, o, stat, n, R, e, u):
    """Admissible p-values, given the draws that occur in the analysed one."""
    draws = []
    if not o.crash and o.returned:
        v = C.field(o, "pvalue")
        t = num_term(v)
        if t is not None:
            draws = perms_of(t)
    if not draws:
        return [tm.ipow(tm.add(spec.ONE, R), -1)] if tm.cval(R) == 0 else \
            [count(lambda r: (lambda ix: tm.perm("resample", (spec.ZERO, r), n, ix)), stat, R, e, u, s)
             for s in (False, True)]
    cands = []
    loops = [d for d in draws if set_loop(d[1], spec.ZERO)[1]]
    if loops:
        for src, draw in loops[:2]:
            for s in (False, True):
                cands.append(count(lambda r, src=src, draw=draw: (
                    lambda ix: tm.perm(src, set_loop(draw, r)[0], n, ix)), stat, R, e, u, s))
    else:
        # unrolled: one draw per resample
        for s in (False, True):
            obs = stat(e, u)
            tot = [spec.ONE]
            for src, draw in draws:
                tot.append(tm.cmp("<", obs, stat(e, u, lambda ix, a=src, b=draw: tm.perm(a, b, n, ix), s)))
            cands.append(tm.mul(tm.add(*tot), tm.ipow(tm.add(spec.ONE, R), -1)))
    return cands


def count(mk, stat, R, e, u, swap):
    r = tm.fresh("r")
    obs = stat(e, u)
    c = tm.cmp("<", obs, stat(e, u, mk(r), swap))
    return tm.mul(tm.add(spec.ONE, tm.sum_(r, R, c)), tm.ipow(tm.add(spec.ONE, R), -1))


def perm_case(C, rule, kind, f, exp, rs, ns, dt, u):
    i, fn, args, stat, n = test_inputs(C, kind, f, ns, dt)
    R = C.S.size("R", 0)
    kw = {"num_resamples": SNum(R, "int")}
    if rs in ("RandomState", "Generator"):
        kw["random_state"] = C.S.rng(i.st, cls=rs)
    elif rs == "seed":
        kw["random_state"] = SNum(C.S.size("seed", 0), "int")
    e = spec.ONE
    if exp == "given":
        kw["exponent"] = C.S.scalar("e")
        e = kw["exponent"].t
    if u:
        kw.update(stat_arg(C, "enum", "U"))
    o = C.call(fn, args, kw, i.st)
    cfg = f"{kind} {f} exponent={exp} random_state={rs} dtype={dt} namespace={ns}" + (" U" if u else "")
    pts = perm_points(C, i, kind)
    fld(C, "reported statistic is the one of the original data", cfg, o, "statistic", stat(e, u), pts)
    if not o.crash and o.returned:
        t = num_term(C.field(o, "pvalue"))
        if t is not None and any(x.op == "opq" and str(x.a[0]).startswith("rand:") and
                                 not str(x.a[0]).startswith(("rand:choice", "rand:randint", "rand:integers"))
                                 for x in tm.walk(t)):
            C.row(rule, cfg, UNDECIDED, "permutations made from other random draws", o.entry, o.path)
            return
    w = pval_spec(C, o, stat, n, R, e, u)
    fld(C, rule, cfg, o, "pvalue", w, pts)


# ---------------------------------------------------------------- C11

def c11(C):
    for kind in KINDS:
        for rs in ("RandomState", "Generator", "seed", "seed0", "none", "absent"):
            for f in ("1d", "mat"):
                if f == "mat" and rs not in ("RandomState", "seed"):
                    continue
                if C.skip():
                    continue
                one_rng(C, kind, rs, f)
    # functions without a random state never use randomness
    for case in catalog(C, tests=False, cmodes=("AUTO",), exps=("default",)):
        if C.skip():
            continue
        o, i = case.run()
        C.effects("no random source without a random state argument", case.cfg, o,
                  ("global-rng", "draw", "new-rng", "reseed", "rng-copy"), "randomness used")


def rng_call(C, kind, rs, f, jobs):
    i, fn, args, stat, n = test_inputs(C, kind, f)
    R = C.S.size("R", 0)
    kw = {"num_resamples": SNum(R, "int"), "n_jobs": jobs}
    seed = None
    if rs in ("RandomState", "Generator"):
        seed = kw["random_state"] = C.S.rng(i.st, cls=rs)
        C.I.input_objs[seed.id] = "random_state"
    elif rs == "seed":
        seed = kw["random_state"] = SNum(C.S.size("seed", 0), "int")
    elif rs == "seed0":
        seed = kw["random_state"] = 0
    elif rs == "none":
        kw["random_state"] = None
    return i, C.call(fn, args, kw, i.st), seed


def one_rng(C, kind, rs, f):
    cfg = f"{kind} {f} random_state={rs}"
    J = SNum(C.S.size("J", 1), "int")
    i, o, seed = rng_call(C, kind, rs, f, J)
    pts = perm_points(C, i, kind)
    C.effects("no other random source", cfg, o, ("global-rng", "reseed", "rng-copy"), "random source", points=pts)
    given = rs in ("RandomState", "Generator")

    def ok_new(e):
        if given:
            return False
        s = e.info.get("seed")
        if rs in ("none", "absent"):
            return s is None
        return s == seed or isinstance(s, SNum) and isinstance(seed, SNum) and s.t is seed.t
    C.effects("a generator is used as given, a seed seeds one private generator", cfg, o, ("new-rng",),
              "another generator is created", allow=ok_new, points=pts)
    news = [e for e in o.effects if e.kind == "new-rng"]
    if not o.crash and not given and len(news) > 1:
        C.row("a generator is used as given, a seed seeds one private generator", cfg, VIOLATED,
              f"{len(news)} generators are created with the same seed", site(news[1]), o.path)

    def ok_draw(e):
        s = e.info["src"]
        return e.worker == 0 and (s[0] == "caller" if given else s[0] == "private")
    C.effects("all draws come from that generator, in the caller's process", cfg, o, ("draw",),
              "draw from another generator or in a worker", allow=ok_draw, points=pts)
    C.effects("workers share no written state", cfg, o, ("write-shared",), "parallel tasks write", points=pts)
    # the number of jobs does not matter
    for jobs in (None, 1, -1):
        i2, o2, _ = rng_call(C, kind, rs, f, jobs)
        if o.crash or o2.crash or not o.returned or not o2.returned:
            C.row("independent of the number of jobs", cfg, UNDECIDED, o.crash or o2.crash or "raises", o.entry)
            continue
        for name in ("pvalue", "statistic"):
            v = C.field(o2, name)
            if v is MISSING:
                C.row("independent of the number of jobs", cfg, UNDECIDED, "no field", o.entry)
                continue
            keep = o.value
            v1 = C.field(o, name)
            o.value = v1
            C.compare(f"independent of the number of jobs", f"{cfg}: {name} n_jobs={jobs} against any", o, v, pts[:4],
                      spec_st=o2.st)
            o.value = keep
    # the same draws whatever the data: the state of the generator afterwards
    if given and not o.crash and o.returned:
        rec = o.st.objs.get(seed.id)
        par = [e for e in o.effects if e.kind == "parallel"]


# ---------------------------------------------------------------- C12

def c12(C):
    for f in ("1d", "col", "mat"):
        for ns, dt in (("np", "f8"), ("xp", "f8"), ("np", "di"), ("np", "f4")):
            for what in ("statistic", "test.statistic", "test.pvalue"):
                if C.skip():
                    continue
                i = In(C)
                i.add("x", f, "n", "p", ns=ns, dt=dt)
                i.add("y", f, "n", "q", ns=ns, dt=dt)
                X, Y = i.smp["x"], i.smp["y"]
                n = X.n
                R = spec.stats_sqr(X, Y, spec.ONE, True)["correlation_xy"]
                v1 = tm.sub(tm.mul(tm.HALF, n, tm.sub(n, tm.const(3))), spec.ONE)
                one = tm.sub(spec.ONE, tm.ipow(R, 2))
                t = tm.mul(tm.power(v1, tm.HALF), R, tm.ipow(spec.root(one), -1))
                pv = tm.sub(spec.ONE, tm.fn("tcdf", t, v1))
                fn = "dcor.independence:distance_correlation_t_" + what.partition(".")[0]
                o = C.call(fn, [i.arr["x"], i.arr["y"]], {}, i.st)
                pts = i.points(families=["generic", "ties", {"x": "constant"}, "tiny", "huge", "sorted", "offset",
                                         "binary"], sizes=sizes_for(C, i.shape, (6, 4, 7, 5)))
                cfg = f"{what} {f} dtype={dt} namespace={ns}"
                neg = [(one, None)] if f != "1d" else []
                if what == "statistic":
                    C.compare("t = sqrt(v-1) R / sqrt(1-R^2)", cfg, o, t, pts, neg=neg)
                elif what == "test.statistic":
                    fld(C, "t = sqrt(v-1) R / sqrt(1-R^2)", cfg, o, "statistic", t, pts, neg=neg)
                else:
                    fld(C, "p = upper tail of Student's t with v-1 degrees of freedom", cfg, o, "pvalue", pv, pts)


# ---------------------------------------------------------------- C13

def c13(C):
    rule = "entry (i,j) = |x_i - y_j|^exponent"
    for ns, dt in (("np", "f8"), ("xp", "f8"), ("np", "f4"), ("np", "di"), ("np", "du"), ("np", "obj"), ("xp", "f4"),
                   ("xp", "di")):
        for order in ("C", "A"):
            if order == "A" and (ns, dt) != ("np", "f8"):
                continue
            for f in ("1d", "col", "mat"):
                for exp in ("default", "given", 2, Fraction(1, 2), 1):
                    for how in ("one", "same", "two", "none", "overlap"):
                        if how in ("none", "overlap") and exp != "default":
                            continue
                        if C.skip():
                            continue
                        i = In(C)
                        if how == "overlap":
                            i.overlap("x", "y", f, "n", "p", 1, ns=ns, dt=dt, order=order)
                        else:
                            i.add("x", f, "n", "p", 1, ns=ns, dt=dt, order=order)
                        e, kw = spec.ONE, {}
                        if exp == "given":
                            kw["exponent"] = C.S.scalar("e")
                            e = kw["exponent"].t
                        elif exp != "default":
                            kw["exponent"] = float(exp) if exp == Fraction(1, 2) else exp
                            e = tm.const(exp)
                        X = Y = i.smp["x"]
                        args = [i.arr["x"]]
                        if how == "two":
                            args.append(i.add("y", f, "m", "p", 1, ns=ns, dt=dt, order=order))
                            Y = i.smp["y"]
                        elif how == "overlap":
                            args.append(i.arr["y"])
                            Y = i.smp["y"]
                        elif how == "same":
                            args.append(i.arr["x"])
                        elif how == "none":
                            args.append(None)
                        o = C.call("dcor.distances:pairwise_distances", args, kw, i.st)
                        w = SpecArr((X.n, Y.n), lambda a, b: spec.dist(X, a, Y, b, e))
                        pts = i.points(families=["generic", "ties", "tiny", "huge", "offset", "constant", "negative"],
                                       sizes=[dict(n=3, m=4, p=2, e=Fraction(1, 2)), dict(n=4, m=2, p=3, e=Fraction(3, 2)),
                                              dict(n=2 if how == "overlap" else 1, m=3, p=1, e=Fraction(7, 4)), dict(n=5, m=1, p=2, e=1)])
                        C.compare(rule, f"{how} {f} exponent={exp} dtype={dt} namespace={ns} layout={order}", o, w, pts)


# ---------------------------------------------------------------- C14, C15

def purity_cases(C):
    yield from catalog(C)
    yield from catalog(C, dts=("di", "f4"), cmodes=("AUTO",), exps=("default",), forms=("1d", "mat"))
    yield from catalog(C, nss=("xp",), cmodes=("AUTO",), exps=("default",))
    yield from catalog(C, dts=("obj",), cmodes=("AUTO",), exps=("default",), methods=("NAIVE",), forms=("1d",),
                       tests=False, rowwise=False)
    yield from catalog(C, orders=("A",), cmodes=("AUTO",), exps=("default",), forms=("1d", "col"), tests=False)


def c14(C):
    for case in purity_cases(C):
        if C.skip():
            continue
        o, i = case.run()
        if "projection" in case.fn and not o.crash and o.returned:
            b = i.matrix("b", **{k: v for k, v in (("ns", "xp" if "namespace=xp" in case.label else "np"),)})
            o2 = C.call(o.value, [b], {}, o.st)
            o2.entry = o.entry
            C.effects("no caller array is written", case.cfg + " applied", o2, ("write-input",), "caller data written")
        C.effects("no caller array is written", case.cfg, o, ("write-input",), "caller data written",
                  points=case.points() if any(e.kind == "write-input" for e in o.effects) else ())
    # sequences given by the caller
    for fn in COV[:1] + CORR[:1]:
        for m in METHODS:
            if C.skip():
                continue
            i = In(C)
            lists = []
            for q in "xy":
                v = tm.fresh("i")
                n = C.S.size("n", 4)
                ref = C.I.new_obj(i.st, "list", SymSeq(v, n, SNum(tm.elem(q, v), "float")))
                C.I.input_objs[ref.id] = q
                lists.append(ref)
            o = C.call("dcor:" + fn, lists, {"method": method(C, m)}, i.st)
            C.effects("no caller sequence is written", f"{fn} {m} lists", o, ("write-input",), "caller data written")
    # views of caller data: sub-arrays and transposes
    for fn in ("dcor:distance_covariance_sqr", "dcor:energy_distance", "dcor.distances:pairwise_distances"):
        for m in (METHODS if "cov" in fn else ("",)):
            if C.skip():
                continue
            i = In(C)
            n = C.S.size("n", 4)
            base = C.S.array(i.st, "x", (n, tm.const(2)))
            cols = []
            for k in (0, 1):
                w = tm.fresh("w")
                cols.append(Arr(base.root, (n,), (w,), (w, tm.const(k))))
            o = C.call(fn, cols, {"method": method(C, m)} if m else {}, i.st)
            C.effects("no caller array is written", f"{fn} {m} columns of one matrix", o, ("write-input",),
                      "caller data written")


def c15(C):
    for e in C.S.import_effects:
        if e.kind == "write-global" and not e.phase == "import":
            C.row("no state is kept", "import", VIOLATED, C.show(e), site(e))
    for case in purity_cases(C):
        if C.skip():
            continue
        o, i = case.run()
        C.effects("no state is kept between calls", case.cfg, o, ("write-global",), "persistent state written",
                  points=case.points() if any(e.kind == "write-global" for e in o.effects) else ())
        C.effects("no state shared by parallel tasks", case.cfg, o, ("write-shared",), "shared state written")
        garbage(C, case, o)


def garbage(C, case, o):
    """No uninitialised element reaches the result."""
    rule = "uninitialised memory is never read"
    if o.crash or not o.returned:
        return
    try:
        ts = value_terms(o.value, o.st, C.I)
    except UnknownVal as e:
        return C.row(rule, case.cfg, UNDECIDED, str(e), o.entry, o.path)
    un = [x for t in ts for x in tm.walk(t) if x.op == "uninit"]
    if not un:
        return C.row(rule, case.cfg, CHECKED, "no uninitialised element in the result", o.entry, o.path)
    ob = Observer(o, C.S)
    n = 0
    for p in case.points(["generic", "ties", "constant", "sorted", "reversed"]):
        try:
            a = ob.at(p.with_(garbage=1).evaluator())
            b = ob.at(p.with_(garbage=2).evaluator())
        except (UnknownVal, tm.EvalError, OverflowError) as e:
            continue
        n += 1
        d = same(a, b, 1e-6)
        if d:
            return C.row(rule, case.cfg, VIOLATED, f"{p.describe()}: the result depends on uninitialised memory "
                         f"({d})", o.entry, o.path)
    C.row(rule, case.cfg, TESTED if n else UNDECIDED, f"{n} points", o.entry, o.path)


PROPS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}
