"""The public interface: entry points with their input classes and options."""
from __future__ import annotations

from .common import *

TEST = ("dcor.independence:distance_covariance_test", "dcor.independence:partial_distance_covariance_test",
        "dcor.homogeneity:energy_test")


class Case:
    """One analysed call of the public interface."""

    def __init__(self, C, fn, label, build, fam=None, sizes=None):
        self.C, self.fn, self.label, self.build, self.fam, self.sizes = C, fn, label, build, fam, sizes
        self.cfg = f"{fn.partition(':')[2]} {label}"

    def run(self):
        """(outcome, input, points)"""
        i = In(self.C)
        args, kw = self.build(i)
        self.i, self.args, self.kw = i, args, kw
        o = self.C.call(self.fn, args, kw, i.st)
        return o, i

    def points(self, fam=None):
        sizes = self.sizes or sizes_for(self.C, self.i.shape, (5, 4, 7))
        for s in sizes:
            s.setdefault("R", 3)
            s.setdefault("e", Fraction(3, 2))
        return self.i.points(families=fam or self.fam or ["generic", "ties", "constant", "huge"], sizes=sizes,
                             sym_arrays=("a",))


def catalog(C, dts=("f8",), nss=("np",), forms=("1d", "col", "mat"), orders=("C",), stats=True, tests=True,
            rowwise=True, methods=METHODS, cmodes=("AUTO", "NO_COMPILE", "COMPILE_CPU"), exps=("default", "given")):
    """All public functions over the given input classes."""
    two = COV + STATS + CORR
    for dt in dts:
        for ns in nss:
            for order in orders:
                ctx = f"dtype={dt} namespace={ns}" + (f" layout={order}" if order != "C" else "")
                kwa = dict(dt=dt, ns=ns, order=order)
                if stats:
                    yield from pairs(C, two, forms, methods, cmodes, exps, kwa, ctx)
                yield from others(C, forms, exps, kwa, ctx, tests)
                if rowwise:
                    yield from rows(C, kwa, ctx)


def pairs(C, two, forms, methods, cmodes, exps, kwa, ctx):
    for fn in two:
        for m in methods:
            for cm in cmodes:
                if m == "NAIVE" and cm == "COMPILE_CPU" or m in FAST and kwa["ns"] != "np":
                    continue
                for f in forms:
                    if m in FAST and f == "mat":
                        continue
                    heavy = m != "NAIVE" and f != "mat"
                    if heavy and not C.thorough and fn not in (COV[0], STATS[1]) and (
                            cm != "AUTO" or f != "1d" or kwa["dt"] != "f8" or kwa["order"] != "C"):
                        continue
                    for exp in exps:
                        if exp == "given" and (m in FAST or cm != "AUTO"):
                            continue
                        if m == "AUTO" and cm == "COMPILE_CPU" and (f == "mat" or kwa["ns"] != "np"):
                            continue

                        def build(i, m=m, cm=cm, f=f, exp=exp):
                            i.add("x", f, "n", 2, **kwa)
                            i.add("y", f, "n", 3, **kwa)
                            kw = {"method": method(C, m), "compile_mode": cmode(C, cm)}
                            if exp == "given":
                                kw["exponent"] = C.S.scalar("e")
                            return [i.arr["x"], i.arr["y"]], kw
                        yield Case(C, "dcor:" + fn, f"{m} {cm} {f} exponent={exp} {ctx}", build)
    for fn in AFINV:
        for m in ("AUTO", "NAIVE"):
            for f in forms:
                def build(i, m=m, f=f):
                    i.add("x", f, "n", 2, **kwa)
                    i.add("y", f, "n", 3, **kwa)
                    return [i.arr["x"], i.arr["y"]], {"method": method(C, m)}
                yield Case(C, "dcor:" + fn, f"{m} {f} {ctx}", build)


def others(C, forms, exps, kwa, ctx, tests):
    for fn in ("double_centered", "u_centered"):
        yield Case(C, "dcor:" + fn, ctx, lambda i: ([i.matrix("a", **kwa)], {}))
    for fn in ("mean_product", "u_product"):
        yield Case(C, "dcor:" + fn, ctx, lambda i: ([i.matrix("a", **kwa), i.matrix("b", **kwa)], {}))
    for fn in ("u_projection", "u_complementary_projection"):
        yield Case(C, "dcor:" + fn, ctx, lambda i: ([i.matrix("a", **kwa)], {}))
    for f in forms:
        for fn in ("partial_distance_covariance", "partial_distance_correlation"):
            yield Case(C, "dcor:" + fn, f"{f} {ctx}", lambda i, f=f: ([i.add(k, f, "n", "p", **kwa) for k in "xyz"], {}))
        for exp in exps:
            def ekw(exp=exp, **more):
                return dict(more, exponent=C.S.scalar("e")) if exp == "given" else dict(more)
            lab = f"{f} exponent={exp} {ctx}"
            yield Case(C, "dcor.distances:pairwise_distances", "one sample " + lab,
                       lambda i, f=f, ekw=ekw: ([i.add("x", f, "n", "p", **kwa)], ekw()))
            yield Case(C, "dcor.distances:pairwise_distances", "two samples " + lab,
                       lambda i, f=f, ekw=ekw: ([i.add("x", f, "n", "p", **kwa), i.add("y", f, "m", "p", **kwa)], ekw()))
            for u in ("U", "V"):
                for fn in ("dcor:energy_distance", "dcor.homogeneity:energy_test_statistic"):
                    yield Case(C, fn, f"{u} {lab}", lambda i, f=f, u=u, ekw=ekw: (
                        [i.add("x", f, "n", "p", **kwa), i.add("y", f, "m", "p", **kwa)], ekw(estimation_stat=u)))
            if not tests:
                continue
            for fn, k in zip(TEST, (2, 3, 0)):
                for rs in ("generator", "seed"):
                    def build(i, f=f, k=k, rs=rs, ekw=ekw):
                        if k:
                            args = [i.add(q, f, "n", "p", **kwa) for q in "xyz"[:k]]
                        else:
                            args = [i.add(q, f, s, "p", **kwa) for q, s in zip("xyz", ("n", "m", "k"))]
                        R = C.S.size("R", 0)
                        return args, ekw(num_resamples=SNum(R, "int"), n_jobs=SNum(C.S.size("J", 1), "int"),
                                         random_state=C.S.rng(i.st) if rs == "generator" else 17)
                    yield Case(C, fn, f"{rs} {lab}", build)
        for fn in ("distance_correlation_t_statistic", "distance_correlation_t_test"):
            yield Case(C, "dcor.independence:" + fn, f"{f} {ctx}",
                       lambda i, f=f: ([i.add("x", f, "n", 2, **kwa), i.add("y", f, "n", 3, **kwa)], {}))


def rows(C, kwa, ctx):
    if kwa["ns"] != "np":
        return
    plain = kwa["dt"] == "f8" and kwa["order"] == "C"
    fns = COV + CORR if C.thorough else (COV[0], CORR[1], CORR[2]) if plain else (COV[0],)
    for fn in fns:
        for mode in ("AUTO", "NAIVE", "OPTIMIZED"):
            for form in ("2d", "3d"):
                if form == "3d" and mode == "OPTIMIZED":
                    continue

                def build(i, fn=fn, mode=mode, form=form):
                    h, n = C.S.size("h", 1), C.S.size("n", 4)
                    dims = (h, n) if form == "2d" else (h, n, tm.const(2))
                    shp = ("h", "n") if form == "2d" else ("h", "n", 2)
                    for q in "xy":
                        i.arr[q] = C.S.array(i.st, q, dims, **kwa)
                        i.shape[q] = shp
                    f = C.fn("dcor:" + fn)
                    rm = C.S.enum("RowwiseMode", mode)
                    if rm is MISSING:
                        raise Missing("RowwiseMode." + mode)
                    return [f, i.arr["x"], i.arr["y"]], {"rowwise_mode": rm}
                yield Case(C, "dcor:rowwise", f"{fn} {mode} {form} {ctx}", build,
                           sizes=[dict(h=2, n=5), dict(h=3, n=4)])
