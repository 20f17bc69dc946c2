"""The specification: published definitions as terms over symbolic samples."""
from __future__ import annotations

from fractions import Fraction

from . import terms as tm

ONE, ZERO, TWO = tm.ONE, tm.ZERO, tm.TWO


class Sample:
    """A symbolic sample: n observations with p components, given as vector or matrix."""

    def __init__(self, name, n, p=1, nd=1, get=None):
        self.name, self.n, self.nd = name, n if isinstance(n, tm.T) else tm.const(n), nd
        self.p = p if isinstance(p, tm.T) else tm.const(p)
        self.get = get

    def at(self, i, k):
        if self.get is not None:
            return self.get(i, k)
        if self.nd == 1:
            return tm.elem(self.name, i)
        return tm.elem(self.name, i, k)

    @property
    def dims(self):
        return (self.n,) if self.nd == 1 else (self.n, self.p)


def S(n, f):
    v = tm.fresh("k")
    return tm.sum_(v, n, f(v))


def dist(X, i, Y, j, e=ONE):
    """Euclidean distance of X[i] and Y[j] to the power e."""
    if X.nd == 1 or tm.cval(X.p) == 1:
        sq = tm.ipow(tm.sub(X.at(i, ZERO), Y.at(j, ZERO)), 2)
    else:
        sq = S(X.p, lambda k: tm.ipow(tm.sub(X.at(i, k), Y.at(j, k)), 2))
    return tm.power(sq, tm.mul(tm.HALF, e))


def dmat(X, e=ONE):
    return lambda i, j: dist(X, i, X, j, e)


def centred(a, n):
    """Double centred matrix (general, not necessarily symmetric use of row sums)."""
    tot = S(n, lambda i: S(n, lambda j: a(i, j)))
    row = lambda i: S(n, lambda j: a(i, j))
    inv = tm.ipow(n, -1)
    return lambda i, j: tm.add(a(i, j), tm.neg(tm.mul(inv, row(i))), tm.neg(tm.mul(inv, row(j))),
                               tm.mul(inv, inv, tot))


def u_centred(a, n):
    tot = S(n, lambda i: S(n, lambda j: a(i, j)))
    row = lambda i: S(n, lambda j: a(i, j))
    i2 = tm.ipow(tm.sub(n, TWO), -1)
    i1 = tm.ipow(tm.sub(n, ONE), -1)

    def f(i, j):
        v = tm.add(a(i, j), tm.neg(tm.mul(i2, row(i))), tm.neg(tm.mul(i2, row(j))), tm.mul(i1, i2, tot))
        return tm.ite(tm.cmp("==", i, j), ZERO, v)
    return f


def mean_prod(a, b, n):
    return tm.mul(tm.ipow(n, -2), S(n, lambda i: S(n, lambda j: tm.mul(a(i, j), b(i, j)))))


def u_prod(a, b, n):
    return tm.mul(tm.ipow(n, -1), tm.ipow(tm.sub(n, tm.const(3)), -1),
                  S(n, lambda i: S(n, lambda j: tm.mul(a(i, j), b(i, j)))))


def dcov_sqr(X, Y, e=ONE, unbiased=False):
    n = X.n
    if unbiased:
        return u_prod(u_centred(dmat(X, e), n), u_centred(dmat(Y, e), n), n)
    return mean_prod(centred(dmat(X, e), n), centred(dmat(Y, e), n), n)


def root(t):
    """Square root in which negative values count as 0."""
    return tm.ite(tm.cmp("<", t, ZERO), ZERO, tm.power(t, tm.HALF))


def stats_sqr(X, Y, e=ONE, unbiased=False):
    c, vx, vy = dcov_sqr(X, Y, e, unbiased), dcov_sqr(X, X, e, unbiased), dcov_sqr(Y, Y, e, unbiased)
    return {"covariance_xy": c, "correlation_xy": corr(c, vx, vy), "variance_x": vx, "variance_y": vy}


def corr(c, vx, vy):
    den = tm.absv(tm.mul(vx, vy))
    return tm.ite(tm.cmp("==", den, ZERO), ZERO, tm.mul(c, tm.power(den, tm.const(Fraction(-1, 2)))))


def clip1(t):
    return tm.ite(tm.cmp("<", t, tm.const(-1)), tm.const(-1), tm.ite(tm.cmp("<", ONE, t), ONE, t))


def partial_dcov(X, Y, Z):
    n = X.n
    A, B, C = (u_centred(dmat(s), n) for s in (X, Y, Z))
    cc = u_prod(C, C, n)
    f = lambda M: (lambda c: (lambda i, j: tm.sub(M(i, j), tm.mul(c, C(i, j)))))(
        tm.ite(tm.cmp("==", cc, ZERO), ZERO, tm.mul(u_prod(M, C, n), tm.ipow(cc, -1))))
    return u_prod(f(A), f(B), n)


def partial_dcor(X, Y, Z):
    n = X.n
    A, B, C = (u_centred(dmat(s), n) for s in (X, Y, Z))

    def r(P, Q):
        d = tm.mul(u_prod(P, P, n), u_prod(Q, Q, n))
        return clip1(tm.ite(tm.cmp("==", d, ZERO), ZERO, tm.mul(u_prod(P, Q, n), tm.ipow(root(d), -1))))
    rxy, rxz, ryz = r(A, B), r(A, C), r(B, C)
    den = tm.mul(root(tm.sub(ONE, tm.ipow(rxz, 2))), root(tm.sub(ONE, tm.ipow(ryz, 2))))
    return tm.ite(tm.cmp("==", den, ZERO), ZERO, tm.mul(tm.sub(rxy, tm.mul(rxz, ryz)), tm.ipow(den, -1)))


def avg_mean(count, s1, *_):
    return tm.mul(s1, tm.ipow(count, -1))


def energy_terms(dxx, dyy, dxy, n, m, u=False, avg=None):
    """2 avg(xy) - avg(xx) - avg(yy); avg(dim list, fn) -> term, default the mean."""
    def full(f, a, b):
        return tm.mul(S(a, lambda i: S(b, lambda j: f(i, j))), tm.ipow(a, -1), tm.ipow(b, -1))

    def pairs(f, a):
        s = S(a, lambda i: S(a, lambda j: tm.ite(tm.cmp("<", i, j), f(i, j), ZERO)))
        return tm.mul(TWO, s, tm.ipow(a, -1), tm.ipow(tm.sub(a, ONE), -1))
    if u:
        return tm.sub(tm.scale(2, full(dxy, n, m)), tm.add(pairs(dxx, n), pairs(dyy, m)))
    return tm.sub(tm.scale(2, full(dxy, n, m)), tm.add(full(dxx, n, n), full(dyy, m, m)))


def energy(X, Y, e=ONE, u=False):
    return energy_terms(dmat(X, e), dmat(Y, e), lambda i, j: dist(X, i, Y, j, e), X.n, Y.n, u)


def coef(n, m):
    return tm.mul(n, m, tm.ipow(tm.add(n, m), -1))
