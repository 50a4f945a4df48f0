"""C33: wind speeds solve the Parker equation on the transonic branch."""
import numpy as np
from starwinds_magnetogram.parker_solution import AnalyticBase, ParkerSolution
from vh import fingerprint

PROPERTY = "C33"
QUICK_SCALE = 10
RULE = ("arrays of dimensionless distances from 0.007 to 1e9 (including one, its floating-point neighbours and clusters around it), in any order, shape and "
        "container, alone, and with all solutions; a case is the set of distances")
REQUIRE = dict(speeds=2000, near_sonic=200, at_sonic=50, pairs=500)


def distances(rng, n):
    k = rng.integers(0, 7, n)
    u = rng.random(n)
    s = np.where(rng.random(n) < .5, -1, 1)
    r = np.select([k == 0, k == 1, k == 2, k == 3, k == 4, k == 5],
                  [10 ** (-2.15 + 2.15 * u), 10 ** (2 * u), 10 ** (9 * u), 1 + s * 10 ** (-1 - 15 * u),
                   1 + s * np.round(12 * u) * np.finfo(float).eps, np.full(n, 1.0)], .2 + 3 * u)
    return r


def lhs(u):
    return u ** 2 - 1 - 2 * np.log(u)


def rhs(r):
    return 4 * np.log(r) + 4 * (1 / r - 1)


def newton(r, sup):
    """Independent solution: bisection in the logarithm of the speed."""
    y = rhs(r)
    lo, hi = (np.zeros_like(r), np.full_like(r, 5.0)) if sup else (np.full_like(r, -400.0), np.zeros_like(r))
    for _ in range(200):
        mid = (lo + hi) / 2
        big = lhs(np.exp(mid)) > y
        lo, hi = (np.where(big, lo, mid), np.where(big, mid, hi)) if sup else (np.where(big, mid, lo), np.where(big, hi, mid))
    return np.exp((lo + hi) / 2)


TOL = 1e-4   # how far speeds next to the sonic point may be off: the equation is quadratic there and scipy loses digits


def judge(ctx, name, r, u, sup):
    """u solves the equation at r on the given side(s) of one."""
    ctx.check(np.all(u > 0) and np.all(np.isfinite(u)), name + " not positive and finite", r=r, u=u)
    ctx.close(name + ": residual of the equation", lhs(u) - rhs(r), 0 * r, rtol=1.0, scale=np.where(np.abs(r - 1) < 1e-4, 2e-8, 0) + 1e-11 * (1 + np.abs(rhs(r)) + 4 / r + np.abs(4 * np.log(r)) + u ** 2))
    bad = np.where(sup, u < 1 - TOL, u > 1 + TOL)
    ctx.check(not np.any(bad), name + " on the wrong side of the speed of sound", r=r[bad], u=u[bad])
    far = np.abs(r - 1) > 1e-4
    bad = far & np.where(sup, u <= 1, u >= 1)
    ctx.check(not np.any(bad), name + " not beyond the speed of sound", r=r[bad], u=u[bad])
    # The independent solution.
    want = np.where(sup, newton(r, True), newton(r, False))
    near = np.abs(r - 1) < 1e-4
    ctx.close(name, u[~near], want[~near], rtol=1e-9, scale=want[~near])
    # Next to the sonic point, to second order: u - 1 = +-(r - 1)(1 -+ ...)
    w = 1 + np.where(sup, 1, -1)[near] * np.abs(r[near] - 1)
    ctx.close(name + " next to the sonic point", u[near], w, rtol=1.0, scale=TOL + 5 * (r[near] - 1) ** 2)


def speeds(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 17, 60]))
    r = distances(rng, n)
    k = rng.integers(4)
    if k == 0:
        r = np.sort(r)
    elif k == 1:
        r = np.sort(r)[::-1]
    cls = [AnalyticBase, ParkerSolution][rng.integers(2)]
    given = r.copy()
    before = fingerprint(given)
    u = cls.find_parker_analytic(given)
    ctx.check(fingerprint(given) == before, "the distances changed")
    ctx.check(np.shape(u) == r.shape and np.asarray(u).dtype.kind == "f", "speeds of the wrong shape or kind", u=u)
    u = np.asarray(u, float)
    ctx.ev("speeds", n)
    ctx.ev("near_sonic", np.sum(np.abs(r - 1) < 1e-3))
    ctx.ev("at_sonic", np.sum(r == 1))
    judge(ctx, "speed", r, u, r >= 1)
    ctx.close("speed at the sonic point", u[r == 1], np.ones(np.sum(r == 1)), rtol=1.0, scale=TOL)
    # Increasing with distance.
    i = np.argsort(r, kind="stable")
    d, dr = np.diff(u[i]), np.diff(np.log(r[i]))
    ctx.check(np.all(d[dr > 4e-4] > 0), "speed does not increase with distance", r=r[i], u=u[i])
    ctx.check(np.all(d > -2 * TOL), "speed falls with distance", r=r[i], u=u[i])
    ctx.check(np.all(u[r > 1.0002] > 1) and np.all(u[r < .9998] < 1), "wrong side of the sonic point")
    # Each value on its own, in another order, shape, kind of container, and again.
    for j in rng.choice(n, min(n, 6), replace=False):
        one = cls.find_parker_analytic([float(r[j]), np.float64(r[j])][rng.integers(2)])
        ctx.close("speed alone", float(np.asarray(one).reshape(())), u[j], rtol=1e-11, scale=u[j] + (TOL * 1e11 if abs(r[j] - 1) < 1e-4 else 0))
    p = rng.permutation(n)
    slack = np.where(np.abs(r - 1) < 1e-4, TOL * 1e11, 0)
    ctx.close("speed in another order", cls.find_parker_analytic(r[p]), u[p], rtol=1e-11, scale=(u + slack)[p])
    if n == 60:
        ctx.close("speed in another shape", cls.find_parker_analytic(r.reshape(3, 4, 5)), u.reshape(3, 4, 5), rtol=1e-11, scale=(u + slack).reshape(3, 4, 5))
        ctx.close("speed of a list", cls.find_parker_analytic(list(r)), u, rtol=1e-11, scale=u + slack)
    ctx.same("speed again", cls.find_parker_analytic(given), u)
    # Integers
    q = rng.integers(1, 50, 5)
    ctx.close("speed at an integer distance", cls.find_parker_analytic(q), cls.find_parker_analytic(q.astype(float)), rtol=1e-11, scale=10.0)
    ctx.describe("speeds", r.tolist())


def both(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 9, 40]))
    r = distances(rng, n)
    got = AnalyticBase.find_parker_analytic(r, all_sols=True) if rng.random() < .7 else AnalyticBase.find_parker_analytic(r, True)
    ctx.check(len(got) == 2, "not two solutions", got=got)
    sub, sup = (np.asarray(x) for x in got)
    ctx.check(sub.shape == sup.shape == r.shape and sub.dtype.kind == sup.dtype.kind == "f", "solutions of the wrong shape or kind")
    ctx.ev("pairs", n)
    deep = rhs(r) < 600
    judge(ctx, "subsonic solution", r[deep], sub[deep], np.zeros(deep.sum(), bool))
    judge(ctx, "supersonic solution", r[deep], sup[deep], np.ones(deep.sum(), bool))
    u = np.asarray(AnalyticBase.find_parker_analytic(r))
    ctx.close("transonic solution is one of the two", u, np.where(r < 1, sub, sup), rtol=1e-11,
              scale=u + np.where(np.abs(r - 1) < 1e-3, TOL * 1e11, 0))
    a, b = AnalyticBase.find_parker_analytic(float(r[0]), all_sols=True)
    slack = TOL * 1e11 if abs(r[0] - 1) < 1e-3 else 0
    ctx.close("subsonic solution alone", float(a), sub[0], rtol=1e-11, scale=sub[0] + slack)
    ctx.close("supersonic solution alone", float(b), sup[0], rtol=1e-11, scale=sup[0] + slack)
    # The two sides of the equation.
    x = 10 ** rng.uniform(-2, 2, 8)
    ctx.close("left-hand side", AnalyticBase.parker_lhs(x), lhs(x), rtol=1e-12, scale=1 + x ** 2 + np.abs(np.log(x)))
    ctx.close("right-hand side", AnalyticBase.parker_rhs(x), rhs(x), rtol=1e-12, scale=8 + 4 / x + 4 * np.abs(np.log(x)))
    ctx.describe("both", r.tolist())


CASES = {"speeds": (speeds, 300, 12000), "both": (both, 150, 6000)}
