"""C47: the mathematical building blocks equal their definitions."""
import math

import numpy as np
from starwinds_magnetogram import associated_legendre, converter, pfss_magnetogram, zdi_magnetogram
import gen
import ref

PROPERTY = "C47"
QUICK_SCALE = 4
RULE = ("random lists of degrees and orders (any order, repeated, both signs) at random angles (near the axis too), radii and phases; Legendre functions and their derivatives, norms, "
        "radial, polar and azimuthal functions and collected waves against independent evaluation; a case is the list with the points")
REQUIRE = dict(legendre=300, norms=300, radial=300, azimuthal=300, waves=300, schmidt=300)


def factor(l, m):
    """Unnormalised over fully normalised function, for m >= 0, exactly."""
    return math.sqrt(4 * math.pi / (2 * l + 1)) * math.exp(.5 * (math.lgamma(l + m + 1) - math.lgamma(l - m + 1)))


def lists(rng, lmax, negative):
    pairs = gen.lm_pairs(rng, lmax=lmax, negative=negative)
    if rng.random() < .2:
        pairs = pairs + [pairs[i] for i in rng.integers(0, len(pairs), 2)]
    return np.array(pairs).T


def legendre(ctx):
    """calculate_lpmn and lpmv_over_sin."""
    rng = ctx.rng
    lmax = int(rng.choice([1, 2, 3, 5, 8, 12, 20, 40]))
    negative = bool(rng.random() < .4)
    l, m = lists(rng, lmax, negative)
    shape = [(int(rng.integers(1, 20)),), tuple(int(x) for x in rng.integers(1, 5, 2)), tuple(int(x) for x in rng.integers(1, 4, 3))][int(rng.integers(3))]
    theta = gen.points(rng, int(np.prod(shape)), margin=.02)[0].reshape(shape)
    if rng.random() < .3:
        theta.flat[0] = rng.choice([0, np.pi])
    tab = ref.legendre(lmax, theta)
    V, D = associated_legendre.calculate_lpmn(l, m, theta)
    ctx.ev("legendre")
    ctx.equal((V.shape, D.shape), (shape + (len(l),),) * 2, "shapes")
    for i, (a, b) in enumerate(zip(l.tolist(), m.tolist())):
        P, Q, dP = ref.pqd(tab, a, b)
        k = factor(a, b)
        bound = k * np.sqrt((2 * a + 1) / (4 * np.pi))
        ctx.close("Legendre function", V[..., i], k * P, rtol=1e-10, scale=bound, pair=(a, b))
        ctx.close("derivative of the Legendre function", D[..., i], k * dP, rtol=1e-8, scale=bound * (a + 1), pair=(a, b))
        if b and i < 12:
            got = associated_legendre.lpmv_over_sin(b, a, theta)
            ctx.close("Legendre function over sine", got, k * Q, rtol=1e-9, scale=bound * (a + 1), pair=(a, b))
    ctx.describe("legendre", l[:10].tolist(), m[:10].tolist(), shape)


def norms(ctx):
    rng = ctx.rng
    top = int(rng.choice([1, 3, 8, 20, 60, 84]))
    k = int(rng.integers(1, 12))
    l = rng.integers(0, top + 1, k)
    m = np.array([int(rng.integers(-a, a + 1)) for a in l])
    ctx.ev("norms")
    low = zdi_magnetogram.get_c_lm(l, m) if rng.random() < .7 else zdi_magnetogram.get_c_lm(l.tolist(), m.tolist())
    want = np.array([1 / factor(a, b) for a, b in zip(l.tolist(), m.tolist())])
    ctx.close("norm", low, want, rtol=1e-10, scale=want)
    i = m >= 0
    if np.any(i):
        ctx.close("norm by the other method", zdi_magnetogram.get_c_lm(l[i], m[i], method="high_order"), want[i], rtol=1e-9, scale=want[i])
        big = l[i] * 4
        w = np.array([1 / factor(a, b) if math.lgamma(a + b + 1) - math.lgamma(a - b + 1) < 690 else 0 for a, b in zip(big.tolist(), m[i].tolist())])
        ok = w > 1e-145     # the square must be representable
        ctx.close("norm by the other method for high degrees", zdi_magnetogram.get_c_lm(big, m[i], method="high_order")[ok], w[ok], rtol=1e-9, scale=w[ok])
    ctx.describe("norms", l.tolist(), m.tolist())


def functions(ctx):
    """The radial, polar and azimuthal functions of the potential field."""
    rng = ctx.rng
    l = int(rng.integers(0, 25))
    m = int(rng.integers(0, l + 1))
    n = int(rng.integers(1, 12))
    r0 = float(rng.choice([1, .5, 3, rng.uniform(.1, 10)]))
    rss = r0 * float(rng.choice([2.5, 3, 1.2, rng.uniform(1.05, 20)]))
    r = r0 + (rss - r0) * np.concatenate([[0, 1], rng.random(n)])
    v, d = pfss_magnetogram.r_l(l, r, r0, rss)
    f, df = ref.radial_function(l, r, r0, rss)
    ctx.ev("radial")
    s = np.abs(f) + r0 * (r0 / r) ** (l + 1) / (l + 1)
    ctx.close("radial function", v, f, rtol=1e-9, scale=s, degree=l)
    ctx.close("derivative of the radial function", d, df, rtol=1e-9, scale=np.abs(df) + (r0 / r) ** (l + 2), degree=l)
    ctx.close("radial function at the source surface", v[1], 0.0, rtol=1e-12, scale=r0)
    # At the surface the derivative is minus one, whatever the degree.
    ctx.close("derivative at the stellar surface", d[0], -1.0, rtol=1e-11, degree=l)
    g, h = rng.normal(size=2) * 10.0 ** rng.integers(-3, 4)
    phi = rng.uniform(-10, 10, n)
    o = -m if rng.random() < .3 else m
    v, d = pfss_magnetogram.phi_lm(o, g, h, phi)
    ctx.ev("azimuthal")
    w = (g - 1j * h) * np.exp(1j * o * phi)
    ctx.close("azimuthal function", v, np.real(w), rtol=1e-12 * (m + 1), scale=abs(g) + abs(h))
    ctx.close("derivative of the azimuthal function", d, np.real(1j * o * w), rtol=1e-12 * (m + 1), scale=(abs(g) + abs(h)) * (m + 1))
    theta = gen.points(rng, n, margin=.05)[0]
    theta2 = theta.reshape(1, -1) if rng.random() < .5 else theta
    P, Q, D = (np.sqrt(4 * np.pi / (2 * l + 1)) * np.sqrt(1 if m == 0 else 2) * (-1.0) ** m * x for x in ref.pqd(ref.legendre(l, theta2), l, m))
    t = pfss_magnetogram.theta_lm(l, m, theta2)[0]
    ctx.ev("schmidt")
    ctx.close("polar function", t, P, rtol=1e-10, scale=2.0)
    T, dT = pfss_magnetogram.calculate_all_theta([l, max(l, 1), 3], [m, 1 if l else 0, 2], theta2)
    ctx.close("polar function (listed)", T[..., 0], P, rtol=1e-10, scale=2.0)
    ctx.close("derivative of the polar function", dT[..., 0], D, rtol=1e-8, scale=2.0 * (l + 1))
    old = pfss_magnetogram.calculate_all_theta([l, max(l, 1), 3], [m, 1 if l else 0, 2], theta2, scipy=False)
    ctx.close("polar function (listed, one by one)", old[0], T, rtol=1e-10, scale=2.0)
    ctx.check(np.shape(old[1]) == np.shape(dT), "the derivatives evaluated one by one have another shape", shapes=(np.shape(old[1]), np.shape(dT)))
    # The factors of the conversions.
    ctx.close("conversion factor", converter.forward_conversion_factor(l, m) * 1.0, ref.forward_factor(l, m), rtol=1e-12, degree=l, order=m)
    ctx.describe("functions", l, m, r0, rss)


def waves(ctx):
    """Two waves of opposite direction collected into one."""
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    r, s = rng.normal(size=(2, n)) * 10.0 ** rng.integers(-3, 4)
    if rng.random() < .3:
        s = np.where(rng.random(n) < .5, r, 0)
    a, b = rng.uniform(-7, 7, (2, n))
    if rng.random() < .2:
        a, b = np.round(a) * np.pi / 2, np.round(b) * np.pi / 2
    if n == 1 and rng.random() < .5:
        r, s, a, b = (float(x[0]) for x in (r, s, a, b))
    x = rng.uniform(-10, 10, (5, 1))
    ctx.ev("waves")
    # r cos(x + a) + s cos(-x + b) = t cos(x + c); the same for sines.
    for fn, f, name in ((converter.collect_cosines, np.cos, "cosines"), (converter.collect_sines, np.sin, "sines")):
        t, c = fn(r, a, s, b)
        ctx.close("sum of two " + name, t * f(x + c), r * f(x + a) + s * f(b - x), rtol=1e-12, scale=np.abs(r) + np.abs(s))
    ctx.describe("waves", brief(r), brief(a))


def brief(x):
    return np.round(np.atleast_1d(x)[:3], 6).tolist()


CASES = {"legendre": (legendre, 200, 2500), "norms": (norms, 200, 2500), "functions": (functions, 250, 4000), "waves": (waves, 200, 2500)}
CHUNK = 4
