"""C24: PFSS fields equal the potential field source surface solution."""
import numpy as np
from starwinds_magnetogram import pfss_magnetogram
import gen
import ref
from vh import fingerprint

PROPERTY = "C24"
QUICK_SCALE = 6
RULE = ("random coefficient sets and every single (degree, order); points inside the star, on and between the surfaces and beyond; random stellar and "
        "source surface radii and the default ones; a case is the set with the radii")
REQUIRE = dict(points_between=3000, points_inside=500, points_beyond=1000, single_coefficients=100)


def radii(rng):
    """Stellar radius and source surface radius, as keyword arguments too."""
    k = int(rng.integers(6))
    if k == 0:
        return 1.0, 2.5, {}
    if k == 1:
        rss = float(rng.uniform(1.05, 10))
        return 1.0, rss, dict(radius_source_surface=rss)
    if k == 2:
        r0 = float(rng.uniform(.1, 2.4))
        return r0, 2.5, dict(radius_star=r0)
    if k == 3:
        r0, rss = [(1, 3), (2, 5), (1, 2)][int(rng.integers(3))]
        return float(r0), float(rss), dict(radius_star=r0, radius_source_surface=rss)
    r0 = float(10.0 ** rng.uniform(-2, 2)) if k == 4 else float(10.0 ** rng.choice([-9, 9, 5]))
    rss = r0 * float(rng.uniform(1.02, 8))
    return r0, rss, dict(radius_star=r0, radius_source_surface=rss)


def place(rng, n, r0, rss):
    """Distances: within, exactly on, inside and beyond the surfaces."""
    k = rng.random(n)
    u = rng.random(n)
    r = r0 + u * (rss - r0)
    r = np.where(k < .1, r0, r)
    r = np.where((k > .1) & (k < .2), rss, r)
    r = np.where((k > .2) & (k < .35), rss * (1 + 4 * u), r)
    r = np.where((k > .35) & (k < .38), rss * (1 + 1e-9), r)
    r = np.where((k > .38) & (k < .41), r0 * (1 - 1e-9), r)
    return np.where((k > .41) & (k < .5), r0 * (.01 + .98 * u), r)


def coefficient_set(rng, lmax=None):
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 8, 12, 20]), (30, 45, 60)) if lmax is None else lmax
    c = gen.coeffs(rng, 1, lmax=lmax)
    return c, {k: v[0] for k, v in gen.model(c).items()}


def term_scale(M, r, r0, rss):
    """Sum of the magnitudes that the terms have anywhere at the distance, whatever the direction; what rounding errors are relative to."""
    inner = np.clip(r, r0, rss)
    return (inner / np.maximum(r, r0)) ** 2 * sum(abs(v) * (k[0] + 1) * (r0 / inner) ** (k[0] + 2) for k, v in M.items())


def compare(ctx, c, M, r0, rss, kw, n=40):
    rng = ctx.rng
    r = place(rng, n, r0, rss)
    theta, phi = gen.points(rng, n)
    ctx.ev("points_inside", np.sum(r < r0))
    ctx.ev("points_beyond", np.sum(r > rss))
    ctx.ev("points_between", np.sum((r >= r0) & (r <= rss)))
    before = fingerprint(c)
    got = pfss_magnetogram.evaluate_spherical(c, r, theta, phi, **kw)
    ctx.check(fingerprint(c) == before, "evaluation changed the coefficients")
    ctx.equal(len(got), 3, "number of components")
    want = ref.pfss_field(M, r, theta, phi, r0, rss)
    for name, g, w in zip(("radial", "polar", "azimuthal"), got, want):
        # Scale: the sum of the magnitudes of the terms at the point, with a floor for terms that happen to vanish there.
        ctx.close(name, g, w, rtol=1e-8, scale=want[3] + 1e-7 * np.max(want[3]) + 1e-5 * term_scale(M, r, r0, rss))
    inside, beyond = r < r0, r > rss
    for g in got:
        ctx.check(not np.any(g[inside]), "field inside the star")
    for g in got[1:]:
        ctx.close("tangential field beyond the source surface", g[beyond], 0 * g[beyond], rtol=1e-11, scale=want[3][beyond] + 1e-4 * term_scale(M, r, r0, rss)[beyond])
    if np.any(beyond):
        at = pfss_magnetogram.evaluate_spherical(c, np.full(n, rss), theta, phi, **kw)
        ctx.close("fall-off beyond the source surface", got[0][beyond], (at[0] * (rss / r) ** 2)[beyond], rtol=1e-9, scale=want[3][beyond] + 1e-4 * term_scale(M, r, r0, rss)[beyond])


def sets(ctx):
    c, M = coefficient_set(ctx.rng)
    r0, rss, kw = radii(ctx.rng)
    compare(ctx, c, M, r0, rss, kw)
    ctx.describe(sorted(M)[:10], len(M), r0, rss)


def singles(ctx):
    rng = ctx.rng
    l = ctx.index
    for m in range(l + 1):
        v = complex(rng.normal(), rng.normal())
        r0, rss, kw = radii(rng)
        ctx.ev("single_coefficients")
        compare(ctx, gen.build([(l, m)], [np.array([v])]), {(l, m): v}, r0, rss, kw, n=16)
    ctx.describe("degree", l)


def monitors(ctx):
    """Boundary conditions seen on the code's own field: the surface map does not depend on the source surface, the field is
    the gradient of a potential that vanishes there, and evaluations at other radii do not interfere."""
    rng = ctx.rng
    c, M = coefficient_set(rng, int(rng.choice([1, 2, 4, 7])))
    n = 15
    theta, phi = gen.points(rng, n)
    seen = []
    r0 = float(rng.uniform(.2, 4))
    for rss in r0 * (1 + rng.uniform(.05, 6, 3)):
        kw = dict(radius_star=r0, radius_source_surface=float(rss))
        f = pfss_magnetogram.evaluate_spherical(c, np.full(n, r0), theta, phi, **kw)
        s = ref.pfss_field(M, np.full(n, r0), theta, phi, r0, float(rss))[3]
        seen.append(f[0])
        ctx.close("surface radial field for another source surface", f[0], seen[0], rtol=1e-9, scale=np.max(s))
        g = pfss_magnetogram.evaluate_spherical(c, np.full(n, float(rss)), theta, phi, **kw)
        for x in g[1:]:
            ctx.close("tangential field at the source surface", x, np.zeros(n), rtol=1e-9, scale=np.max(s))
        out = pfss_magnetogram.evaluate_spherical(c, np.full(n, float(rss) * (1 + 1e-10)), theta, phi, **kw)
        ctx.close("continuity at the source surface", out[0], g[0], rtol=1e-8, scale=np.max(np.abs(g[0])) + 1e-6 * np.max(s))
    ctx.ev("points_between", 6 * n)
    ctx.describe("boundary", sorted(M)[:10], r0)


CASES = {"sets": (sets, 500, 8000), "singles": (singles, 21, 40), "monitors": (monitors, 150, 2500)}
CHUNK = 4
