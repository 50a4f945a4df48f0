"""C11: PFSS to ZDI conversion gives the potential field and inverts ZDI to PFSS."""
import numpy as np
import starwinds_magnetogram.coefficients as shc
from starwinds_magnetogram import converter, pfss_magnetogram, zdi_magnetogram
import gen
import ref

PROPERTY = "C11"
QUICK_SCALE = 6
RULE = ("random PFSS sets converted to ZDI; the three surface components against the potential field with source surface at 3 stellar radii "
        "(reference and code) at the mirrored azimuth; round trips in both directions; a case is the set")
REQUIRE = dict(points=2000, round_trips=300)


def potential(ctx):
    rng = ctx.rng
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 30]), (36, 45, 60))
    c = gen.coeffs(rng, 1, lmax=lmax)
    M = gen.model(c)
    z = converter.convert_pfss_to_zdi(c)
    Z = gen.model(z)
    ctx.equal(sorted(Z), sorted(M), "pairs after conversion")
    ctx.check(all(v.shape == (3,) for v in Z.values()), "three values per coefficient are due")
    ctx.check(all(v[2] == 0 for v in Z.values()), "the toroidal coefficients are not zero")
    theta, phi = gen.points(rng, int(rng.integers(5, 30)))
    mg = zdi_magnetogram.from_coefficients(z)
    got = [mg.get_radial_field(theta, phi), mg.get_polar_field(theta, phi), mg.get_azimuthal_field(theta, phi)]
    br, bt, bp, sc = ref.pfss_field({k: v[0] for k, v in M.items()}, 1.0, theta, -phi, 1.0, 3.0)
    ctx.ev("points", theta.size)
    s = np.max(sc)
    for name, g, w in zip(("radial", "polar", "azimuthal"), got, (br, bt, -bp)):
        ctx.close(name + " field against the potential field", g, w, rtol=1e-9, scale=s)
    code = pfss_magnetogram.evaluate_spherical(c, np.ones_like(theta), theta, -phi, radius_star=1, radius_source_surface=3)
    for name, g, w, sign in zip(("radial", "polar", "azimuthal"), got, code, (1, 1, -1)):
        ctx.close(name + " field against the PFSS evaluation", g, sign * w, rtol=1e-9, scale=s)
    # Round trips.
    back = gen.model(converter.convert_zdi_to_pfss(shc.hsplit(z)[0]))
    ctx.ev("round_trips")
    ctx.equal(sorted(back), sorted(M), "pairs after converting back")
    for k in M:
        ctx.close("PFSS to ZDI and back", back[k], M[k], rtol=1e-11, scale=np.abs(M[k]), pair=k)
    a = gen.coeffs(rng, 1, lmax=lmax)
    A = gen.model(a)
    again = gen.model(converter.convert_pfss_to_zdi(converter.convert_zdi_to_pfss(a)))
    ctx.ev("round_trips")
    ctx.equal(sorted(again), sorted(A), "pairs after converting forth and back")
    for k in A:
        ctx.close("ZDI to PFSS and back", again[k][0], A[k][0], rtol=1e-11, scale=np.abs(A[k]), pair=k)
    ctx.describe(sorted(M)[:10])


def each(ctx):
    """Every (degree, order) alone."""
    rng = ctx.rng
    l = ctx.index
    for m in range(l + 1):
        v = complex(rng.normal(), rng.normal())
        z = gen.model(converter.convert_pfss_to_zdi(gen.build([(l, m)], [np.array([v])])))
        ctx.equal(sorted(z), [(l, m)], "pairs")
        f = ref.forward_factor(l, m)
        R = ref.radial_function(l, 1.0, 1.0, 3.0)[0]
        ctx.close("coefficients", z[(l, m)][[0, 2]], np.array([v / f, 0]), rtol=1e-11, pair=(l, m))
        if l:
            ctx.close("coefficients", z[(l, m)][1], v / f * R * (l + 1), rtol=1e-11, pair=(l, m))
        ctx.ev("pairs")
    ctx.describe("degree", l)


CASES = {"potential": (potential, 600, 8000), "each": (each, 31, 81)}
