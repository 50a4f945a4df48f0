"""C10: ZDI to PFSS conversion preserves the radial surface field."""
import numpy as np
from starwinds_magnetogram import converter, pfss_magnetogram, zdi_magnetogram
import gen
import ref

PROPERTY = "C10"
QUICK_SCALE = 6
RULE = ("random ZDI radial coefficients converted; radial PFSS field at the surface against the ZDI radial field at the mirrored azimuth "
        "and against the definition, at random points; plus every single (degree, order) up to 30; a case is the set with the radii")
REQUIRE = dict(points=5000, factors=400)


def surface(ctx):
    rng = ctx.rng
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 30]), (36, 45, 60))
    c = gen.coeffs(rng, 1, lmax=lmax)
    M = gen.model(c)
    p = converter.convert_zdi_to_pfss(c)
    P = gen.model(p)
    ctx.equal(sorted(P), sorted(M), "pairs after conversion")
    theta, phi = gen.points(rng, int(rng.integers(5, 40)))
    if rng.random() < 0.3:
        theta[:2] = [0.0, np.pi]
    r0 = float(rng.choice([1.0, 0.3, 2.0, rng.uniform(.1, 10)]))
    rss = r0 * float(rng.choice([2.5, 3.0, 1.05, 20.0, rng.uniform(1.1, 8)]))
    l, m = np.array(sorted(M)).T
    a = np.array([M[k][0] for k in sorted(M)])
    zero = 0 * a
    want = ref.zdi_field(l, m, a, zero, zero, theta, -phi)
    tol = dict(rtol=1e-9, scale=want.scale["r"])
    kw = {}
    if r0 == 1.0 and rng.random() < .5:
        rss = 2.5
    else:
        kw = dict(radius_star=r0, radius_source_surface=rss)
    br = pfss_magnetogram.evaluate_spherical(p, np.full(theta.shape, r0), theta, phi, **kw)[0]
    ctx.ev("points", theta.size)
    ctx.close("radial PFSS field at the surface against the definition", br, want["r"], **tol, radii=(r0, rss))
    z = zdi_magnetogram.from_coefficients(c).get_radial_field(theta, -phi)
    ctx.close("radial PFSS field at the surface against the ZDI field", br, z, **tol)
    # Linear, and each coefficient separately.
    k = complex(rng.normal(), rng.normal())
    q = gen.model(converter.convert_zdi_to_pfss(c * k))
    for key in M:
        ctx.close("conversion of a multiple", q[key], P[key] * k, rtol=1e-11, scale=np.abs(P[key] * k))
    ctx.describe(sorted(M)[:10], r0, rss)


def factors(ctx):
    """The factor of every pair: the same for every value and whatever else the set contains."""
    rng = ctx.rng
    l = ctx.index
    full = gen.lm_pairs(rng, lmax=l, style="full")
    a = gen.build(full, list(gen.values(rng, (len(full), 1), 1.0)))
    pa = gen.model(converter.convert_zdi_to_pfss(a))
    A = gen.model(a)
    for m in range(l + 1):
        one = gen.model(converter.convert_zdi_to_pfss(gen.build([(l, m)], [np.array([1.0 + 0j])])))
        ctx.equal(sorted(one), [(l, m)], "pairs after conversion of a single coefficient")
        f = one[(l, m)]
        ctx.ev("factors")
        ctx.close("factor", f, [complex(ref.forward_factor(l, m))], rtol=1e-11, pair=(l, m))
        ctx.close("factor in a full set", pa[(l, m)], A[(l, m)] * f, rtol=1e-11, scale=np.abs(A[(l, m)] * f), pair=(l, m))
    ctx.describe("degree", l)


def high(ctx):
    """Degrees for which fields cannot be evaluated any more are converted all the same."""
    rng = ctx.rng
    n = int(rng.integers(1, 12))
    l = 10.0 ** rng.uniform(1.5, 4.3, n)
    keys = sorted({(int(a), int(rng.choice([0, 1, int(a), int(rng.integers(0, int(a) + 1))]))) for a in l})
    c = gen.build(keys, list(gen.values(rng, (len(keys), 1), float(10.0 ** rng.integers(-5, 6)))))
    M, P = gen.model(c), gen.model(converter.convert_zdi_to_pfss(c))
    ctx.equal(sorted(P), keys, "pairs after conversion")
    ctx.ev("factors", len(keys))
    for k in keys:
        # The factor of the norms, sqrt((2 l + 1) / (4 pi)) over sqrt(2 - (m == 0)), with alternating sign.
        f = (-1) ** (k[1] % 2) * np.sqrt((2.0 * k[0] + 1) / (4 * np.pi) / (2 - (k[1] == 0)))
        ctx.close("factor of a high degree", P[k], M[k] * f, rtol=1e-11, scale=np.abs(M[k] * f), pair=k)
    ctx.describe("high", keys)


CASES = {"surface": (surface, 600, 8000), "factors": (factors, 31, 81), "high": (high, 60, 1000)}
