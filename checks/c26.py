"""C26: cartesian and spherical PFSS evaluation describe the same vector."""
import numpy as np
from starwinds_magnetogram import pfss_magnetogram
import gen
import ref
from vh import fingerprint
from c24 import coefficient_set, place, radii, term_scale

PROPERTY = "C26"
QUICK_SCALE = 8
RULE = ("random coefficient sets, radii and cartesian points in arrays of several shapes, including the centre, the axes and coordinate planes and all "
        "regions; a case is the set with the radii and the shape")
REQUIRE = dict(points=5000, axis_points=300, centre_points=50)


def cartesian_points(ctx, n, r0, rss):
    rng = ctx.rng
    r = place(rng, n, r0, rss)
    theta, phi = gen.points(rng, n)
    x = np.stack([r * np.sin(theta) * np.cos(phi), r * np.sin(theta) * np.sin(phi), r * np.cos(theta)])
    k = rng.random(n)
    for i in range(n):
        if k[i] < .05:
            x[:, i] = 0
            ctx.ev("centre_points")
        elif k[i] < .25:      # on an axis, either direction, either sign of zero
            a = int(rng.integers(3))
            x[:, i] = rng.choice([0.0, -0.0], 3)
            x[a, i] = r[i] * rng.choice([1, -1])
            ctx.ev("axis_points")
        elif k[i] < .4:       # in a coordinate plane
            x[int(rng.integers(3)), i] = rng.choice([0.0, -0.0])
    return x


def agree(ctx):
    rng = ctx.rng
    c, M = coefficient_set(rng, int(rng.choice([0, 1, 2, 3, 5, 8, 12])))
    r0, rss, kw = radii(rng)
    shape = [(24,), (4, 6), (2, 3, 4), (24, 1), (1, 24), (1,), (2, 1, 3)][int(rng.integers(7))]
    n = int(np.prod(shape))
    x = cartesian_points(ctx, n, r0, rss)
    args = [v.reshape(shape) for v in x]
    before = fingerprint([c] + args)
    out = pfss_magnetogram.evaluate_cartesian(c, *args, **kw)
    ctx.check(fingerprint([c] + args) == before, "evaluation changed its arguments")
    ctx.ev("points", n)
    ctx.equal(len(out), 6, "number of components")
    for o in out:
        ctx.check(np.shape(o) == shape, "shape", got=np.shape(o), want=shape)
    r = np.sqrt(np.sum(x ** 2, 0))
    theta = np.arctan2(np.hypot(x[0], x[1]), x[2])
    theta = np.where(r == 0, 0, theta)
    phi = np.arctan2(x[1], x[0])
    sph = [np.ravel(o) for o in out[:3]]
    xyz = np.stack([np.ravel(o) for o in out[3:]], -1)
    want = ref.pfss_field(M, r, theta, phi, r0, rss)
    # Points on a surface may be attributed to either side.
    clear = (np.abs(r - r0) > 1e-12 * r0) & (np.abs(r - rss) > 1e-12 * rss)
    s = want[3] + 1e-5 * np.max(want[3]) + 1e-3 * term_scale(M, r, r0, rss)
    # Close to the axis the polar angle from the height has a rounding error of 1e-16 / sin(theta), and so have the fields.
    rtol = np.where(np.sin(theta) < .01, 1e-5, 1e-8)
    for name, g, w in zip(("radial", "polar", "azimuthal"), sph, want):
        ctx.close(name, g[clear], w[clear], rtol=1.0, scale=(rtol * s)[clear])
    direct = pfss_magnetogram.evaluate_spherical(c, r, theta, phi, **kw)
    for name, g, w in zip(("radial", "polar", "azimuthal"), sph, direct):
        ctx.close(name + " against the spherical evaluation", g[clear], w[clear], rtol=1.0, scale=(rtol * s)[clear])
    # The cartesian vector is the spherical one, at every point (including those on the surfaces).
    ctx.close("cartesian vector", xyz, ref.cartesian(*sph, theta, phi), rtol=1.0, scale=(np.where(np.sin(theta) < .01, 1e-6, 1e-9) * s)[:, None])
    ctx.close("length", np.sqrt(np.sum(xyz ** 2, -1)), np.sqrt(sum(g ** 2 for g in sph)), rtol=1e-10, scale=s)
    ctx.describe(sorted(M)[:8], len(M), r0, rss, shape)


CASES = {"agree": (agree, 500, 8000)}
CHUNK = 4
