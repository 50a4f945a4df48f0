"""C14: ZDI field components equal the spherical-harmonic definition."""
import numpy as np
import starwinds_magnetogram.coefficients as shc
from starwinds_magnetogram import zdi_magnetogram
import gen
import ref

PROPERTY = "C14"
QUICK_SCALE = 4
RULE = ("random magnetograms (sparse, shuffled, both signs of the order, degrees to 60) and every single (degree, order) alone, the five "
        "components at random points against an independent evaluation of the definition; a case is the magnetogram")
REQUIRE = dict(points=5000, single_coefficients=400, near_axis=1000)

RT = 1e-6
GETTERS = dict(r_pol="get_radial_poloidal_field", t_pol="get_polar_poloidal_field_new", p_pol="get_azimuthal_poloidal_field",
               r_tor="get_radial_toroidal_field", t_tor="get_polar_toroidal_field", p_tor="get_azimuthal_toroidal_field_new")


def compare(ctx, mg, z, theta, phi, what=""):
    want = ref.zdi_field(*z.args, theta, phi)
    ctx.ev("points", theta.size)
    for k, g in GETTERS.items():
        ctx.close(what + g, getattr(mg, g)(theta, phi), want[k], rtol=1e-9, scale=want.scale[k])
    for k, g in dict(r="get_radial_field", t="get_polar_field", p="get_azimuthal_field").items():
        ctx.close(what + g, getattr(mg, g)(theta, phi), want[k], rtol=1e-9, scale=want.scale[k])
    return want


def arranged(rng, theta, phi):
    """The points in an array of two or three dimensions (not a mesh), or an angle along each dimension, or one angle for all of the other."""
    k = int(rng.integers(5))
    n = len(theta)
    if k == 0:
        return theta, phi
    if k == 1:      # a mesh, in either order
        t, p = np.meshgrid(theta[:max(1, n // 3)], phi[:max(1, n // 2)], indexing=["xy", "ij"][int(rng.integers(2))])
        return t, p
    if k == 2:      # a slanted mesh: both angles vary along both dimensions
        t, p = np.meshgrid(theta[:max(1, n // 3)], phi[:max(1, n // 2)])
        return np.clip(t + .01 * p / (4 * np.pi), .02, np.pi - .02), p + t
    r = [2, 3][int(rng.integers(2))]
    shape = (r, -1) if k == 3 else (-1, r) if rng.random() < .5 else (r, -1, 1)
    n = n // r * r
    return (theta[:n].reshape(shape), phi[:n].reshape(shape)) if n else (theta, phi)


def random_sets(ctx):
    rng = ctx.rng
    lmax = int(rng.choice([1, 2, 3, 5, 8, 12, 15, 20, 30, 45, 60], p=[.1, .1, .1, .15, .2, .1, .1, .05, .05, .025, .025]))
    z = gen.zdi(rng, lmax=lmax, negative=bool(rng.random() < .4))
    theta, phi = arranged(rng, *gen.points(rng, int(rng.integers(2, 40))))
    mg = z.make("coefficients" if rng.random() < .5 else "arrays")
    compare(ctx, mg, z, theta, phi)
    # Linearity: the field of a combination is the combination of the fields.
    w = gen.zdi(rng, lmax=lmax, negative=bool(rng.random() < .4))
    w.l, w.m = z.l, z.m
    w.a, w.b, w.g = (gen.values(rng, len(z.l), 1.0) * np.max(np.abs(z.a) + np.abs(z.b)) for _ in range(3))
    s, t = rng.normal(size=2)
    comb = gen.Zdi(z.l, z.m, s * z.a + t * w.a, s * z.b + t * w.b, s * z.g + t * w.g).make()
    mw = w.make()
    wz, ww = ref.zdi_field(*z.args, theta, phi).scale, ref.zdi_field(*w.args, theta, phi).scale
    for k, g in GETTERS.items():
        ctx.close("linearity of " + g, getattr(comb, g)(theta, phi), s * getattr(mg, g)(theta, phi) + t * getattr(mw, g)(theta, phi),
                  rtol=1e-10, scale=abs(s) * wz[k] + abs(t) * ww[k])
    # Listing order does not matter.
    i = rng.permutation(len(z.l))
    sh = gen.Zdi(*(x[i] for x in z.args)).make()
    for k, g in GETTERS.items():
        ctx.close("listing order, " + g, getattr(sh, g)(theta, phi), getattr(mg, g)(theta, phi), rtol=1e-10, scale=wz[k])
    ctx.describe(repr(z))


def singles(ctx):
    """Each (degree, order) alone, of each kind, and a magnetogram with only this degree."""
    rng = ctx.rng
    l = ctx.index
    theta, phi = gen.points(rng, 6)
    for m in range(-l, l + 1):
        c = np.exp(2j * np.pi * rng.random(3)) * rng.uniform(0.5, 2, 3)
        ctx.ev("single_coefficients")
        z = gen.Zdi([l], [m], c[:1], c[1:2], c[2:])
        compare(ctx, z.make(), z, theta, phi, "(%d, %d) alone, " % (l, m))
    ctx.describe("degree", l)


def missing_kinds(ctx):
    """Magnetograms given with only the first or the first two kinds of coefficients."""
    rng = ctx.rng
    z = gen.zdi(rng, lmax=int(rng.integers(1, 9)), negative=bool(rng.random() < .3))
    n = int(rng.integers(1, 3))
    if rng.random() < 0.5:
        mg = zdi_magnetogram.ZdiMagnetogram(*z.args[:2 + n])
    else:
        c = shc.Coefficients(np.zeros(n, complex))
        for i in range(len(z.l)):
            c.append(int(z.l[i]), int(z.m[i]), np.array([x[i] for x in z.args[2:2 + n]]))
        mg = zdi_magnetogram.from_coefficients(c)
    w = gen.Zdi(z.l, z.m, *[z.args[2 + i] if i < n else 0 * z.a for i in range(3)])
    theta, phi = gen.points(rng, 12)
    compare(ctx, mg, w, theta, phi)
    ctx.describe(n, repr(z))


def weak(ctx):
    """Close to the axis, where strong coefficients of high order have no field left and weak ones of low order are what remains."""
    rng = ctx.rng
    hi = [(int(l), int(m)) for l, m in ((l, m) for l in range(6, 13) for m in range(6, l + 1)) if rng.random() < .3] or [(6, 6)]
    lo = [(int(l), int(m)) for l, m in ((l, m) for l in range(0, 9) for m in range(0, min(l, 1) + 1)) if rng.random() < .4] or [(1, 0)]
    pairs = hi + lo
    pairs = [pairs[i] for i in rng.permutation(len(pairs))]
    l, m = np.array(pairs).T
    if rng.random() < .3:
        m = np.where(rng.random(len(m)) < .5, -m, m)
    v = [gen.values(rng, len(l), 1.) * np.where(np.abs(m) > 1, 1, 10.0 ** rng.uniform(-13, -7)) for _ in range(3)]
    z = gen.Zdi(l, m, *v)
    n = int(rng.integers(1, 12))
    theta, phi = gen.points(rng, n)
    theta = rng.uniform(.005, .02, n)
    theta = np.where(rng.random(n) < .5, np.pi - theta, theta)
    mg = z.make("coefficients" if rng.random() < .5 else "arrays")
    want = ref.zdi_field(*z.args, theta, phi)
    for k, g in GETTERS.items():
        if k == "r_tor":
            continue
        sc = 0
        for i in range(len(l)):      # what each coefficient adds at most, here
            one = [x[i:i + 1] for x in z.args]
            t = ref.legendre(int(one[0][0]), theta)
            P, Q, D = ref.pqd(t, int(one[0][0]), int(one[1][0]))
            a, b, c = (abs(x[0]) for x in one[2:])
            f = 1 / (one[0][0] + 1)
            sc = sc + dict(r_pol=a * np.abs(P), t_pol=b * f * np.abs(D), p_pol=b * f * np.abs(m[i] * Q), t_tor=c * f * np.abs(m[i] * Q), p_tor=c * f * np.abs(D))[k]
        ctx.close("weak coefficients near the axis: " + g, getattr(mg, g)(theta, phi), want[k], rtol=RT, scale=np.max(sc))
        ctx.ev("near_axis", n)
    ctx.describe("weak", repr(z))


CASES = {"weak": (weak, 200, 3000), "random_sets": (random_sets, 300, 5000), "singles": (singles, 26, 60), "missing_kinds": (missing_kinds, 60, 1000)}
CHUNK = 4
