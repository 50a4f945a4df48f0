"""C16: field evaluation is pointwise, whatever the shape of the point arrays."""
import numpy as np
from starwinds_magnetogram import pfss_magnetogram
import gen
import ref
from c14 import GETTERS

PROPERTY = "C16"
QUICK_SCALE = 4
RULE = ("random magnetograms evaluated at the same points one by one, permuted, in arrays of 0-4 dimensions, four memory layouts, several "
        "number types and azimuths shifted by turns; a case is the magnetogram with the array shape and layout")
REQUIRE = dict(evaluations=1000, single_points=2000)

ZDI = list(GETTERS.values()) + ["get_radial_field", "get_polar_field", "get_azimuthal_field", "get_field_strength",
                                "get_cartesian_field", "get_cartesian_poloidal_field", "get_cartesian_toroidal_field"]
LAYOUTS = ["C", "F", "strided", "reversed", "readonly"]


def shapes(rng, n):
    out = [(n,), (1, n), (n, 1)]
    for k in (2, 3, 4):
        if n % k == 0:
            out += [(k, n // k), (n // k, 1, k)]
    if n % 8 == 0:
        out += [(2, 2, 2, n // 8), (2, n // 8, 4)]
    return out[int(rng.integers(len(out)))]


def variants(ctx, rng, fn, coords, tail, scale, angle):
    """fn(*coords) -> array of shape coords.shape + tail. coords: 1d arrays; angle: index of the azimuth, or None."""
    n = len(coords[0])
    base = fn(*coords)
    ctx.check(np.shape(base) == (n,) + tail, "shape of the result", got=np.shape(base), want=(n,) + tail)
    ctx.ev("evaluations")

    def same(name, got, want, rtol=1e-11):
        ctx.ev("evaluations")
        ctx.close(name, got, want, rtol=rtol, scale=scale)

    for i in range(n):
        ctx.ev("single_points")
        same("one point alone", fn(*(c[i:i + 1] for c in coords)), base[i:i + 1])
    shape = shapes(rng, n)
    lay = LAYOUTS[int(rng.integers(len(LAYOUTS)))]
    other = LAYOUTS[int(rng.integers(len(LAYOUTS)))]
    same("shape %s layout %s/%s" % (shape, lay, other),
         fn(*(gen.layout(rng, c.reshape(shape), lay if j else other) for j, c in enumerate(coords))), base.reshape(shape + tail))
    p = rng.permutation(n)
    same("permuted points", fn(*(c[p] for c in coords)), base[p])
    rep = np.repeat(np.arange(n), 2)
    same("repeated points", fn(*(c[rep] for c in coords)), base[rep])
    h = n // 2
    if h:
        same("first half", fn(*(c[:h] for c in coords)), base[:h])
    if angle is not None:
        turned = list(coords)
        turned[angle] = coords[angle] + 2 * np.pi * rng.integers(-3, 4, n)
        same("turned by full turns", fn(*turned), base, rtol=1e-10)
    low = [c.astype(np.float32) for c in coords]
    got = fn(*low)
    ctx.close("single-precision points", got, fn(*(c.astype(float) for c in low)), rtol=5e-3, scale=scale)
    return base, shape, (lay, other)


def zdi(ctx):
    rng = ctx.rng
    lmax = gen.top(rng, rng.choice([1, 2, 4, 8]))
    z = gen.zdi(rng, lmax=lmax, negative=bool(rng.random() < .3), zeros=False)
    mg = z.make()
    n = int(rng.choice([2, 4, 8, 12]))
    theta, phi = gen.points(rng, n, margin=0.1)
    sc = ref.zdi_field(*z.args, theta, phi).scale["strength"]
    for g in [ZDI[i] for i in rng.permutation(len(ZDI))[:5]]:
        tail = (3,) if "cartesian" in g else ()
        _, shape, lay = variants(ctx, rng, getattr(mg, g), [theta, phi], tail, sc, 1)
        # Zero-dimensional arrays and whole numbers.
        if not tail:
            ctx.close(g + " at a point without dimension", getattr(mg, g)(np.array(theta[0]), np.array(phi[0])),
                      getattr(mg, g)(theta[:1], phi[:1])[0], rtol=1e-11, scale=sc)
        it, ip = rng.integers(1, 4, 5), rng.integers(-7, 8, 5)
        ctx.close(g + " at whole numbers", getattr(mg, g)(it, ip), getattr(mg, g)(it.astype(float), ip.astype(float)), rtol=1e-11,
                  scale=ref.zdi_field(*z.args, it * 1.0, ip * 1.0).scale["strength"])
    ctx.describe("zdi", repr(z), shape, lay)


def pfss(ctx):
    rng = ctx.rng
    c = gen.coeffs(rng, 1, lmax=gen.top(rng, rng.choice([0, 1, 2, 4, 8])))
    M = {k: v[0] for k, v in gen.model(c).items()}
    n = int(rng.choice([2, 4, 8, 12]))
    theta, phi = gen.points(rng, n, margin=0.1)
    r = rng.choice([0.5, 1.0, 1.3, 2.0, 2.4, 3.0, 7.0], n) * rng.choice([1.0, 1.0, 1.01], n)
    kw = {} if rng.random() < .5 else dict(radius_star=0.9, radius_source_surface=2.2)
    sc = np.max(ref.pfss_field(M, np.clip(r, kw.get("radius_star", 1.0), None), theta, phi, kw.get("radius_star", 1.0), kw.get("radius_source_surface", 2.5))[3])
    for i in range(3):
        def one(a, b, d, i=i):
            return pfss_magnetogram.evaluate_spherical(c, a, b, d, **kw)[i]
        if i == ctx.index % 3:
            # No single precision radius may fall on the other side of a boundary.
            r32 = r.astype(np.float32).astype(float)
            _, shape, lay = variants(ctx, rng, one, [r32, theta, phi], (), sc, 2)
            ctx.close("one radius for all points", one(1.5, theta, phi), one(np.full(n, 1.5), theta, phi), rtol=1e-11, scale=sc)
            ctx.close("one radius for a grid", one(np.array([1.5]), theta[:, None] + np.zeros((1, 2)), phi[:, None] + np.zeros((1, 2))),
                      one(np.full((n, 2), 1.5), np.repeat(theta[:, None], 2, 1), np.repeat(phi[:, None], 2, 1)), rtol=1e-11, scale=sc)
            it, ip, ir = rng.integers(1, 4, 5), rng.integers(-7, 8, 5), rng.integers(1, 5, 5)
            s2 = np.max(ref.pfss_field(M, ir, it, ip, kw.get("radius_star", 1.0), kw.get("radius_source_surface", 2.5))[3])
            ctx.close("whole numbers", one(ir, it, ip), one(ir * 1.0, it * 1.0, ip * 1.0), rtol=1e-11, scale=s2)
    j = int(rng.integers(6))
    x, y, zz = r * np.sin(theta) * np.cos(phi), r * np.sin(theta) * np.sin(phi), r * np.cos(theta)
    keep = (np.abs(r - kw.get("radius_star", 1.0)) > 1e-3) & (np.abs(r - kw.get("radius_source_surface", 2.5)) > 1e-3)
    if np.sum(keep) >= 2:
        x, y, zz = (a[keep] for a in (x, y, zz))
        variants(ctx, rng, lambda a, b, d: pfss_magnetogram.evaluate_cartesian(c, a, b, d, **kw)[j], [x, y, zz], (), sc, None)
    ctx.describe("pfss", sorted(M)[:8], shape, lay, j)


def many(ctx):
    """Large arrays and special points (poles, near the axis, equator, boundaries) in one call against the same points a few at a time."""
    rng = ctx.rng
    lmax = int(rng.choice([1, 2, 3, 5, 8]))
    n = int(rng.choice([7, 33, 130, 1030, 4100, 70001], p=[.2, .2, .2, .2, .17, .03])) if lmax < 6 else int(rng.choice([7, 130, 1030]))
    theta, phi = gen.points(rng, n, margin=0.0)
    some = rng.random(n)
    theta = np.where(some < .08, rng.choice([0.0, np.pi, 1e-9, 1e-5, np.pi - 1e-6, np.pi / 2, 0.5], n), theta)
    phi = np.where(rng.random(n) < .1, rng.choice([0.0, np.pi, -np.pi, 2 * np.pi, np.pi / 2], n), phi)
    if rng.random() < .1:
        theta = np.full(n, theta[0])
    if rng.random() < .1:
        phi = np.full(n, phi[0])
    star, surface = [(1.0, 2.5), (0.7, 2.0), (2.0, 2.9)][int(rng.integers(3))]
    r = star + (surface - star) * rng.uniform(0, 1, n)
    where = rng.random(n)
    mixture = rng.random() < .7
    if mixture:     # otherwise all are between the surfaces, or all in one region
        r = np.where(where < .2, star * rng.uniform(0, .99, n), np.where(where < .4, surface * rng.uniform(1.01, 5, n), np.where(where < .5, star, np.where(where < .6, surface, r))))
    elif rng.random() < .5:
        r = (star * .5 if rng.random() < .5 else surface * 1.5) * rng.uniform(.9, 1.1, n)
    if rng.random() < .5:
        z = gen.zdi(rng, lmax=lmax, negative=bool(rng.random() < .3), zeros=False)
        mg = z.make()
        g = ZDI[int(rng.integers(len(ZDI)))]
        fn, coords, tail, name = getattr(mg, g), [theta, phi], (3,) if "cartesian" in g else (), g
        what = repr(z)
    else:
        c = gen.coeffs(rng, 1, lmax=lmax)
        kw = dict(radius_star=star, radius_source_surface=surface)
        i = int(rng.integers(3))
        if rng.random() < .5:
            fn, coords, tail, name = (lambda a, b, d: pfss_magnetogram.evaluate_spherical(c, a, b, d, **kw)[i]), [r, theta, phi], (), "evaluate_spherical"
        else:
            i = int(rng.integers(6))
            xyz = [r * np.sin(theta) * np.cos(phi), r * np.sin(theta) * np.sin(phi), r * np.cos(theta)]
            fn, coords, tail, name = (lambda a, b, d: pfss_magnetogram.evaluate_cartesian(c, a, b, d, **kw)[i]), xyz, (), "evaluate_cartesian"
        what = (sorted(gen.model(c))[:8], i, kw)
    shape = (n,) if rng.random() < .5 else (1, n) if rng.random() < .3 else (n, 1)
    base = np.asarray(fn(*(x.reshape(shape) for x in coords)))
    ctx.equal(base.shape, shape + tail, name + ": shape of the result")
    base = base.reshape((n,) + tail)
    ctx.check(np.all(np.isfinite(base)), name + ": not finite", what=what)
    sc = np.max(np.abs(base)) + 1e-300
    for _ in range(6):
        k = int(rng.integers(1, 6))
        at = np.sort(rng.choice(n, min(k, n), replace=False)) if rng.random() < .8 else np.arange(max(0, n - k), n)
        ctx.ev("single_points", len(at))
        ctx.close(name + ": some of the points", fn(*(x[at] for x in coords)), base[at], rtol=1e-11, scale=sc, at=at, points=[x[at] for x in coords])
    for at in ([0], [n - 1], [int(np.argmin(coords[0]))], [int(np.argmax(coords[0]))], [int(np.argmax(r))], [int(np.argmin(r))]):
        ctx.ev("single_points")
        ctx.close(name + ": one point", fn(*(x[at] for x in coords)), base[at], rtol=1e-11, scale=sc, points=[x[at] for x in coords])
    ctx.ev("points_in_one_call", n)
    ctx.describe("many", what, name, n, mixture)


CASES = {"zdi": (zdi, 150, 2500), "pfss": (pfss, 150, 2500), "many": (many, 100, 1500)}
