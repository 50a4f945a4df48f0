"""C31: image analysis and synthesis by spherical harmonics invert each other."""
import numpy as np
import starwinds_magnetogram.coefficients as shc
from starwinds_magnetogram import image_converter
from starwinds_magnetogram.geometry import ZdiGeometry
import gen
import ref
from vh import fingerprint

PROPERTY = "C31"
QUICK_SCALE = 5
RULE = ("random coefficient sets (real and complex images) and images (band-limited and noise) on full grids with and without giving the grid; synthesis and "
        "analysis against independent sums, and their convergence; a case is the set or image with the grid")
REQUIRE = dict(images=300, analyses=100, uneven_grids=40, convergence=60)


def harmonics(lmax, theta, phi):
    t = ref.legendre(lmax, theta)
    return {(l, m): ref.pqd(t, l, m)[0] * np.exp(1j * m * phi) for l in range(lmax + 1) for m in range(-l, l + 1)}


def grid(rng, lo=4, hi=40):
    n, m = int(rng.integers(lo, hi)), int(rng.integers(lo, 2 * hi))
    zg = ZdiGeometry(n + 1, m + 1)
    p = (np.arange(n) + .5) * np.pi / n
    a = (np.arange(m) + .5) * 2 * np.pi / m
    return zg, np.broadcast_to(p, (m, n)), np.broadcast_to(a[:, None], (m, n)), n, m


def uneven_corners(rng, n, top, whole):
    """Increasing corners of n facets of different sizes: all of the range, or a part."""
    if rng.random() < .3 and n > 2:     # only one facet differs
        d = np.ones(n)
        d[int(rng.integers(n))] *= rng.uniform(1.5, 3)
    else:
        d = rng.uniform(.3, 3, n)
    c = np.concatenate([[0], np.cumsum(d)]) / np.sum(d)
    if whole:
        c[-1] = 1
        return c * top
    lo, hi = np.sort(rng.random(2))
    return (lo + c * (hi - lo)) * top


def synthesis(ctx):
    rng = ctx.rng
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 8, 14]), (20, 30))
    c = gen.coeffs(rng, 1, lmax=lmax, negative=bool(rng.random() < .7))
    M = {k: v[0] for k, v in gen.model(c).items()}
    many = rng.random() < .02     # more pairs than the analysis ever gives
    if many:
        lmax = int(rng.integers(31, 36))
        ks = [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]
        c = gen.build(ks, rng.normal(size=(len(ks), 1)) + 1j * rng.normal(size=(len(ks), 1)))
        M = {k: v[0] for k, v in gen.model(c).items()}
    zg, p, a, n, m = grid(rng, *((3, 8) if many else ()))
    if rng.random() < .3:     # any grid of angles will do for synthesis
        pc, ac = np.sort(rng.uniform(0, np.pi, n + 1)), np.sort(rng.uniform(0, 6, m + 1)) - rng.uniform(0, 6)
        zg = ZdiGeometry(pc, ac)
        p, a = np.broadcast_to((pc[1:] + pc[:-1]) / 2, (m, n)), np.broadcast_to(((ac[1:] + ac[:-1]) / 2)[:, None], (m, n))
    before = fingerprint([c, zg])
    img = image_converter.to_image(c, zg)
    ctx.check(fingerprint([c, zg]) == before, "synthesis changed its arguments")
    ctx.ev("images")
    Y = harmonics(lmax, p, a)
    want = sum(v * Y[k] for k, v in M.items())
    scale = sum(abs(v) * np.sqrt((2 * k[0] + 1) / (4 * np.pi)) for k, v in M.items())
    ctx.close("synthesised image", img, want + 0j, rtol=1e-9, scale=scale)
    # Linear, and independent of what was synthesised before.
    d = gen.coeffs(rng, 1, lmax=lmax, negative=True)
    N = {k: v[0] for k, v in gen.model(d).items()}
    s = complex(rng.normal(), rng.normal())
    keys = sorted(set(M) | set(N))
    both = gen.build(keys, [np.array([M.get(k, 0) + s * N.get(k, 0)]) for k in keys])
    got = image_converter.to_image(both, zg)
    w2 = want + s * sum(v * Y[k] for k, v in N.items())
    s2 = scale + abs(s) * sum(abs(v) * np.sqrt((2 * k[0] + 1) / (4 * np.pi)) for k, v in N.items())
    ctx.close("image of a combination", got, w2 + 0j, rtol=1e-9, scale=s2)
    ctx.close("synthesised again", image_converter.to_image(c, zg), img, rtol=1e-12, scale=scale)
    ctx.describe("synthesis", sorted(M)[:8], len(M), n, m)


def get(c, l, m):
    return complex(np.asarray(c.get(l, m)).reshape(-1)[0])


def analysis(ctx):
    rng = ctx.rng
    lmax = int(rng.choice([1, 2, 3, 5, 8, 12, 15]))
    # Any degrees for any image, also more than it has facets.
    zg, p, a, n, m = grid(rng) if rng.random() < .7 else grid(rng, 2, 6)
    dp, da = np.full(n, np.pi / n), np.full((m, 1), 2 * np.pi / m)
    uneven = bool(rng.random() < .5)
    if uneven:      # The facets may have different sizes, and need not cover the sphere.
        pc, ac = uneven_corners(rng, n, np.pi, bool(rng.random() < .6)), uneven_corners(rng, m, 2 * np.pi, bool(rng.random() < .6))
        zg = ZdiGeometry(pc, ac)
        p, a = np.broadcast_to((pc[1:] + pc[:-1]) / 2, (m, n)), np.broadcast_to(((ac[1:] + ac[:-1]) / 2)[:, None], (m, n))
        dp, da = np.diff(pc), np.diff(ac)[:, None]
        ctx.ev("uneven_grids")
    real = bool(rng.random() < .5)
    img = rng.normal(size=(m, n)) * 10.0 ** rng.choice([0, 0, 5, -5])
    if not real:
        img = img + 1j * rng.normal(size=(m, n)) * np.max(np.abs(img))
    given = zg if uneven else [zg, None][int(rng.integers(2))]
    before = fingerprint([img, zg])
    c, z2 = image_converter.from_image(img, given, lmax) if rng.random() < .5 else image_converter.from_image(img, zg=given, lmax=lmax)
    ctx.check(fingerprint([img, zg]) == before, "analysis changed its arguments")
    ctx.ev("analyses")
    ctx.close("grid returned", np.stack(z2.centers()), np.stack([p, a]), rtol=1e-12, scale=7.0)
    keys = sorted((int(l), int(k)) for (l, k), _ in c.contents())
    ctx.equal(keys, [(l, k) for l in range(lmax) for k in range(-l, l + 1)], "degrees and orders of the result")
    Y = harmonics(lmax, p, a)
    w = np.sin(p) * dp * da
    scale = float(np.sum(np.abs(img) * w)) * np.sqrt(2 * lmax + 1)
    for k in keys:
        ctx.close("surface integral", get(c, *k), np.sum(np.conj(Y[k]) * img * w), rtol=1e-9, scale=scale, pair=k)
        if real:
            ctx.close("conjugate symmetry", get(c, k[0], -k[1]), (-1) ** k[1] * np.conj(get(c, *k)), rtol=1e-9, scale=scale, pair=k)
    # Linear
    b = rng.normal(size=(m, n)) * np.max(np.abs(img))
    s = float(rng.normal())
    cb = image_converter.from_image(b, zg, lmax)[0]
    cc = image_converter.from_image(img + s * b, zg, lmax)[0]
    for k in keys:
        ctx.close("linearity", get(cc, *k), get(c, *k) + s * get(cb, *k), rtol=1e-9,
                  scale=scale + abs(s) * float(np.sum(np.abs(b) * w)) * np.sqrt(2 * lmax + 1), pair=k)
    ctx.describe("analysis", lmax, n, m, real, given is None)


def inverse(ctx):
    rng = ctx.rng
    lmax = int(rng.choice([0, 1, 2, 3, 5]))
    c = gen.coeffs(rng, 1, lmax=lmax, negative=True, magnitude=float(10.0 ** rng.choice([0, 3, -5])))
    M = {k: v[0] for k, v in gen.model(c).items()}
    total = sum(abs(v) for v in M.values())
    n, m = int(rng.integers(25, 40)), int(rng.integers(30, 60))
    res = []
    for f in (1, 2):
        zg = ZdiGeometry(f * n + 1, m + 1)
        img = image_converter.to_image(c, zg)
        back, _ = image_converter.from_image(img, [zg, None][int(rng.integers(2))], lmax=lmax + 1)
        res.append(back)
        again = image_converter.to_image(back, zg)
        ctx.close("image after analysis and synthesis", again, img, rtol=(np.pi / (f * n)) ** 2 * (lmax + 1) ** 2, scale=total * (lmax + 1))
        ctx.ev("images", 2)
    err = [0, 0]
    h = np.pi / n
    for l in range(lmax + 1):
        for k in range(-l, l + 1):
            w = complex(M.get((l, k), 0))
            b = total * (2 * lmax + 1)
            g = [get(r, l, k) for r in res]
            err = [max(e, abs(x - w)) for e, x in zip(err, g)]
            for i in (0, 1):
                ctx.close("recovered coefficient", g[i], w, rtol=1.0, scale=b * (h / (i + 1)) ** 2 / 4 + 1e-12 * b, pair=(l, k))
            ctx.close("recovered coefficient extrapolated to zero spacing", (4 * g[1] - g[0]) / 3, w, rtol=1.0,
                      scale=b * ((2 * lmax + 1) * h) ** 4 / 250 + 1e-12 * b, pair=(l, k))
    if err[0] > 1e-5 * total:
        ctx.ev("convergence")
        ctx.check(err[1] < .3 * err[0], "no second-order convergence", errors=err)
    ctx.describe("inverse", sorted(M)[:8], len(M), n, m)


CASES = {"synthesis": (synthesis, 200, 3000), "analysis": (analysis, 150, 2500), "inverse": (inverse, 90, 1000)}
CHUNK = 3
