"""C27: coordinate and vector transformations are exact inverses."""
import numpy as np
from starwinds_magnetogram import coordinate_transforms as ct
import gen
import ref
from vh import fingerprint

PROPERTY = "C27"
QUICK_SCALE = 8
RULE = ("random points of radii 1e-100 to 1e100, on axes, in coordinate planes, at the origin and with either sign of zero, in arrays of several shapes; "
        "a case is the array with its shape")
REQUIRE = dict(points=20000, special_points=1500, matrices=5000, integer_angles=50)


def near_vec(ctx, name, got, want, rtol=1e-12, **info):
    """Vectors along the last axis; the scale is the length of the vector."""
    ctx.close(name, got, want, rtol=rtol, scale=np.linalg.norm(want, axis=-1, keepdims=True) + np.zeros_like(want), **info)


def shapes(rng, n):
    return [(n,), (2, n // 2), (n // 2, 2), (n // 4, 2, 2), (n, 1)][int(rng.integers(5))]


def rectangular(ctx):
    rng = ctx.rng
    n = 48
    x = rng.normal(size=(3, n))
    k = rng.random(n)
    for i in range(n):
        if k[i] < .1:
            x[:, i] = rng.choice([0.0, -0.0], 3)
        elif k[i] < .3:
            a = int(rng.integers(3))
            v = x[a, i]
            x[:, i] = rng.choice([0.0, -0.0], 3)
            x[a, i] = v
        elif k[i] < .5:
            x[int(rng.integers(3)), i] = rng.choice([0.0, -0.0])
        elif k[i] < .55:
            x[:, i] = np.round(3 * x[:, i])
        elif k[i] < .6:      # close to the axis
            x[:2, i] *= 1e-7
        ctx.ev("special_points", k[i] < .6)
    x = x * 10.0 ** (rng.choice([0, 0, 0, 3, -3, 8, -11, 100, -100]) + (rng.uniform(-3, 3, n) if rng.random() < .5 else 0))
    shape = shapes(rng, n)
    args = [v.reshape(shape).copy() for v in x]
    before = fingerprint(args)
    r, t, p = ct.spherical_coordinates_from_rectangular(*args)
    ctx.check(fingerprint(args) == before, "transformation changed its arguments")
    for v in (r, t, p):
        ctx.check(np.shape(v) == shape, "shape", got=np.shape(v), want=shape)
    ctx.ev("points", n)
    ctx.check(np.all(r >= 0) and np.all((t >= 0) & (t <= np.pi)) and np.all(np.abs(p) <= np.pi), "outside the ranges", r=r, t=t, p=p)
    flat = [np.ravel(v) for v in (r, t, p)]
    ln = np.sqrt(np.sum((x / np.maximum(np.max(np.abs(x), 0), 1e-300)) ** 2, 0)) * np.max(np.abs(x), 0)
    ctx.close("radius", flat[0], ln, rtol=1e-12, scale=ln)
    zero = ln == 0
    if np.any(zero):
        ctx.check(not np.any(flat[0][zero]) and not np.any(flat[1][zero]), "the origin", r=flat[0][zero], t=flat[1][zero])
    # The polar angle from the height loses half the digits close to the axis.
    want_t = np.where(zero, 0, np.arctan2(np.hypot(x[0] / np.where(zero, 1, ln), x[1] / np.where(zero, 1, ln)), x[2] / np.where(zero, 1, ln)))
    s = np.sin(want_t)
    ctx.close("polar angle", flat[1], want_t, rtol=1.0, scale=np.minimum(1e-15 / np.maximum(s, 1e-20), 1e-7) + 1e-14)
    off = np.hypot(x[0], x[1]) > 0
    d = np.angle(np.exp(1j * (flat[2] - np.arctan2(x[1], x[0]))))
    ctx.close("azimuth", d[off], np.zeros(np.sum(off)), rtol=1e-13, scale=1.0)
    back = ct.rectangular_coordinates_from_spherical(r, t, p)
    for v in back:
        ctx.check(np.shape(v) == shape, "shape", got=np.shape(v), want=shape)
    near_vec(ctx, "rectangular to spherical and back", np.stack([np.ravel(v) for v in back], -1), x.T, rtol=1e-7)
    mid = s > 1e-3
    near_vec(ctx, "rectangular to spherical and back, off the axis", np.stack([np.ravel(v) for v in back], -1)[mid], x.T[mid], rtol=1e-11)
    # One point at a time.
    i = int(rng.integers(n))
    one = ct.spherical_coordinates_from_rectangular(*(v[i:i + 1] for v in x))
    for a, b in zip(one, flat):
        ctx.close("one point alone", a, b[i:i + 1], rtol=1e-13, scale=np.abs(b[i]) + 0.0, atol=1e-300)
    ctx.describe("rectangular", fingerprint(x), shape)


def spherical(ctx):
    rng = ctx.rng
    n = 48
    r = 10.0 ** rng.uniform(-4, 4, n)
    theta, phi = gen.points(rng, n, margin=1e-2)
    k = rng.random(n)
    r = np.where(k < .05, 0.0, r)
    theta = np.where((k > .05) & (k < .1), 0.0, np.where((k > .1) & (k < .15), np.pi, theta))
    ctx.ev("points", n)
    shape = shapes(rng, n)
    args = [v.reshape(shape).copy() for v in (r, theta, phi)]
    before = fingerprint(args)
    x = ct.rectangular_coordinates_from_spherical(*args)
    ctx.check(fingerprint(args) == before, "transformation changed its arguments")
    X = np.stack([np.ravel(v) for v in x], -1)
    want = r[:, None] * np.stack([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)], -1)
    near_vec(ctx, "rectangular coordinates", X, want)
    b = [np.ravel(v) for v in ct.spherical_coordinates_from_rectangular(*x)]
    ctx.close("radius", b[0], r, rtol=1e-12, scale=r)
    ok = (r > 0)
    ctx.close("polar angle", b[1][ok], theta[ok], rtol=1.0, scale=(np.minimum(1e-15 / np.maximum(np.sin(theta), 1e-20), 1e-7) + 1e-13)[ok])
    ok &= np.sin(theta) > 1e-10
    ctx.close("azimuth up to turns", np.angle(np.exp(1j * (b[2] - phi)))[ok], np.zeros(np.sum(ok)), rtol=1e-11, scale=1.0)
    if rng.random() < .3:      # numbers instead of arrays
        i = int(rng.integers(n))
        one = ct.rectangular_coordinates_from_spherical(float(r[i]), float(theta[i]), float(phi[i]))
        near_vec(ctx, "single numbers", np.array([float(v) for v in one]), want[i])
    ctx.describe("spherical", fingerprint(want), shape)


def matrices(ctx):
    rng = ctx.rng
    n = int(rng.choice([1, 2, 3, 16, 40]))
    theta, phi = gen.points(rng, n, margin=1e-3)
    k = rng.random(n)
    theta = np.where(k < .1, 0.0, np.where(k < .2, np.pi, theta))
    if rng.random() < .2:
        theta, phi = (v.astype(t) for v, t in zip((np.round(theta), np.round(phi)), rng.choice(["int64", "int32", "float64"], 2)))
        ctx.ev("integer_angles")
    elif rng.random() < .2:
        theta, phi = (gen.layout(rng, v, str(rng.choice(["strided", "reversed", "readonly"]))) for v in (theta, phi))
    S = ct.spherical_to_rectangular_transformation_matrix(theta, phi)
    R = ct.rectangular_to_spherical_transformation_matrix(theta, phi)
    ctx.ev("matrices", 2 * n)
    eye = np.broadcast_to(np.eye(3), (n, 3, 3))
    b = ref.basis(theta, phi)
    ctx.close("spherical to rectangular", S, np.swapaxes(b, -1, -2), rtol=1e-12, scale=1.0)
    ctx.close("rectangular to spherical", R, b, rtol=1e-12, scale=1.0)
    ctx.close("orthogonal", S @ np.swapaxes(S, -1, -2), eye, rtol=1e-12, scale=1.0)
    ctx.close("right-handed", np.linalg.det(S), np.ones(n), rtol=1e-12, scale=1.0)
    ctx.close("transposes of each other", R, np.swapaxes(S, -1, -2), rtol=1e-12, scale=1.0)
    ctx.close("inverse", S @ R, eye, rtol=1e-12, scale=1.0)
    # The directions in which the point moves, from the code's own coordinates.
    h = 1e-5
    x = [np.stack(ct.rectangular_coordinates_from_spherical(*(v + s * h * (i == j) for j, v in enumerate((np.ones(n), theta, phi)))), -1)
         for i in range(3) for s in (1, -1)]
    for i, name in enumerate(("radial", "polar", "azimuthal")):
        d = (x[2 * i] - x[2 * i + 1]) / (2 * h)
        if i == 2:
            ok = np.sin(theta) > 1e-2
            d = d[ok] / np.sin(theta[ok])[:, None]
        else:
            ok = np.ones(n, bool)
        ctx.close("direction of growing %s coordinate" % name, S[ok][:, :, i], d, rtol=1e-6, scale=1.0)
    if n == 1 and rng.random() < .5:
        ctx.close("single numbers", ct.spherical_to_rectangular_transformation_matrix(float(theta[0]), float(phi[0])), S, rtol=1e-12, scale=1.0)
    ctx.describe("matrices", fingerprint([theta, phi]))


CASES = {"rectangular": (rectangular, 500, 8000), "spherical": (spherical, 300, 5000), "matrices": (matrices, 400, 6000)}
