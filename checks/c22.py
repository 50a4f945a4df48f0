"""C22: rotating a magnetogram rotates its field rigidly."""
import numpy as np
import quaternion
from starwinds_magnetogram import converter, rotate, zdi_magnetogram
import gen
import ref
from vh import fingerprint

PROPERTY = "C22"
QUICK_SCALE = 6
RULE = ("random coefficient sets with one to three values and rotations by generic, axis-aligned, tiny, reversed and repeated-turn angles; the field of the "
        "rotated set at rotated points (by the code and independently) against the rotated field of the original; a case is the set with the rotation")
REQUIRE = dict(points=5000, rotations=250, vector_fields=80)


def angles(rng):
    """Euler angles in degrees."""
    k = int(rng.integers(8))
    a = rng.uniform(-360, 360, 3)
    if k == 0:
        a = rng.choice([0, 90, 180, 270, -90, 45, 360], 3).astype(float)
    elif k == 1:
        a[int(rng.integers(3))] = 0
    elif k == 2:
        a = np.array([0, float(rng.uniform(0, 180)), 0])
    elif k == 3:
        a[1] = rng.choice([0, 180, 1e-7, 180 - 1e-7, 10.0 ** -rng.uniform(0, 8), 180 - 10.0 ** -rng.uniform(0, 8)])
    elif k == 4:
        a = a * 10.0 ** -rng.uniform(1, 7)
    elif k == 5 and rng.random() < .5:     # almost no turn, or almost a full one, in the end
        a = np.array([a[0], 10.0 ** -rng.uniform(1, 6), rng.choice([0, 360, -360]) - a[0]])
    return a


def rotate_by(ctx, c, e):
    """The rotated set and the matrix that takes a point to where it is moved."""
    rng = ctx.rng
    ctx.ev("rotations")
    q = quaternion.from_euler_angles(np.deg2rad(e))
    before = fingerprint(c)
    if rng.random() < .5:
        r = rotate.rotate_magnetogram_euler_zyz_deg(c, [list(e), tuple(e), np.array(e)][int(rng.integers(3))])
    else:
        r = rotate.rotate_magnetogram(c, q)
    ctx.check(fingerprint(c) == before, "rotation changed its argument")
    return r, quaternion.as_rotation_matrix(q).T


def move(R, theta, phi):
    p = R @ np.stack([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)])
    return np.arctan2(np.hypot(p[0], p[1]), p[2]), np.arctan2(p[1], p[0])


def sample(ctx, R, n):
    """Points that are away from the axis before and after."""
    theta, phi = gen.points(ctx.rng, 4 * n, margin=.05)
    t2, p2 = move(R, theta, phi)
    i = np.flatnonzero((np.sin(t2) > .03))[:n]
    ctx.ev("points", len(i))
    return theta[i], phi[i], t2[i], p2[i]


def field(M, theta, phi):
    l, m = np.array(list(M)).T
    v = np.array(list(M.values()))
    v = np.concatenate([v, np.zeros((len(v), 3 - v.shape[1]))], axis=1)
    return ref.zdi_field(l, m, v[:, 0], v[:, 1], v[:, 2], theta, phi), ref.zdi_bound(l, m, *v.T)


def sets(rng, ncol, lmax=None):
    lmax = lmax or int(rng.choice([1, 2, 3, 4, 6, 8, 11], p=[.15, .2, .2, .2, .15, .07, .03]))
    return gen.coeffs(rng, ncol, lmax=lmax, negative=bool(rng.random() < .4))


def vector(ctx):
    rng = ctx.rng
    c = sets(rng, 3)
    e = angles(rng)
    r, R = rotate_by(ctx, c, e)
    M, N = gen.model(c), gen.model(r)
    ctx.check(set(M) <= set(N) or all(not np.any(M[k]) for k in set(M) - set(N)), "coefficients lost")
    theta, phi, t2, p2 = sample(ctx, R, 12)
    f, b = field(M, theta, phi)
    g, _ = field(N, t2, p2)
    ctx.ev("vector_fields")
    mg, mr = zdi_magnetogram.from_coefficients(c), zdi_magnetogram.from_coefficients(r)
    for part in ("_pol", "_tor"):
        comps = ["r" + part, "t" + part, "p" + part]
        x0 = ref.cartesian(*(f[k] for k in comps), theta, phi)
        x1 = ref.cartesian(*(g[k] for k in comps), t2, p2)
        ctx.close("rotated %soidal vector field" % part[1:], x1, x0 @ R.T, rtol=1e-9, scale=b)
        name = "get_cartesian_%soidal_field" % part[1:]
        ctx.close(name + " of the rotated magnetogram", getattr(mr, name)(t2, p2), getattr(mg, name)(theta, phi) @ R.T, rtol=1e-9, scale=b)
    ctx.close("rotated field", mr.get_cartesian_field(t2, p2), mg.get_cartesian_field(theta, phi) @ R.T, rtol=1e-9, scale=b)
    ctx.close("strength of the rotated field", mr.get_field_strength(t2, p2), f["strength"], rtol=1e-9, scale=b)
    ctx.close("radial field of the rotated magnetogram", mr.get_radial_field(t2, p2), f["r"], rtol=1e-9, scale=b)
    ctx.describe("vector", sorted(M)[:10], len(M), e)


def radial(ctx):
    rng = ctx.rng
    ncol = int(rng.choice([1, 1, 1, 2, 4]))
    c = sets(rng, ncol)
    e = angles(rng)
    r, R = rotate_by(ctx, c, e)
    M, N = gen.model(c), gen.model(r)
    theta, phi, t2, p2 = sample(ctx, R, 12)
    for j in range(ncol):
        f, b = field({k: v[j:j + 1] for k, v in M.items()}, theta, phi)
        g, _ = field({k: v[j:j + 1] for k, v in N.items()}, t2, p2)
        ctx.close("radial field of the rotated set", g["r"], f["r"], rtol=1e-9, scale=b, value=j)
    if ncol == 1:
        f, b = field(M, theta, phi)
        ctx.close("radial field by the code", zdi_magnetogram.from_coefficients(r).get_radial_field(t2, p2),
                  zdi_magnetogram.from_coefficients(c).get_radial_field(theta, phi), rtol=1e-9, scale=b)
        folded = converter.map_to_positive_orders(r)
        g, _ = field(gen.model(folded), t2, p2)
        ctx.close("radial field of the rotated and folded set", g["r"], f["r"], rtol=1e-9, scale=b)
    ctx.describe("radial", ncol, sorted(M)[:10], len(M), e)


def quadrant(ctx):
    """Every single (degree, order) and each axis turned onto another."""
    rng = ctx.rng
    l = ctx.index
    for m in range(-l, l + 1):
        c = gen.build([(l, m)], [np.exp(2j * np.pi * rng.random(3))])
        e = [[0, 90, 0], [90, 90, 0], [30, 180, 0], [0, 0, 90], [90, 0, 0], [0, -90, 0], [20, 40, 60]][int(rng.integers(7))]
        r, R = rotate_by(ctx, c, np.array(e, float))
        theta, phi, t2, p2 = sample(ctx, R, 6)
        f, b = field(gen.model(c), theta, phi)
        g, _ = field(gen.model(r), t2, p2)
        for part in ("_pol", "_tor"):
            comps = ["r" + part, "t" + part, "p" + part]
            ctx.close("rotated %soidal vector field" % part[1:], ref.cartesian(*(g[k] for k in comps), t2, p2),
                      ref.cartesian(*(f[k] for k in comps), theta, phi) @ R.T, rtol=1e-9, scale=b, pair=(l, m), angles=e)
    ctx.describe("single", l)


CASES = {"vector": (vector, 250, 3000), "radial": (radial, 250, 3000), "quadrant": (quadrant, 9, 16)}
CHUNK = 3
