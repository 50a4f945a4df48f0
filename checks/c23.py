"""C23: rotations compose, invert and conserve energy degree by degree."""
import numpy as np
import quaternion
from starwinds_magnetogram import rotate
import gen
from c22 import angles, rotate_by, sets

PROPERTY = "C23"
QUICK_SCALE = 8
RULE = ("random coefficient sets with one to four values and pairs of rotations; identity, composition, inverse, per-degree energy, linearity, "
        "phases of rotations about the polar axis; a case is the set with the rotations")
REQUIRE = dict(rotations=1000, degrees_checked=500)


def full(c, ncol):
    return gen.model(c)


def get(M, k, ncol):
    return M.get(k, np.zeros(ncol, complex))


def near(ctx, name, A, B, ncol, rtol=1e-10, mag=None, **info):
    """Equal as maps, missing entries counting as zero. Tolerance relative to the size of the degree and value."""
    for k in sorted(set(A) | set(B)):
        ctx.close(name, get(A, k, ncol), get(B, k, ncol) + 0j, rtol=rtol, scale=mag[k[0]], pair=k, **info)


def sizes(M, ncol):
    out = {}
    for l in range(64):
        out[l] = np.zeros(ncol)
    for (l, m), v in M.items():
        out[l] = np.hypot(out[l], np.abs(v))
    return out


def group(ctx):
    rng = ctx.rng
    ncol = int(rng.choice([1, 1, 2, 3, 4]))
    c = sets(rng, ncol)
    M = gen.model(c)
    mag = sizes(M, ncol)
    e1, e2 = angles(rng), angles(rng)
    q1, q2 = (quaternion.from_euler_angles(np.deg2rad(e)) for e in (e1, e2))
    r1, _ = rotate_by(ctx, c, e1)
    N = gen.model(r1)
    # A rotation never mixes degrees or values and preserves their energies.
    L = max(l for l, _ in M)
    for l in sorted({k[0] for k in M} | {k[0] for k in N}):
        ctx.ev("degrees_checked")
        a = sum((np.abs(v) ** 2 for k, v in M.items() if k[0] == l), np.zeros(ncol))
        b = sum((np.abs(v) ** 2 for k, v in N.items() if k[0] == l), np.zeros(ncol))
        ctx.close("squared magnitude in degree", b, a, rtol=1e-9, scale=a, degree=l)
    ctx.check(all(l <= L and abs(m) <= l for l, m in N), "coefficients that cannot be there", got=sorted(N))
    # Identity
    one = [quaternion.quaternion(1, 0, 0, 0), quaternion.quaternion(-1, 0, 0, 0)][int(rng.integers(2))]
    ident = rotate.rotate_magnetogram_euler_zyz_deg(c, [0, 0, 0]) if rng.random() < .4 else rotate.rotate_magnetogram(c, one)
    near(ctx, "identity", gen.model(ident), M, ncol, mag=mag)
    # There and back, and composition
    back = gen.model(rotate.rotate_magnetogram(r1, np.conjugate(q1)))
    near(ctx, "rotation and back", back, M, ncol, mag=mag, angles=e1)
    r12 = gen.model(rotate.rotate_magnetogram(r1, q2))
    near(ctx, "composition", r12, gen.model(rotate.rotate_magnetogram(c, q1 * q2)), ncol, rtol=1e-9, mag=mag, angles=(e1, e2))
    near(ctx, "angles and quaternion", gen.model(rotate.rotate_magnetogram_euler_zyz_deg(c, e1)), gen.model(rotate.rotate_magnetogram(c, q1)), ncol, mag=mag)
    ctx.ev("rotations", 6)
    ctx.describe(ncol, sorted(M)[:10], len(M), e1, e2)


def linear(ctx):
    rng = ctx.rng
    ncol = int(rng.integers(1, 4))
    lmax = int(rng.integers(1, 7))
    c, d = (gen.coeffs(rng, ncol, lmax=lmax, negative=bool(rng.random() < .4)) for _ in range(2))
    C, D = gen.model(c), gen.model(d)
    s, t = rng.normal(size=2) + 1j * rng.normal(size=2)
    keys = sorted(set(C) | set(D))
    comb = gen.build(keys, [s * get(C, k, ncol) + t * get(D, k, ncol) for k in keys])
    q = quaternion.from_euler_angles(np.deg2rad(angles(rng)))
    rc, rd, r = (gen.model(rotate.rotate_magnetogram(x, q)) for x in (c, d, comb))
    ctx.ev("rotations", 3)
    a, b = sizes(C, ncol), sizes(D, ncol)
    mag = {l: abs(s) * a[l] + abs(t) * b[l] for l in a}
    near(ctx, "linearity", r, {k: s * get(rc, k, ncol) + t * get(rd, k, ncol) for k in set(rc) | set(rd)}, ncol, mag=mag)
    # Each value separately.
    j = int(rng.integers(ncol))
    col = gen.model(rotate.rotate_magnetogram(gen.build(list(C), [v[j:j + 1] for v in C.values()]), q))
    near(ctx, "each value separately", {k: v[j:j + 1] for k, v in rc.items()}, col, 1, mag={l: v[j:j + 1] for l, v in a.items()})
    # Rotation about the polar axis only changes phases, by the order times the angle.
    g = float(rng.uniform(-400, 400))
    e = [g, 0.0, 0.0] if rng.random() < .5 else [0.0, 0.0, g]
    z = gen.model(rotate.rotate_magnetogram_euler_zyz_deg(c, e))
    near(ctx, "rotation about the polar axis", z, {k: v * np.exp(1j * k[1] * np.deg2rad(g)) for k, v in C.items()}, ncol, rtol=1e-9, mag=a)
    ctx.describe("linear", ncol, keys[:8], g)


CASES = {"group": (group, 200, 2500), "linear": (linear, 200, 2500)}
CHUNK = 3
