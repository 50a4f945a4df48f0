"""C30: coefficients recovered from a gridded surface field reproduce the field."""
import numpy as np
from starwinds_magnetogram import converter
from starwinds_magnetogram.geometry import ZdiGeometry
import gen
import ref
from c20 import listing
from vh import fingerprint

PROPERTY = "C30"
QUICK_SCALE = 2
RULE = ("random magnetograms evaluated independently on full grids of two resolutions; the recovered coefficients, their extrapolation to zero spacing and "
        "their order of convergence against the coefficients put in; a case is the magnetogram with the grids and the requested degree")
REQUIRE = dict(high_degrees=8, recoveries=200, coefficients=1200, convergence_orders=50)


def truth(z, D):
    """{(l, m): values that a field determines}, degrees up to D"""
    out = {(l, m): np.zeros(3, complex) for l in range(D + 1) for m in range(l + 1)}
    for l, m, a, b, g in zip(z.l.tolist(), z.m.tolist(), z.a, z.b, z.g):
        if l <= D:
            v = np.array([a, b if l else 0, g if l else 0])
            out[(l, m)] = np.real(v) + 0j if m == 0 else v
    return out


def recover(ctx, f, p, a, D, how):
    ctx.ev("recoveries")
    args = [p, a, f["r"], f["t"], f["p"]]
    before = fingerprint(args)
    if how == "coefficients":
        c = converter.convert_latlon_to_zdi_coeffs(*args, **({} if D == 5 and ctx.rng.random() < .5 else dict(max_degree=D)))   # 5 is the default
        out = {(int(l), int(m)): np.array(v) for (l, m), v in c.contents()}
    elif how == "magnetogram":
        out = {k: np.array(v) for k, v in listing(converter.convert_latlon_to_zdi(*args, **({} if D == 5 and ctx.rng.random() < .5 else dict(max_degree=D)))).items()}
    elif how == "area":
        area = (p[0, 1] - p[0, 0]) * (a[1, 0] - a[0, 0])
        c = converter.convert_latlon_to_zdi_coeffs(*args, area, D)
        out = {(int(l), int(m)): np.array(v) for (l, m), v in c.contents()}
    else:
        lm = list(converter.positive_lm(D))
        lm = [lm[i] for i in ctx.rng.permutation(len(lm))]
        c = converter.get_zdi_coeffs(p, a, [x[0] for x in lm], [x[1] for x in lm], f["r"], f["t"], f["p"])
        out = {(int(l), int(m)): np.array(v) for (l, m), v in c.contents()}
    ctx.check(fingerprint(args) == before, "recovery changed its arguments")
    ctx.equal(sorted(out), [(l, m) for l in range(D + 1) for m in range(l + 1)], "degrees and orders of the result", how=how)
    return out


HOW = ["coefficients", "magnetogram", "area", "list"]


def roundtrip(ctx):
    rng = ctx.rng
    L = int(rng.choice([1, 2, 3, 4, 5]))
    high = rng.random() < .12
    if high:
        L = int(rng.integers(9, 15))
    z = gen.zdi(rng, lmax=L, lmin=int(rng.random() < .6), magnitude=10.0 ** rng.choice([0, 0, 3, -6]))
    D = int(rng.choice([L, L, L + 1, max(1, L - 1), 5]))
    n, m = int(rng.integers(33, 40)), int(rng.integers(45, 80))
    if high:
        n += 40
        ctx.ev("high_degrees")
    how = HOW[int(rng.integers(4))]
    got = []
    for k in (1, 2):
        p, a = ZdiGeometry(k * n + 1, m + k).centers()
        p, a = np.array(p), np.array(a)
        got.append(recover(ctx, ref.zdi_field(*z.args, p, a), p, a, D, how))
    h = np.pi / n
    want = truth(z, D)
    # Error of the midpoint rule: h^2/24 times the difference of the slopes of the integrand at the poles.
    s = [np.sum(np.abs(x) * np.sqrt(2 * z.l + 1)) for x in (z.a, z.b, z.g)]
    s[1] = s[2] = s[1] + s[2]
    err = [0.0, 0.0]
    for key, w in want.items():
        l = key[0]
        ctx.ev("coefficients")
        bound = np.array([np.sqrt(2 * l + 1) * s[0], np.sqrt(2 * l + 1) * s[1], np.sqrt(2 * l + 1) * s[2]]) + 1e-300
        for i, g in enumerate(got):
            d = np.abs(g[key] - w)
            err[i] = max(err[i], np.max(d))
            ctx.close("recovered coefficient", g[key], w, rtol=1.0, scale=bound * (h / (i + 1)) ** 2 / 4 + 1e-12 * bound, pair=key, how=how)
        extra = (4 * got[1][key] - got[0][key]) / 3
        ctx.close("recovered coefficient extrapolated to zero spacing", extra, w, rtol=1.0, scale=bound * ((L + D + 1) * h) ** 4 / 250 + 1e-12 * bound,
                  pair=key, how=how)
    if err[0] > 1e-5 * sum(s):
        ctx.ev("convergence_orders")
        ctx.check(err[1] < .3 * err[0], "no second-order convergence", errors=err, how=how)
    ctx.describe(repr(z), D, n, m, how)


def structure(ctx):
    """Linearity, and each field component goes only to its own kind, for arbitrary (not band-limited) fields."""
    rng = ctx.rng
    D = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 10, 14]))
    p, a = (np.array(x) for x in ZdiGeometry(int(rng.integers(10, 30)), int(rng.integers(31, 50))).centers())
    f, g = ({k: rng.normal(size=p.shape) for k in "rtp"} for _ in range(2))
    s, t = rng.normal(size=2)
    how = HOW[int(rng.integers(4))]
    F, G = recover(ctx, f, p, a, D, how), recover(ctx, g, p, a, D, how)
    C = recover(ctx, {k: s * f[k] + t * g[k] for k in f}, p, a, D, HOW[int(rng.integers(4))])
    R = recover(ctx, dict(f, t=0 * f["t"], p=0 * f["p"]), p, a, D, how)
    T = recover(ctx, dict(f, r=0 * f["r"]), p, a, D, how)
    for k in F:
        ctx.close("linearity", C[k], s * F[k] + t * G[k], rtol=1e-10, scale=10.0 * (abs(s) + abs(t)), pair=k)
        ctx.close("only the radial field", R[k], [F[k][0], 0, 0], rtol=1e-10, scale=10.0, pair=k)
        ctx.close("only the tangential field", T[k], [0, F[k][1], F[k][2]], rtol=1e-10, scale=10.0, pair=k)
    # Turning the field in azimuth by whole cells changes phases only.
    n = p.shape[0]
    j = int(rng.integers(n))
    S = recover(ctx, {k: np.roll(v, j, axis=0) for k, v in f.items()}, p, a, D, how)
    d = 2 * np.pi * j / n
    for k in F:
        ctx.close("field turned in azimuth", S[k], F[k] * np.exp(-1j * k[1] * d), rtol=1e-9, scale=10.0, pair=k)
    # Poloidal and toroidal are exchanged when the tangential vectors are turned by a right angle (each is the curl of the other).
    Q = recover(ctx, dict(r=f["r"], t=-f["p"], p=f["t"]), p, a, D, how)
    for k in F:
        ctx.close("tangential vectors turned by a right angle", Q[k][1:], [-F[k][2] * 1.0, F[k][1] * 1.0], rtol=1e-9, scale=10.0, pair=k)
    ctx.describe("structure", D, p.shape, how, fingerprint(f["r"]))


CASES = {"roundtrip": (roundtrip, 110, 1500), "structure": (structure, 80, 1000)}
CHUNK = 3
