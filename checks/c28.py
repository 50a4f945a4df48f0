"""C28: surface grids tile the sphere with exact areas, centres and normals."""
import numpy as np
from starwinds_magnetogram.geometry import ZdiGeometry
import ref
from vh import fingerprint

PROPERTY = "C28"
QUICK_SCALE = 8
RULE = ("grids given by numbers of corners, by default and by arbitrary increasing corner angles (uneven, partial, starting anywhere); a case is the grid")
REQUIRE = dict(long_grids=100, facets=20000, full_grids=200, uneven_grids=100)


def increasing(rng, n, a, b):
    """n increasing values from a to b, unevenly spaced."""
    w = np.cumsum(np.concatenate([[0], .05 + rng.random(n - 1)]))
    return a + (b - a) * w / w[-1]


def make(ctx, rng=None, long=False):
    """(geometry, polar corner angles, azimuth corner angles)"""
    rng = rng or ctx.rng
    k = int(rng.integers(10))
    n, m = int(rng.integers(2, 25)), int(rng.integers(2, 40))
    if long and rng.random() < .05:
        n, m = int(rng.integers(60, 400)), int(rng.integers(2, 12))
        if rng.random() < .3:
            n, m = m, n
        ctx.ev("long_grids")
    if k == 0:
        zg = ZdiGeometry()
        return zg, np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130), "default"
    if k <= 2:
        return ZdiGeometry(n, m), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, m), "numbers"
    if k <= 4:
        return ZdiGeometry(n), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, 2 * n), "number"
    if k <= 6:
        p, a = increasing(rng, n, 0, np.pi), increasing(rng, m, 0, 2 * np.pi)
        a[-1], p[-1] = 2 * np.pi, np.pi
        kind = "uneven"
    elif k == 7:
        p, a = np.linspace(0, np.pi, n), np.linspace(-np.pi, np.pi, m)
        kind = "shifted"
    else:
        p = increasing(rng, n, rng.uniform(0, 1.4), rng.uniform(1.6, np.pi))
        s = rng.uniform(-4, 4)
        a = increasing(rng, m, s, s + rng.uniform(.5, 6))
        kind = "partial"
    if rng.random() < .3:
        return ZdiGeometry(list(p), list(a)), p, a, kind
    return ZdiGeometry(p, a), p, a, kind


def grid(ctx):
    zg, p, a, kind = make(ctx, long=True)
    if kind == "uneven":
        ctx.ev("uneven_grids")
    n, m = len(p), len(a)
    ctx.ev("facets", (n - 1) * (m - 1))
    before = fingerprint(zg)
    shape = m - 1, n - 1
    ctx.equal(tuple(zg.shape), (m, n), "shape of the grid")
    P, A = zg.corners()
    ctx.close("polar corners", P, np.broadcast_to(p, (m, n)), rtol=1e-12, scale=np.pi)
    ctx.close("azimuth corners", A, np.broadcast_to(a[:, None], (m, n)), rtol=1e-12, scale=2 * np.pi)
    pc, ac = zg.centers()
    wp = np.broadcast_to((p[1:] + p[:-1]) / 2, shape)
    wa = np.broadcast_to(((a[1:] + a[:-1]) / 2)[:, None], shape)
    ctx.close("polar centres", pc, wp, rtol=1e-13, scale=np.pi)
    ctx.close("azimuth centres", ac, wa, rtol=1e-13, scale=2 * np.pi + abs(a[0]))
    areas = zg.areas()
    # cos p0 - cos p1 = 2 sin(mean) sin(half difference), without cancellation
    want = 2 * np.sin(wp) * np.sin(np.diff(p) / 2) * np.diff(a)[:, None]
    ctx.close("areas", areas, want, rtol=1e-12, scale=np.max(np.diff(a)))
    ctx.check(np.all(areas > 0), "areas that are not positive")
    # Integration of the sine over the facet, numerically.
    x, w = np.polynomial.legendre.leggauss(24)
    j = int(ctx.rng.integers(n - 1))
    num = np.sum(w * np.sin(p[j] + (x + 1) / 2 * (p[j + 1] - p[j]))) * (p[j + 1] - p[j]) / 2 * np.diff(a)
    ctx.close("areas by integration", areas[:, j], num, rtol=1e-11, scale=np.max(np.diff(a)))
    if kind != "partial":
        ctx.ev("full_grids")
        ctx.close("sum of the areas", np.sum(areas), 4 * np.pi, rtol=1e-11)
    else:
        ctx.close("sum of the areas", np.sum(areas), (np.cos(p[0]) - np.cos(p[-1])) * (a[-1] - a[0]), rtol=1e-11, scale=1.0)
    b = ref.basis(wp, wa)[..., 0, :]
    ctx.close("unit normals", zg.unit_normals(), b, rtol=1e-12, scale=1.0)
    ctx.close("length of the normals", np.linalg.norm(zg.unit_normals(), axis=-1), np.ones(shape), rtol=1e-12)
    cc = zg.centers_cartesian()
    ctx.equal(len(cc), 3, "number of coordinates")
    ctx.close("cartesian centres", np.stack(cc, -1), b, rtol=1e-12, scale=1.0)
    ctx.close("cartesian corners", np.stack(zg.corners_cartesian(), -1), ref.basis(np.broadcast_to(p, (m, n)), np.broadcast_to(a[:, None], (m, n)))[..., 0, :],
              rtol=1e-12, scale=1.0)
    ctx.check(fingerprint(zg) == before, "the grid changed")
    ctx.describe(kind, n, m, p[:3].tolist(), a[:3].tolist())


CASES = {"grid": (grid, 800, 15000)}
