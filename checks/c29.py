"""C29: the longitudinal field is the visible-disc average of the line-of-sight field."""
import numpy as np
import gen
import ref
from starwinds_magnetogram import longitudinal_field
from starwinds_magnetogram.geometry import ZdiGeometry
from vh import fingerprint
from c28 import make

PROPERTY = "C29"
QUICK_SCALE = 2
RULE = ("random magnetograms, grids (even, uneven, partial), inclinations and azimuths in several forms, including poles and edge-on; independent average "
        "over the facets; a case is the magnetogram with the grid and the observer")
REQUIRE = dict(curve_points=1500, directions=800, plots=20)


def direction(rng):
    k = int(rng.integers(5))
    if k == 0:
        d = np.zeros(3)
        d[int(rng.integers(3))] = rng.choice([1, -1])
        return d
    d = rng.normal(size=3)
    if k == 1:
        d[int(rng.integers(3))] = 0
    if k == 2:
        d = np.round(3 * d) + np.array([0, 0, .5])
    return d * 10.0 ** rng.choice([0, 0, 3, -3, 8, -8])


def fractions(ctx):
    rng = ctx.rng
    zg, p, a, kind = make(ctx)
    shape = len(a) - 1, len(p) - 1
    nrm = ref.basis(np.broadcast_to((p[1:] + p[:-1]) / 2, shape), np.broadcast_to(((a[1:] + a[:-1]) / 2)[:, None], shape))[..., 0, :]
    before = fingerprint(zg)
    for _ in range(4):
        d = direction(rng)
        ctx.ev("directions")
        b = d.copy()
        got = zg.projected_visible_area_fraction(d)
        ctx.check(np.array_equal(b, d), "changed the direction")
        c = nrm @ (d / np.linalg.norm(d))
        ctx.close("visible fraction", got, np.where(c > 0, c, 0), rtol=1e-11, scale=1.0)
        ctx.check(np.all(np.asarray(got) >= 0) and np.all(np.asarray(got) <= 1 + 1e-12), "fraction outside 0 to 1")
        ctx.close("length of the direction", zg.projected_visible_area_fraction(d * float(rng.choice([2, .1, 1e4, 10.0 ** rng.uniform(-90, 90)]))), got, rtol=1e-11, scale=1.0)
        i = zg.projected_visible_area_fraction(np.array([int(v) for v in np.round(np.clip(5 * d / np.linalg.norm(d), -5, 5))]) if rng.random() < .3 and
                                               np.any(np.round(5 * d / np.linalg.norm(d))) else d)
        ctx.check(np.shape(i) == shape, "shape of the fractions")
    ctx.check(fingerprint(zg) == before, "the grid changed")
    ctx.describe("fractions", kind, shape, fingerprint(nrm[0]))


def curve(zg_centers, areas, z, incl, az):
    theta, phi = zg_centers
    f = ref.zdi_field(*z.args, theta, phi)
    xyz = ref.cartesian(f["r"], f["t"], f["p"], theta, phi)
    nrm = ref.basis(theta, phi)[..., 0, :]
    out = []
    for x in az:
        d = np.array([np.sin(incl) * np.cos(x), np.sin(incl) * np.sin(x), np.cos(incl)])
        w = areas * np.maximum(nrm @ d, 0)
        out.append(np.sum(w * (xyz @ d)) / np.sum(w))
    return np.array(out)


def longitudinal(ctx):
    rng = ctx.rng
    z = gen.zdi(rng, lmax=int(rng.choice([1, 2, 3, 5, 8])), negative=bool(rng.random() < .2))
    mg = z.make()
    while True:
        zg, p, a, kind = make(ctx)
        if len(p) > 3 and len(a) > 4 and kind != "default":
            break
    shape = len(a) - 1, len(p) - 1
    centers = np.broadcast_to((p[1:] + p[:-1]) / 2, shape), np.broadcast_to(((a[1:] + a[:-1]) / 2)[:, None], shape)
    areas = 2 * np.sin(centers[0]) * np.sin(np.diff(p) / 2) * np.diff(a)[:, None]
    incl = float(rng.choice([0, np.pi / 2, np.pi, rng.uniform(0, np.pi), rng.uniform(0, np.pi)]))
    n = int(rng.integers(1, 7))
    az = rng.uniform(-7, 13, n)
    if kind == "partial":       # small patches; only observers that see some of it well
        ctx.ev("partial_grids")
        normals = ref.basis(*centers)[..., 0, :].reshape(-1, 3)
        while True:
            near = np.array([np.sin(incl) * np.cos(az), np.sin(incl) * np.sin(az), np.full(n, np.cos(incl))])
            if np.all(np.max(normals @ near, axis=0) > .2) and np.all(np.max(normals @ np.array(
                    [np.sin(incl) * np.cos(np.round(az)), np.sin(incl) * np.sin(np.round(az)), np.full(n, np.cos(incl))]), axis=0) > .2):
                break
            incl = float(rng.choice(centers[0].ravel()))
            az = rng.choice(centers[1].ravel(), n)
    form = int(rng.integers(5))
    given = [az, list(az), tuple(az), np.round(az).astype(int), [int(v) for v in np.round(az)]][form]
    if form >= 3:
        az = np.round(az)
    before = fingerprint([zg, mg, given])
    got = longitudinal_field.get_longitudinal_field_curve(zg, mg, incl, given)
    ctx.check(fingerprint([zg, mg, given]) == before, "changed its arguments")
    want = curve(centers, areas, z, incl, az)
    s = ref.zdi_bound(*z.args)
    ctx.ev("curve_points", n)
    ctx.close("longitudinal field", got, want, rtol=1e-9, scale=s, inclination=incl, azimuths=az, form=form)
    # Each azimuth alone; another order; full turns.
    i = int(rng.integers(n))
    ctx.close("one azimuth alone", longitudinal_field.get_longitudinal_field_curve(zg, mg, incl, az[i:i + 1]), want[i:i + 1], rtol=1e-9, scale=s)
    perm = rng.permutation(n)
    ctx.close("azimuths turned and permuted", longitudinal_field.get_longitudinal_field_curve(zg, mg, incl, az[perm] + 2 * np.pi * rng.integers(-2, 3)),
              want[perm], rtol=1e-9, scale=s)
    # Linear in the magnetogram.
    k = float(rng.choice([-1.0, 3.0, 1e-3]))
    m2 = gen.Zdi(z.l, z.m, k * z.a, k * z.b, k * z.g).make()
    ctx.close("of a multiple", longitudinal_field.get_longitudinal_field_curve(zg, m2, incl, az), k * want, rtol=1e-9, scale=abs(k) * s)
    parts = [longitudinal_field.get_longitudinal_field_curve(zg, x, incl, az) for x in (mg.as_poloidal(), mg.as_toroidal())]
    ctx.close("sum of the poloidal and toroidal curves", parts[0] + parts[1], want, rtol=1e-9, scale=s)
    # Default azimuths.
    if rng.random() < .3 and kind != "partial":
        d = longitudinal_field.get_longitudinal_field_curve(zg, mg, incl)
        az0 = np.linspace(0, 2 * np.pi, len(a))
        ctx.close("default azimuths", d, curve(centers, areas, z, incl, az0), rtol=1e-9, scale=s)
        ctx.ev("curve_points", len(a))
        if rng.random() < .3:
            plot(ctx, zg, mg, incl, az0, curve(centers, areas, z, incl, az0), s, default=True)
    if rng.random() < .2:
        plot(ctx, zg, mg, incl, az, want, s)
    ctx.describe("curve", repr(z), kind, shape, incl, form, az[:2].tolist())


def plot(ctx, zg, mg, incl, az, want, s, default=False):
    import matplotlib.pyplot as plt
    _, ax = plt.subplots()
    r_ax, data = longitudinal_field.plot_longitudinal_field_curve(*((ax, zg, mg, incl) if default else (ax, zg, mg, incl, az)))
    ctx.ev("plots")
    ctx.check(r_ax is ax, "returned axes")
    ctx.close("curve returned by the plot", np.asarray(data), np.stack([az, want]), rtol=1e-9, scale=np.array([[20.0], [s]]))
    lines = [l for l in ax.get_lines() if len(l.get_xdata()) == len(az)]
    hit = False
    for l in lines:
        x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        hit |= np.allclose(x, np.rad2deg(az), rtol=1e-9) and np.allclose(y, want, rtol=1e-9, atol=1e-9 * s)
    ctx.check(hit, "the plotted curve is not the longitudinal field")
    lo, hi = sorted(ax.get_ylim())
    if np.any(np.abs(want) > 1e-9 * s):
        ctx.check(lo <= np.min(want) and hi >= np.max(want), "the curve is not within the axis limits", limits=(lo, hi), curve=want)
    plt.close("all")


CASES = {"fractions": (fractions, 250, 4000), "longitudinal": (longitudinal, 250, 4000)}
CHUNK = 4
