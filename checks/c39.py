"""C39: PFSS slices and stream traces show the field in the stated plane."""
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.collections import LineCollection, QuadMesh
from matplotlib.contour import ContourSet
from matplotlib.patches import Circle, FancyArrowPatch
from starwinds_magnetogram import pfss_magnetogram, plot_pfss, plot_zdi
from starwinds_magnetogram.geometry import ZdiGeometry
import figs
import gen
import ref
from c24 import coefficient_set
from vh import fingerprint

PROPERTY = "C39"
RULE = ("random coefficient sets, planes, extents and radii; slice plots and stream-trace maps read back cell by cell against the independent field, circles against the radii, "
        "stream lines against the direction of the field; planes of arrays of any shape; a case is the set with the plane and radii")
REQUIRE = dict(slices=20, traces=24, planes=200, cells=100000, circles=40, segments=2000, arrows=100, bands=40)
XYZ = "xyz"


def plane(ctx):
    rng = ctx.rng
    shape = tuple(int(x) for x in rng.integers(1, 6, int(rng.integers(1, 4))))
    p1, p2 = rng.normal(size=shape) * 10.0 ** rng.integers(-6, 7), rng.normal(size=shape)
    if rng.random() < .2:
        p1, p2 = np.round(p1 * 5), np.round(p2 * 5)
        if rng.random() < .5 and np.max(np.abs(p1)) < 1e15:
            p1, p2 = p1.astype(int), p2.astype(int)
    normal = XYZ[rng.integers(3)]
    before = fingerprint([p1, p2])
    out = pfss_magnetogram.normal_plane(p1, p2, normal)
    ctx.check(fingerprint([p1, p2]) == before, "coordinates changed")
    ctx.equal(len(out), 3, "number of coordinates")
    ctx.ev("planes")
    n = XYZ.index(normal)
    rest = [p1, p2]
    for i in range(3):
        w = np.zeros(shape) if i == n else rest.pop(0)
        got = np.asarray(out[i])
        ctx.equal(got.size, w.size, "number of points")
        ctx.same("coordinate %s of the plane normal to %s" % (XYZ[i], normal), got.reshape(-1), w.reshape(-1))
    ctx.check(len({np.shape(o) for o in out}) == 1, "coordinates of different shapes")
    ctx.describe("plane", normal, p1.tolist(), p2.tolist())


def segments(ax):
    """Midpoints and directions of the stream lines."""
    mids, dirs = [], []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s in c.get_segments():
                s = np.asarray(s)
                if len(s) > 1:
                    d = np.diff(s, axis=0)
                    k = np.hypot(*d.T) > 0
                    mids.append(((s[1:] + s[:-1]) / 2)[k])
                    dirs.append(d[k])
    return (np.concatenate(mids), np.concatenate(dirs)) if mids else (np.zeros((0, 2)), np.zeros((0, 2)))


def cosine(d, u, v):
    """Length-weighted mean cosine of the angle between the lines (whose sense is arbitrary) and a direction."""
    w = np.hypot(d[:, 0], d[:, 1])
    return float(np.sum(np.abs(d[:, 0] * u + d[:, 1] * v) / (np.hypot(u, v) + 1e-300)) / np.sum(w))


def arrows(ax):
    """Tails and directions of the arrow heads on the stream lines."""
    ends = [a._posA_posB for a in ax.get_children() if isinstance(a, FancyArrowPatch) and getattr(a, "_posA_posB", None) is not None]
    if not ends:
        return np.zeros((0, 2)), np.zeros((0, 2))
    a, b = np.array([e[0] for e in ends], float), np.array([e[1] for e in ends], float)
    return a, b - a


def sense(ctx, ax, field, keep):
    """The arrow heads point along the field, rather than against it."""
    tail, d = arrows(ax)
    k = keep(tail) & (np.hypot(*d.T) > 0) if len(tail) else np.zeros(0, bool)
    if k.sum() >= 10:
        u, v = field(tail[k])
        dot = (d[k, 0] * u + d[k, 1] * v) / (np.hypot(*d[k].T) * np.hypot(u, v) + 1e-300)
        ctx.ev("arrows", len(dot))
        ctx.check(np.mean(dot > 0) > .7, "arrows on the stream lines do not point along the field", share=np.mean(dot > 0))


def rings(ax):
    """Points on the circles that are drawn."""
    pts = []
    for c in ax.collections:
        if isinstance(c, ContourSet):
            for p in c.get_paths():
                pts.append(np.asarray(p.vertices))
    for c in ax.patches:
        if isinstance(c, Circle):
            t = np.linspace(0, 2 * np.pi, 200)
            pts.append(np.array(c.center) + c.radius * np.stack([np.cos(t), np.sin(t)], -1))
    return np.concatenate(pts) if pts else np.zeros((0, 2))


def at(M, n, c1, c2, r0, rss):
    """Field in spherical and cartesian components at points of the plane."""
    X = [c1, c2]
    X.insert(n, np.zeros_like(c1))
    r = np.sqrt(c1 ** 2 + c2 ** 2)
    theta, phi = np.arctan2(np.hypot(X[0], X[1]), X[2]), np.arctan2(X[1], X[0])
    fr, ft, fp, sc = ref.pfss_field(M, r, theta, phi, r0, rss)
    return r, fr, ref.cartesian(fr, ft, fp, theta, phi), sc


def slices(ctx):
    rng = ctx.rng
    c, M = coefficient_set(rng, int(rng.choice([1, 1, 2, 3, 5])))
    if sum(abs(v) for k, v in M.items() if k[0]) < 1e-6 * sum(abs(v) for v in M.values()) or not np.any(list(M.values())):
        return
    kw = {}
    r0, rss, rmax, normal = 1.0, 2.5, 5.0, "x"
    if rng.random() < .5:
        r0 = float(rng.uniform(.3, 2))
        kw["radius_star"] = r0
    if rng.random() < .6 or rss < 1.1 * r0:
        rss = float(r0 * rng.uniform(1.3, 4))
        kw["radius_source_surface"] = rss
    if rng.random() < .7 or rss > 4.8:
        rmax = float(rss * rng.uniform(1.05, 2.5))
        if rng.random() < .25 and rss > 1.35 * r0:     # the source surface may be outside, or only in the corners
            rmax = float(rng.uniform(1.2 * r0, rss))
        kw["rmax"] = rmax
    if rng.random() < .85:
        normal = XYZ[ctx.index % 3]
        kw["normal"] = normal
    n = XYZ.index(normal)
    t = np.linspace(0, 2 * np.pi, 50)
    _, _, f, sc = at(M, n, 1.5 * r0 * np.cos(t), 1.5 * r0 * np.sin(t), r0, rss)
    if np.max(np.abs(f)) < 1e-6 * np.max(sc) or np.max(np.hypot(*[f[:, i] for i in range(3) if i != n])) < 1e-6 * np.max(sc):
        return     # no field in this plane
    before = fingerprint(c)
    fig, ax = plot_pfss.plot_slice(c, **kw)
    ctx.check(fingerprint(c) == before, "plotting changed the coefficients")
    ctx.ev("slices")
    q, boxes, values = figs.mesh(ax)
    c1, c2 = (boxes[:, 0] + boxes[:, 1]) / 2, (boxes[:, 2] + boxes[:, 3]) / 2
    ctx.ev("cells", len(values))
    step = np.max(boxes[:, 1::2] - boxes[:, ::2])
    ctx.check(len(values) >= 400, "hardly any cells", number=len(values))
    ctx.close("extent of the slice", np.array([c1.min(), c1.max(), c2.min(), c2.max()]), np.array([-1, 1, -1, 1]) * rmax, rtol=1., scale=1.01 * step)
    r, fr, fxyz, sc = at(M, n, c1, c2, r0, rss)
    keep = (np.abs(r - r0) > 1e-6 * rmax) & (np.abs(r - rss) > 1e-6 * rmax)
    ctx.close("field in the slice", values[keep], fr[keep], rtol=1e-7, scale=sc[keep] + 1e-9 * np.max(sc), normal=normal)
    lo, hi = q.get_clim()
    ctx.check(lo <= np.min(fr[keep]) * (1 - 1e-9) and hi >= np.max(fr[keep]) * (1 - 1e-9) and abs(lo + hi) <= 1e-9 * hi, "colour scale", scale=(lo, hi))
    # Circles
    p = rings(ax)
    d = np.hypot(*p.T) if len(p) else np.zeros(0)
    ctx.check(np.all(np.minimum(np.abs(d - r0), np.abs(d - rss)) < 2 * step), "a circle of another radius")
    for R in (r0, rss):
        if R > rmax - 2 * step:
            continue
        k = np.abs(d - R) < 2 * step
        sect = set(np.floor((np.arctan2(p[k, 1], p[k, 0]) + np.pi) / (2 * np.pi) * 16).astype(int) % 16)
        ctx.check(len(sect) == 16, "no circle at the surface", radius=R, sectors=len(sect))
        ctx.ev("circles")
    names = [x for x in XYZ if x != normal]
    for lab, name in ((ax.get_xlabel(), names[0]), (ax.get_ylabel(), names[1])):
        others = [x for x in XYZ if x != name]
        text = lab.replace("Distance", "").replace("star", "")
        ctx.check("$%s" % name in text and not any("$%s" % o in text for o in others), "label of the axis", label=lab, due=name)
    # Field lines
    mid, dirs = segments(ax)
    rr = np.hypot(*mid.T)
    k = (rr > r0 * 1.1 + step) & (rr < rss * .9 - step)
    if k.sum() > 60:
        ctx.ev("segments", k.sum())
        _, _, f, sc2 = at(M, n, mid[k, 0], mid[k, 1], r0, rss)
        f1, f2 = [f[:, i] for i in range(3) if i != n]
        ok = np.hypot(f1, f2) > 1e-5 * np.hypot(np.hypot(f[:, 0], f[:, 1]), f[:, 2])
        if ok.sum() > 60:
            cos = cosine(dirs[k][ok], f1[ok], f2[ok])
            ctx.check(cos > .95, "stream lines not along the field", mean_cosine=cos, normal=normal)

        for lo, hi in ((r0 * 1.1 + step, rss * .9 - step), (rss * 1.1 + step, 9 * rmax)):
            k = (rr > lo) & (rr < hi)
            if k.sum() < 60:
                continue
            _, _, f, sc2 = at(M, n, mid[k, 0], mid[k, 1], r0, rss)
            f1, f2 = [f[:, i] for i in range(3) if i != n]
            sect = np.floor((np.arctan2(mid[k, 1], mid[k, 0]) + np.pi) / (2 * np.pi) * 8).astype(int) % 8
            ok = np.hypot(f1, f2) > 1e-3 * sc2
            vals = [cosine(dirs[k][ok & (sect == i)], f1[ok & (sect == i)], f2[ok & (sect == i)]) for i in range(8) if (ok & (sect == i)).sum() >= 20]
            ctx.ev("bands", len(vals))
            ctx.check(min(vals, default=1) > .8, "stream lines not along the field in a part of the plane", mean_cosine=vals, normal=normal)

        def field(x):
            f = at(M, n, x[:, 0], x[:, 1], r0, rss)[2]
            return [f[:, i] for i in range(3) if i != n]
        sense(ctx, ax, field, lambda x: (np.hypot(*x.T) > r0 * 1.1 + step) & (np.hypot(*x.T) < rss * .9 - step))
    ctx.describe("slice", sorted(M)[:6], normal, r0, rss, rmax, sorted(kw))


def even_grid(rng):
    k = rng.integers(4)
    if k == 0:
        return None, np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130)
    n, m = int(rng.integers(8, 40)), int(rng.integers(8, 70))
    if k == 1:
        return ZdiGeometry(n, m), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, m)
    if k == 2:
        return ZdiGeometry(n), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, 2 * n)
    p, a = np.linspace(.3, 2.9, n), np.linspace(-1, 4, m)
    return ZdiGeometry(p, a), p, a


def judge_traces(ctx, ax, want, p, a, u, v, scale, symmetric):
    ctx.ev("traces")
    q, boxes, values = figs.mesh(ax)
    wb, wv = figs.expected_cells(np.rad2deg(a), np.rad2deg(p), want)
    ctx.ev("cells", len(wv))
    ctx.close("cell corners", boxes, wb, rtol=1e-9, scale=360.)
    ctx.close("cell values", values, wv, rtol=1e-8, scale=scale)
    lo, hi = q.get_clim()
    top = float(np.max(np.abs(want)))
    # (An image of zeros only has some scale around zero.)
    ctx.check(top == 0 and lo <= 0 <= hi or hi >= top - 1e-7 * scale and (abs(lo + hi) < 1e-7 * scale if symmetric else abs(lo) < 1e-7 * scale), "colour scale", scale=(lo, hi), largest=top)
    ctx.check("zimuth" in ax.get_xlabel() and "olar" in ax.get_ylabel(), "axis labels", x=ax.get_xlabel(), y=ax.get_ylabel())
    mid, dirs = segments(ax)
    if len(mid) > 60:
        ctx.ev("segments", len(mid))
        a_, p_ = np.deg2rad(mid).T
        cu, cv = u(p_, a_), v(p_, a_)
        ok = np.hypot(cu, cv) > 1e-4 * scale
        if ok.sum() > 60:
            s = np.sin(p_[ok])
            best = max(cosine(dirs[ok], cu[ok] / f, cv[ok]) for f in (1.0, s))
            if min(len(p), len(a)) > 15:
                ctx.check(best > .9, "stream lines not along the field", mean_cosine=best)
            bands(ctx, mid[ok], dirs[ok], u, v, p, a, cu[ok], cv[ok], s)
        sense(ctx, ax, lambda x: (u(*np.deg2rad(x).T[::-1]), v(*np.deg2rad(x).T[::-1])), lambda x: np.isfinite(x[:, 0]))


def bands(ctx, mid, dirs, u, v, p, a, cu, cv, sine):
    """The lines follow the field in every part of the map: either the field itself or, as drawn, what is interpolated between facet centres."""
    pc, ac = (p[1:] + p[:-1]) / 2, (a[1:] + a[:-1]) / 2
    P, A = np.meshgrid(pc, ac)
    gu, gv = u(P, A), v(P, A)
    worst = {}
    for name in ("plain", "sine"):
        f = sine if name == "sine" else np.ones_like(sine)
        iu = figs.interpolate(np.rad2deg(ac), np.rad2deg(pc), gu / (np.sin(P) if name == "sine" else 1), mid)
        iv = figs.interpolate(np.rad2deg(ac), np.rad2deg(pc), gv, mid)
        cos = np.maximum(*[np.abs(dirs[:, 0] * x + dirs[:, 1] * y) / (np.hypot(x, y) * np.hypot(*dirs.T) + 1e-300) for x, y in ((iu, iv), (cu / f, cv))])
        w = np.hypot(*dirs.T)
        out = []
        for axis, k in ((1, 8), (0, 8)):
            n = np.floor((mid[:, axis] - mid[:, axis].min()) / (np.ptp(mid[:, axis]) + 1e-9) * k).astype(int)
            for i in range(k):
                if (n == i).sum() >= 20:
                    out.append(float(np.sum((cos * w)[n == i]) / np.sum(w[n == i])))
        worst[name] = min(out, default=1.)
    ctx.ev("bands")
    ctx.check(max(worst.values()) > .95, "stream lines not along the field in a part of the map", mean_cosine=worst)


def zdi_traces(ctx):
    rng = ctx.rng
    z = gen.zdi(rng, lmax=int(rng.integers(1, 4)), lmin=1, magnitude=float(10.0 ** rng.choice([0, 1, 3, -2, -4])))
    scale = float(sum(ref.zdi_bound(int(l), int(m), *abc) for l, m, *abc in zip(*z.args)))
    mgm = z.make()
    zg, p, a = even_grid(rng)
    shape = len(a) - 1, len(p) - 1
    pc, ac = np.broadcast_to((p[1:] + p[:-1]) / 2, shape), np.broadcast_to(((a[1:] + a[:-1]) / 2)[:, None], shape)
    F = ref.zdi_field(*z.args, pc, ac)
    if np.max(np.hypot(F["t"], F["p"])) < 1e-5 * scale or np.max(np.abs(F["t"])) < 1e-5 * scale:
        return
    kw = {}
    if zg is not None:
        kw["geometry"] = zg
    if rng.random() < .5:
        kw["ax"] = plt.subplots()[1]
    before = fingerprint([mgm] + ([zg] if zg else []))
    ax = plot_zdi.plot_streamtraces(mgm, **kw)
    ctx.check(fingerprint([mgm] + ([zg] if zg else [])) == before, "plotting changed the magnetogram or grid")
    ctx.check(ax is kw.get("ax", ax), "plotted in other axes than given")
    judge_traces(ctx, ax, np.asarray(F["strength"]), p, a, lambda t, f: np.asarray(ref.zdi_field(*z.args, t, f)["p"]),
                 lambda t, f: np.asarray(ref.zdi_field(*z.args, t, f)["t"]), scale, False)
    names = [t for x in ax.figure.axes if x is not ax for t in (x.get_ylabel(), x.get_xlabel(), x.get_title())]
    ctx.check(any("strength" in t.lower() for t in names), "background quantity not named", labels=names)
    ctx.describe("zdi traces", z, len(p), len(a))


def pfss_traces(ctx):
    rng = ctx.rng
    c, M = coefficient_set(rng, int(rng.choice([1, 2, 3])))
    zg, p, a = even_grid(rng)
    shape = len(a) - 1, len(p) - 1
    pc, ac = np.broadcast_to((p[1:] + p[:-1]) / 2, shape), np.broadcast_to(((a[1:] + a[:-1]) / 2)[:, None], shape)
    fr, ft, fp, sc = ref.pfss_field(M, np.ones(shape), pc, ac)
    scale = float(np.max(sc))
    if np.max(np.abs(ft)) < 1e-5 * scale or np.max(np.abs(fr)) < 1e-5 * scale or np.min(fr) * np.max(fr) >= 0:
        return
    kw = {} if zg is None else {"geometry": zg}
    before = fingerprint([c] + ([zg] if zg else []))
    fig, ax = plot_pfss.plot_streamtraces(c, **kw)
    ctx.check(fingerprint([c] + ([zg] if zg else [])) == before, "plotting changed the coefficients or grid")

    def part(i):
        return lambda t, f: ref.pfss_field(M, np.ones(t.shape), t, f)[i]
    judge_traces(ctx, ax, fr, p, a, part(2), part(1), scale, True)
    ctx.describe("pfss traces", sorted(M)[:6], len(p), len(a))


CASES = {"plane": (plane, 300, 4000), "slices": (slices, 40, 500), "zdi_traces": (zdi_traces, 24, 300), "pfss_traces": (pfss_traces, 24, 300)}
CHUNK = 2
