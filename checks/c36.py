"""C36: field maps show the field they are labelled with."""
import numpy as np
from matplotlib import pyplot as plt
from starwinds_magnetogram import plot_pfss, plot_zdi
import figs
import gen
import ref
from c14 import GETTERS
from c24 import coefficient_set
from c35 import full_grid
from vh import fingerprint

PROPERTY = "C36"
QUICK_SCALE = 3
RULE = ("random magnetograms and PFSS coefficient sets on random grids (default, by number, uneven), all map functions and options; the artists of the figure against "
        "the independent field; a case is the magnetogram with the grid and map function")
REQUIRE = dict(maps=300, cells=20000, markers=600, signed=150, unsigned=15, contour_lines=300, shared_scales=40)
NAMES = [("r", "radial", "B_r"), ("t", "polar", r"B_\theta"), ("p", "azimuthal", r"B_\phi")]


def judge_map(ctx, ax, want, scale, p, a, latex, exact=True, cmap=None, symmetric=None, rtol=1e-8):
    """One axes shows the field want[azimuth index, polar index] with corners p, a."""
    ctx.ev("maps")
    q, boxes, values = figs.mesh(ax)
    wb, wv = figs.expected_cells(np.rad2deg(a), np.rad2deg(p), want)
    ctx.ev("cells", len(wv))
    ctx.equal(len(values), len(wv), "number of cells")
    if exact:
        ctx.close("cell corners", boxes, wb, rtol=1e-9, scale=360.0)
    else:     # the cells are around the facet centres
        cx, cy = (wb[:, 0] + wb[:, 1]) / 2, (wb[:, 2] + wb[:, 3]) / 2
        e = 1e-9 * 360
        ctx.check(np.all((boxes[:, 0] <= cx + e) & (cx <= boxes[:, 1] + e) & (boxes[:, 2] <= cy + e) & (cy <= boxes[:, 3] + e)),
                  "facet centre outside its cell", latex=latex)
    ctx.close("cell values", values, wv, rtol=rtol, scale=scale, field=latex)
    # Extrema
    pc, ac = np.rad2deg((p[1:] + p[:-1]) / 2), np.rad2deg((a[1:] + a[:-1]) / 2)
    for start, ext in (("Max", np.max(want)), ("Min", np.min(want))):
        found = figs.points_labelled(ax, start)
        ctx.equal(len(found), 1, "number of %s markers" % start)
        x, y, label = found[0]
        ctx.ev("markers")
        ctx.check(len(x) == len(y) == 1, "marker of more than one point", label=label)
        i, j = np.argmin(np.abs(ac - x[0])), np.argmin(np.abs(pc - y[0]))
        ctx.close("marker position", np.array([x[0], y[0]]), np.array([ac[i], pc[j]]), rtol=1e-9, scale=360.0, label=label)
        ctx.close("field at the %s marker" % start, want[i, j], ext, rtol=10 * rtol, scale=scale, label=label)
        ctx.check(latex in label, "marker label does not name the field", label=label, due=latex)
        shown = figs.number(label.split("=")[-1])
        ctx.close("value on the marker label", shown, float(ext), rtol=1.0, scale=.00501 * abs(ext) + 10 * rtol * scale, label=label)
    # Contour lines
    zero = False
    for level, xy, dashed in figs.contour_lines(ax):
        ctx.ev("contour_lines")
        zero = zero or level == 0
        ctx.close("field along a contour line", figs.interpolate(ac, pc, want, xy), np.full(len(xy), level), rtol=1e-6, scale=scale, level=level, field=latex)
    if symmetric is not False and np.min(want) < -1e-6 * scale and np.max(want) > 1e-6 * scale:
        ctx.check(zero, "no line where the field changes sign", field=latex)
    # Colours
    lo, hi = q.get_clim()
    s = float(np.max(np.abs(want)))
    tiny = 10 * rtol * scale
    signed = np.min(want) < -tiny and np.max(want) > tiny
    if signed or symmetric:
        ctx.ev("signed")
        if symmetric is not False:
            ctx.close("colour scale symmetric about zero", np.array(lo + hi), np.array(0.), rtol=1e-9, scale=abs(hi) + tiny, field=latex)
    elif s > tiny:
        ctx.ev("unsigned")
    ctx.check(lo <= np.min(want) + tiny and hi >= np.max(want) - tiny, "colour scale does not cover the data", scale=(lo, hi), field=latex)
    if cmap:
        ctx.check(q.get_cmap().name == cmap, "another colour map than asked for", used=q.get_cmap().name)
    ctx.check("zimuth" in ax.get_xlabel() and "olar" in ax.get_ylabel(), "axis labels", x=ax.get_xlabel(), y=ax.get_ylabel())


def markers_on_bar(ctx, fig, axs, fields, scale):
    rest = [x for x in fig.axes if not any(x is y for y in axs)]
    ctx.equal(len(rest), 1, "number of colour bars")
    got = figs.markers(rest[0])
    want = sorted([float(np.max(f)) for f in fields] + [float(np.min(f)) for f in fields])
    ctx.close("extrema marked on the colour bar", np.array(got), np.array(want), rtol=1e-7, scale=scale)
    # A symbol means the same on the colour bar as in the legend of the map.
    legend = [(str(l.get_marker()), f, str(l.get_label()).startswith("Max")) for ax, f in zip(axs, fields) for l in ax.lines if str(l.get_label())[:3] in ("Max", "Min")]
    bar = figs.marker_symbols(rest[0])
    if len({k for k, _, _ in legend}) == len(legend) == len(bar) and {k for k, _, _ in legend} == {k for k, _ in bar}:
        ctx.ev("symbols", len(bar))
        for k, f, top in legend:
            ctx.close("extremum marked on the colour bar with the symbol of the legend", np.array([v for b, v in bar if b == k]), np.array([np.max(f) if top else np.min(f)]),
                      rtol=1e-7, scale=scale, symbol=k)


def grid(rng):
    while True:
        zg, p, a = full_grid(rng)
        if len(p) >= 4 and len(a) >= 4:
            break
    shape = len(a) - 1, len(p) - 1
    pc = np.broadcast_to((p[1:] + p[:-1]) / 2, shape)
    ac = np.broadcast_to(((a[1:] + a[:-1]) / 2)[:, None], shape)
    w = np.diff(a)[:, None] * (np.cos(p[:-1]) - np.cos(p[1:])) / (4 * np.pi)
    default = len(p) == 65 and rng.random() < .5
    return (None if default else zg), p, a, pc, ac, w


def magnetogram(rng):
    z = gen.zdi(rng, lmax=int(rng.integers(1, 8)), lmin=1, magnitude=float(10.0 ** rng.choice([0, 0, 1, 3, -3, -6, 5])))
    return z, z.make()


def titles(ctx, axs, radius):
    for ax, (_, name, latex) in zip(axs, NAMES):
        t = ax.get_title()
        ctx.check(name in t.lower() and latex in t, "title of the panel", title=t, due=name)
        ctx.close("radius in the title", figs.number(t.split("=")[-1]), radius, rtol=1.0, scale=.0501, title=t)


def shared(ctx, axs, fields, scale):
    """The one colour bar holds for every panel with a signed field."""
    limits = [figs.mesh(ax)[0].get_clim() for ax, f in zip(axs, fields) if np.min(f) < -1e-6 * scale and np.max(f) > 1e-6 * scale]
    ctx.ev("shared_scales", len(limits) > 1)
    for lim in limits[1:]:
        ctx.close("colour scales of the panels", np.array(lim), np.array(limits[0]), rtol=1e-9, scale=abs(limits[0][1]))


def components(ctx):
    rng = ctx.rng
    z, mgm = magnetogram(rng)
    zg, p, a, pc, ac, w = grid(rng)
    term = [None, None, "poloidal", "toroidal"][rng.integers(4)]
    kw = {}
    radius = 1.0
    if term or rng.random() < .3:
        kw["term"] = term
    if zg is not None:
        kw["zg"] = zg
    if rng.random() < .5:
        kw["axs"] = plt.subplots(1, 3, figsize=(9, 3))[1]
    zero = 0 * z.a
    F = ref.zdi_field(z.l, z.m, z.a if term != "toroidal" else zero, z.b if term != "toroidal" else zero, z.g if term != "poloidal" else zero, pc, ac)
    scale = float(sum(ref.zdi_bound(int(l), int(m), *abc) for l, m, *abc in zip(*z.args)))
    fields = [np.asarray(F[k]) for k, _, _ in NAMES]
    if max(np.max(np.abs(f)) for f in fields) < 1e-6 * scale:
        return    # nothing to show
    before = fingerprint([mgm, zg] if zg is not None else [mgm])
    axs = plot_zdi.plot_zdi_components(mgm, **kw)
    ctx.check(fingerprint([mgm, zg] if zg is not None else [mgm]) == before, "plotting changed the magnetogram or grid")
    if "axs" in kw:
        ctx.check(all(x is y for x, y in zip(axs, kw["axs"])), "plotted in other axes than given")
    ctx.equal(len(axs), 3, "number of panels")
    for ax, f, (_, _, latex) in zip(axs, fields, NAMES):
        judge_map(ctx, ax, f, scale, p, a, latex)
    markers_on_bar(ctx, axs[0].figure, axs, fields, scale)
    shared(ctx, axs, fields, scale)
    titles(ctx, axs, radius)
    ctx.describe("components", term, z, len(p), len(a), float(p[1]))


def single(ctx):
    rng = ctx.rng
    z, mgm = magnetogram(rng)
    zg, p, a, pc, ac, w = grid(rng)
    names = sorted(GETTERS)
    key = str(rng.choice(names))
    getter = getattr(mgm, GETTERS[key])
    F = ref.zdi_field(*z.args, pc, ac)
    want = np.asarray(F[key])
    scale = float(sum(ref.zdi_bound(int(l), int(m), *abc) for l, m, *abc in zip(*z.args)))
    if np.max(np.abs(want)) < 1e-6 * scale:
        return
    kw = {}
    if zg is not None:
        kw["zg"] = zg
    if rng.random() < .5:
        kw["ax"] = plt.subplots()[1]
    if rng.random() < .3:
        kw["cmap"] = str(rng.choice(["jet", "plasma"]))
    if rng.random() < .3:
        kw["symmetric"] = True
    latex = str(rng.choice(["X", "B_r", "|B|", r"B_\theta", "Q"]))
    if latex != "X" or rng.random() < .5:
        kw["legend_str"] = latex
    before = fingerprint([mgm, zg] if zg is not None else [mgm])
    fig, ax = plot_zdi.plot_zdi_field(getter, **kw)
    ctx.check(fingerprint([mgm, zg] if zg is not None else [mgm]) == before, "plotting changed the magnetogram or grid")
    if "ax" in kw:
        ctx.check(ax is kw["ax"] and fig is ax.figure, "plotted in other axes than given")
    judge_map(ctx, ax, want, scale, p, a, latex, cmap=kw.get("cmap"), symmetric=kw.get("symmetric"))
    markers_on_bar(ctx, fig, [ax], [want], scale)
    mean = [t for t in figs.texts(ax) if "mean" in t]
    ctx.equal(len(mean), 1, "number of mean values stated")
    m = float(np.sum(np.abs(want) * w))
    ctx.close("mean stated", figs.number(mean[0].split(":")[-1]), m, rtol=1.0, scale=.00501 * m + 1e-7 * scale, text=mean[0])
    ctx.describe("single", key, z, len(p), len(a), float(p[1]), sorted(kw))


def pfss(ctx):
    rng = ctx.rng
    c, M = coefficient_set(rng, int(rng.choice([1, 2, 3, 5, 8])))
    zg, p, a, pc, ac, w = grid(rng)
    rss = float(rng.choice([2.5, rng.uniform(1.2, 6)]))
    radius = float(rng.choice([1, 1, 1.5, rng.uniform(1, rss), rss * 1.5]))
    kw = {}
    if zg is not None:
        kw["geometry"] = zg
    if radius != 1 or rng.random() < .5:
        kw["radius"] = radius
    if rss != 2.5 or rng.random() < .5:
        kw["radius_source_surface"] = rss
    if rng.random() < .5:
        kw["axs"] = plt.subplots(1, 3, figsize=(9, 3))[1]
    *B, sc = ref.pfss_field(M, np.full(pc.shape, radius), pc, ac, 1.0, rss)
    scale = float(np.max(sc)) + 1e-300
    if max(np.max(np.abs(f)) for f in B) < 1e-6 * scale:
        return
    before = fingerprint([c, zg] if zg is not None else [c])
    fig, axs = plot_pfss.plot_components(c, **kw)
    ctx.check(fingerprint([c, zg] if zg is not None else [c]) == before, "plotting changed the coefficients or grid")
    if "axs" in kw:
        ctx.check(all(x is y for x, y in zip(axs, kw["axs"])), "plotted in other axes than given")
    even = np.ptp(np.diff(p)) < 1e-9 and np.ptp(np.diff(a)) < 1e-9
    for ax, f, (_, _, latex) in zip(axs, B, NAMES):
        judge_map(ctx, ax, f, scale, p, a, latex, exact=even)
    markers_on_bar(ctx, fig, axs, B, scale)
    shared(ctx, axs, B, scale)
    titles(ctx, axs, radius)
    ctx.ev("pfss_maps")
    ctx.describe("pfss", sorted(M)[:6], radius, rss, len(p), len(a), sorted(kw))


CASES = {"components": (components, 90, 1500), "single": (single, 140, 2500), "pfss": (pfss, 60, 1000)}
CHUNK = 2
