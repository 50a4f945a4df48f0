"""C38: energy plots show the energies of the magnetogram."""
import numpy as np
from matplotlib import colors as mcolors
from matplotlib import pyplot as plt
from matplotlib.patches import Wedge
from starwinds_magnetogram import plot_zdi
import figs
import gen
import ref
from c19 import expected, T
from vh import fingerprint

PROPERTY = "C38"
QUICK_SCALE = 2
RULE = ("random magnetograms (energies from 1e-200 to 1e200, purely poloidal or toroidal, missing degrees and orders, negative orders where accepted) in the three "
        "energy plots with all options; the artists against independent energies; a case is the magnetogram with the plot")
REQUIRE = dict(by_degree=80, matrices=120, summaries=50, wedges=300, tiny=30)
KINDS = ("total", "radial", "poloidal", "toroidal")


def energies(z):
    ea, eb, eg = ref.zdi_energy(*z.args)
    return dict(total=ea + eb + eg, radial=ea, poloidal=ea + eb, toroidal=eg)


def magnetogram(ctx, **kw):
    rng = ctx.rng
    mag = float(10.0 ** rng.choice([0, 0, 1, 3, -3, -5, -7, -40, -100, 40, 100]))
    if mag < 1e-4:
        ctx.ev("tiny")
    z = gen.zdi(rng, lmax=gen.top(rng, rng.choice([1, 2, 3, 5, 8, 15]), (24, 32)), lmin=int(rng.random() > .3), magnitude=mag, **kw)
    if np.sum(energies(z)["total"]) <= 1e-6 * sum(np.sum(q) for q in ref.squares(*z.args)):
        z = gen.Zdi(z.l, z.m, z.a + mag, z.b, z.g)
    return z


def judge_by_degree(ctx, ax, z, scaled):
    ctx.ev("by_degree")
    E = energies(z)
    L = int(np.max(z.l))
    tot = float(np.sum(E["total"]))
    lines = [l for l in ax.lines]
    ctx.equal(len(lines), 6, "number of lines")
    used = set()
    for name in ("Total", "Poloidal", "Toroidal"):
        y = np.array([np.sum(E[name.lower()][z.l == k]) for k in range(L + 1)])     # with degree 0, which is not shown but counts
        if scaled:
            y = y / tot
        s = float(np.sum(y)) + (1 if scaled else tot)
        found = [l for l in lines if l.get_label() == name]
        ctx.equal(len(found), 1, "number of lines labelled " + name)
        look = found[0].get_color(), found[0].get_marker()
        other = [l for l in lines if l is not found[0] and (l.get_color(), l.get_marker()) == look]
        ctx.equal(len(other), 1, "number of running sums that look like " + name)
        ctx.check(look not in used, "two quantities look the same", look=look)
        used.add(look)
        for l, w, what in ((found[0], y[1:], "energy by degree"), (other[0], np.cumsum(y)[1:], "running sum")):
            ctx.close("degrees shown", np.asarray(l.get_xdata(), float), np.arange(1., L + 1), rtol=1e-12)
            ctx.close("%s (%s)" % (what, name), np.asarray(l.get_ydata(), float), w, rtol=1e-9, scale=s)
    leg = ax.get_legend()
    ctx.check(leg is not None and {"Total", "Poloidal", "Toroidal"} <= {t.get_text() for t in leg.get_texts()}, "legend")
    ctx.check("egree" in ax.get_xlabel(), "label of the degrees", label=ax.get_xlabel())


def by_degree(ctx):
    rng = ctx.rng
    z = magnetogram(ctx, negative=bool(rng.random() < .2))
    mgm = z.make()
    kw = {}
    if rng.random() < .7:
        kw["scaled"] = bool(rng.random() < .5)
    if rng.random() < .5:
        kw["ax"] = plt.subplots()[1]
    before = fingerprint(mgm)
    fig, ax = plot_zdi.plot_energy_by_degree(mgm, **kw)
    ctx.check(fingerprint(mgm) == before, "plotting changed the magnetogram")
    ctx.check(fig is ax.figure and ax is kw.get("ax", ax), "plotted in other axes than given")
    judge_by_degree(ctx, ax, z, kw.get("scaled", True))
    ctx.describe("by degree", z, sorted(kw.items())[-1:] if "scaled" in kw else None)


def judge_matrix(ctx, ax, z, name, negative):
    ctx.ev("matrices")
    ctx.equal(len(ax.images), 1, "number of images")
    img = ax.images[0]
    got = np.ma.filled(np.ma.asarray(img.get_array(), dtype=float), 0)
    E = energies(z)[name]
    sq = sum(ref.squares(*z.args))
    L = int(np.max(z.l))
    want, scale = np.zeros((L + 1, 2 * L + 1)), np.zeros((L + 1, 2 * L + 1))
    want[z.l, L + z.m], scale[z.l, L + z.m] = E, sq
    if not negative:
        want, scale = want[:, L:], scale[:, L:]
    ctx.close("energy matrix (%s)" % name, got, want, rtol=1e-11, scale=scale)
    x0, x1, y0, y1 = img.get_extent()
    n, m = want.shape
    ctx.close("place of the image", np.array([x0, x1, max(y0, y1), min(y0, y1)]), np.array([-.5, m - .5, n - .5, -.5]), rtol=1e-9, scale=10.)
    up = img.origin == "lower"
    ctx.check((y0 < y1) == up, "image upside down relative to its axis")
    if np.any(want > 1e-6 * scale):
        lo, hi = img.norm.vmin, img.norm.vmax
        nz = want[want > 1e-6 * scale]
        ctx.check(0 < lo <= nz.min() * (1 + 1e-9) and hi >= nz.max() * (1 - 1e-9), "colour scale does not cover the energies", scale=(lo, hi), energies=(nz.min(), nz.max()))
    t = ax.get_title()
    ctx.check(name in t.lower(), "title", title=t, due=name)
    ctx.check("rder" in ax.get_xlabel() and "egree" in ax.get_ylabel(), "labels of the axes", x=ax.get_xlabel(), y=ax.get_ylabel())
    # Tick labels state the order and degree of the cells that they are at.
    ax.figure.canvas.draw()
    for axis, off, top, what in ((ax.xaxis, L if negative else 0, m, "order"), (ax.yaxis, 0, n, "degree")):
        for pos, lab in zip(axis.get_majorticklocs(), axis.get_majorticklabels()):
            text = lab.get_text().replace("\u2212", "-")
            if text and -.5 <= pos <= top - .5:
                ctx.ev("tick_labels")
                ctx.close("tick label of the " + what, figs.number(text), pos - off, rtol=1e-6, scale=100.)


def matrix(ctx):
    rng = ctx.rng
    negative = bool(rng.random() < .4)
    z = magnetogram(ctx, negative=negative and bool(rng.random() < .7))
    mgm = z.make()
    kw = {}
    if negative:
        kw["negative_orders"] = True
    k = rng.integers(4)
    types = ["total"]
    if k:
        types = [str(t) for t in rng.choice(KINDS, int(rng.integers(1, 4)))]
        kw["types"] = types[0] if len(types) == 1 else [tuple(types), list(types)][rng.integers(2)]
        if rng.random() < .4:
            kw["axs"] = np.atleast_1d(plt.subplots(1, len(types))[1])
    before = fingerprint(mgm)
    fig, axs = plot_zdi.plot_energy_matrix(mgm, **kw)
    ctx.check(fingerprint(mgm) == before, "plotting changed the magnetogram")
    axs = list(np.atleast_1d(axs))
    ctx.equal(len(axs), len(types), "number of panels")
    ctx.check(all(x is y for x, y in zip(axs, kw.get("axs", axs))), "plotted in other axes than given")
    for ax, t in zip(axs, types):
        judge_matrix(ctx, ax, z, t, negative)
    ctx.describe("matrix", z, types, negative)


def judge_summary(ctx, axs, z):
    ctx.ev("summaries")
    ea, eb, eg = ref.zdi_energy(*z.args)
    f, _ = expected(z.l, z.m, ea, eb, eg)
    noise = 1e-6 * sum(np.sum(q) for q in ref.squares(*z.args))
    if 0 < min(np.sum(ea + eb), np.sum(eg)) < noise or 0 < max(np.sum(ea + eb), np.sum(eg)) < noise:
        return
    panels = [("total", [("poloidal", "magnetogram.poloidal.energy.fraction"), ("toroidal", "magnetogram.toroidal.energy.fraction"),
                         ("radial", "magnetogram.radial.energy.fraction"), ("axisymmetric", T + "axisymmetric.fraction")]),
              ("poloidal", [("dipole", T + "dipole.fraction"), ("quadrupole", T + "quadrupole.fraction"), ("octopole", T + "octopole.fraction"),
                            ("axisymmetric", T + "poloidal.axisymmetric.fraction")]),
              ("toroidal", [("1", T + "toroidal.l1.fraction"), ("2", T + "toroidal.l2.fraction"), ("3", T + "toroidal.l3.fraction"),
                            ("axisymmetric", T + "toroidal.axisymmetric.fraction")])]
    ctx.equal(len(axs), 3, "number of panels")
    for ax, (title, parts) in zip(axs, panels):
        if title == "toroidal" and not np.any(eg):
            continue
        ctx.check(title in ax.get_title().lower(), "title", title=ax.get_title(), due=title)
        want = {}
        for lab, key in parts:
            num, den = f[key]
            want[lab] = float(num / den) if den > 0 else 0.0
        wedges = [w for w in ax.patches if isinstance(w, Wedge) and w.get_visible()]
        ctx.ev("wedges", len(wedges))
        size = sorted(float(w.theta2 - w.theta1) for w in wedges)
        # Wedges are stored in single precision.
        ctx.close("angles of the wedges (%s)" % title, np.array(size), np.array(sorted(360 * v for v in want.values())), rtol=1e-4, scale=1.)
        leg = ax.get_legend()
        ctx.check(leg is not None, "no legend")
        names = [t.get_text() for t in leg.get_texts()]
        ctx.equal(len(names), len(parts), "number of legend entries")
        for h, t in zip(leg.legend_handles, names):
            hit = [lab for lab in want if lab in t.lower()]
            ctx.equal(len(hit), 1, "legend entry " + t)
            col = mcolors.to_rgba(h.get_facecolor())
            ok = [w for w in wedges if mcolors.to_rgba(w.get_facecolor()) == col and abs(w.theta2 - w.theta1 - 360 * want[hit[0]]) < 1e-3]
            ctx.check(len(ok) >= 1, "no wedge of the colour of %s has its size" % t, due=want[hit[0]],
                      wedges=[(w.theta2 - w.theta1, mcolors.to_hex(w.get_facecolor())) for w in wedges])
        pct = sorted(float(t.rstrip("%")) for t in figs.texts(ax) if t.endswith("%"))
        ctx.close("percentages (%s)" % title, np.array(pct), np.array(sorted(100 * v for v in want.values())), rtol=1., scale=.501)


def summary(ctx):
    rng = ctx.rng
    z = magnetogram(ctx)
    mgm = z.make()
    kw = {}
    if rng.random() < .5:
        kw["axs"] = plt.subplots(1, 3)[1]
    before = fingerprint(mgm)
    fig, axs = plot_zdi.plot_energy_summary(mgm, **kw)
    ctx.check(fingerprint(mgm) == before, "plotting changed the magnetogram")
    ctx.check(all(x is y for x, y in zip(axs, kw.get("axs", axs))) and fig is axs[0].figure, "plotted in other axes than given")
    judge_summary(ctx, axs, z)
    ctx.describe("summary", z)


CASES = {"by_degree": (by_degree, 100, 1500), "matrix": (matrix, 120, 1500), "summary": (summary, 70, 1000)}
CHUNK = 2
