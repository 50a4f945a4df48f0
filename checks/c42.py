"""C42: colour-bar tick marks sit at the values of their labels."""
import re
import numpy as np
from matplotlib import colors
from matplotlib import pyplot as plt
from starwinds_magnetogram import colorbar_manual_tickmarks as ct

PROPERTY = "C42"
QUICK_SCALE = 3
RULE = ("random symmetric-logarithmic colour bars (limits over many decades, symmetric or not, thresholds, steps, both orientations) with their ticks read back after "
        "drawing; random exponent ranges; random labels; a case is the scale with the step, or the label")
REQUIRE = dict(colour_bars=80, major_ticks=500, minor_ticks=2000, labels=500, lists=100)


def value(label):
    label = label.strip("$").replace("\u2212", "-")
    if label == "0":
        return 0.0
    m = re.fullmatch(r"(-?)\s*10\^\{\s*(-?\d+)\s*\}", label)
    return float(m.group(1) + "1e" + m.group(2)) if m else None


def multiples(x):
    """Whether these are integer multiples, up to ten, of powers of ten."""
    x = np.abs(np.asarray(x, float))
    x = x[x > 0]
    m = x / 10.0 ** np.floor(np.log10(x) + 1e-9)
    return np.all(np.abs(m - np.round(m)) < 1e-6)


def bars(ctx):
    rng = ctx.rng
    top = float(10.0 ** rng.uniform(-6, 7))
    if rng.random() < .3:
        top = float(10.0 ** int(rng.integers(-6, 8)))
    lin = float(top / 10.0 ** rng.uniform(.5, 7))
    if rng.random() < .3:
        lin = float(10.0 ** np.floor(np.log10(lin)))
    k = rng.integers(3)
    vmin = -top if k < 2 else -top * float(10.0 ** rng.uniform(-2, .5))
    step = int(rng.choice([1, 1, 2, 3]))
    orient = ["horizontal", "vertical"][rng.integers(2)]
    norm = colors.SymLogNorm(linthresh=lin, vmin=vmin, vmax=top, base=10, linscale=float(rng.choice([1, .5, 2])))
    fig, ax = plt.subplots()
    im = ax.imshow(rng.normal(size=(4, 4)) * top, norm=norm)
    cb = fig.colorbar(im, orientation=orient)
    kw = {}
    if step != 1 or rng.random() < .5:
        kw["major_tick_step"] = step
    if orient == "vertical":
        kw["axis"] = "y"
    elif rng.random() < .5:
        kw["axis"] = "x"
    ct.auto_symlog_tickmarks(cb, **kw)
    ctx.check((norm.vmin, norm.vmax, norm.linthresh) == (vmin, top, lin), "the scale changed")
    fig.canvas.draw()
    ctx.ev("colour_bars")
    axis = cb.ax.xaxis if orient == "horizontal" else cb.ax.yaxis
    pos = np.asarray(axis.get_majorticklocs(), float)
    labels = [t.get_text() for t in axis.get_majorticklabels()]
    ctx.equal(len(labels), len(pos), "number of labels")
    ctx.ev("major_ticks", len(pos))
    got = set()
    for p, t in zip(pos, labels):
        v = value(t)
        ctx.check(v is not None, "label is not a signed power of ten or zero", label=t)
        ctx.close("tick position", float(p), v, rtol=1e-9, scale=abs(v), label=t)
        ctx.check(vmin * (1 + 1e-9) <= p <= top * (1 + 1e-9), "tick outside the scale", tick=p, scale=(vmin, top))
        got.add(v)
    ctx.equal(len(got), len(pos), "number of distinct ticks")
    lo, hi = int(np.floor(np.log10(lin))), int(np.floor(np.log10(top)))
    want = {0.0}
    for e in range(lo, hi + 1, step):
        want |= {s * float("1e%d" % e) for s in (1, -1)}
    edge = {v for v in want if min(abs(v / top - 1), abs(v / vmin - 1)) < 1e-9}
    inside = {v for v in want if vmin <= v <= top} - edge
    ctx.check(got - edge == inside, "ticks are not the powers of ten of the scale", got=sorted(got), due=sorted(inside))
    minor = np.asarray(axis.get_minorticklocs(), float)
    ctx.ev("minor_ticks", len(minor))
    ctx.check(multiples(minor), "minor ticks are not at multiples of powers of ten", ticks=minor)
    ctx.check(np.all((minor >= vmin * (1 + 1e-9)) & (minor <= top * (1 + 1e-9))), "minor tick outside the scale", ticks=minor, scale=(vmin, top))
    for e in range(lo, hi):
        for d in range(2, 10):
            v = d * 10.0 ** e
            ctx.check(not vmin < v < top or np.any(np.abs(minor / v - 1) < 1e-6), "minor tick missing", due=v)
    # Where the ticks are on the bar is where the scale has these values.
    allp = np.concatenate([pos, minor])
    xy = np.stack([allp, 0 * allp], -1) if orient == "horizontal" else np.stack([0 * allp, allp], -1)
    trans = cb.ax.transData
    frac = cb.ax.transAxes.inverted().transform(trans.transform(xy))[:, 0 if orient == "horizontal" else 1]
    ctx.close("place on the colour bar", frac, np.asarray(norm(allp), float), rtol=1e-6, scale=1.)
    ctx.describe("bar", top, lin, vmin, step, orient)


def lists(ctx):
    rng = ctx.rng
    lo = int(rng.integers(-8, 6))
    hi = lo + int(rng.integers(0, 10))
    step = int(rng.choice([1, 1, 2, 3, 5]))
    v, t = ct.generate_major(lo, hi, step)
    ctx.ev("lists")
    ctx.equal(len(v), len(t), "number of labels")
    exps = range(lo, hi + 1, step)
    ctx.close("major values", np.asarray(v, float), np.array([-float("1e%d" % e) for e in reversed(exps)] + [0.] + [float("1e%d" % e) for e in exps]), rtol=1e-9,
              scale=np.maximum(np.abs(np.asarray(v, float)), 1e-300))
    for a, b in zip(v, t):
        x = value(b)
        ctx.check(x is not None, "label", label=b)
        ctx.close("value of a label", float(a), x, rtol=1e-9, scale=abs(x), label=b)
    m = np.asarray(ct.generate_minor(lo, hi, step), float)
    ctx.check(multiples(m), "minor values are not multiples of powers of ten", values=m)
    ctx.check(np.all(np.diff(m) > 0), "minor values not increasing", values=m)
    ctx.close("minor values are symmetric", m, -m[::-1], rtol=1e-9, scale=np.abs(m) + 1e-300)
    for e in range(lo, hi):
        for d in range(1, 10):
            for s in (1, -1):
                ctx.check(np.any(np.abs(m - s * d * 10.0 ** e) < 1e-6 * 10.0 ** e), "minor value missing", due=s * d * 10.0 ** e)
    ctx.describe("lists", lo, hi, step)


def labels(ctx):
    rng = ctx.rng
    for _ in range(10):
        e = int(rng.integers(-30, 31))
        left, right = str(rng.choice(["$10^{", "$-10^{", r"$3 \times 10^{", r"+1\cdot10^{", "{"])), str(rng.choice(["}$", "} T$", "}", "}$ mm{2}"]))
        s = left + str(e) + right
        k = rng.integers(3)
        shift = 4 if k == 0 else int(rng.integers(-9, 10))
        got = ct.tesla_to_gauss(s) if k == 0 else ct.tesla_to_gauss(s, shift) if k == 1 else ct.tesla_to_gauss(s, exponent_shift=shift)
        ctx.ev("labels")
        ctx.equal(got, left + str(e + shift) + right, "label in gauss", label=s)
        plain = str(rng.choice(["0", "", "$0$", "1.5", "-20", "text", "$B_r$"]))
        ctx.equal(ct.tesla_to_gauss(plain), plain, "label without exponent", label=plain)
        ctx.describe(s, shift)


CASES = {"bars": (bars, 120, 2000), "lists": (lists, 150, 3000), "labels": (labels, 80, 1500)}
CHUNK = 3
