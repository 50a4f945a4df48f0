"""C41: spectral orders partition the samples."""
import contextlib
import io
import numpy as np
from matplotlib.collections import PathCollection
from starwinds_magnetogram import plot_lsd
from vh import fingerprint

PROPERTY = "C41"
QUICK_SCALE = 4
RULE = ("random lists of wavelengths (one to hundreds of samples, none to many jumps, also next to each other and at the ends, rising, falling and mixed, jumps equal to the threshold) and "
        "thresholds; spectra plotted and read back; a case is the list with the threshold")
REQUIRE = dict(lists=600, jumps=3000, single_samples=50, spectra=15)


def wavelengths(rng):
    n = int(rng.choice([1, 2, 3, 5, 20, 200]))
    thr = float(rng.choice([.2, .2, .25, 1., rng.uniform(.01, 5)]))
    d = rng.uniform(0, 1, max(n - 1, 0)) * thr * .9
    p = rng.choice([0, .05, .3, .9, 1])
    jump = rng.random(n - 1) < p if n > 1 else np.zeros(0, bool)
    d = np.where(jump, thr * rng.uniform(1.1, 30, n - 1), d)
    if rng.random() < .2:     # exact numbers: steps equal to the threshold are no jumps
        thr = .25
        d = rng.choice([0, .125, .25, .25, .375, .5, 2.], n - 1)
    elif rng.random() < .25:  # steps just below and just above the threshold
        d = np.where(jump, thr * (1 + rng.choice([1e-5, 1e-7, 1e-9], n - 1)), np.where(rng.random(n - 1) < .5, d, thr * (1 - rng.choice([1e-5, 1e-7, 1e-9], n - 1)))) if n > 1 else d
        d = np.where(d > thr * 1.05, thr * (1 + 1e-8), d)
    k = rng.integers(4)
    if k == 1:
        d = -d
    elif k == 2:
        d = d * rng.choice([-1, 1], n - 1)
    x = np.concatenate([[float(np.round(rng.uniform(300, 1000) * 8) / 8)], d]).cumsum()
    return x, thr


def intervals(x, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return list(plot_lsd.wl_intervals(x, *a, **k))


def lists(ctx):
    rng = ctx.rng
    x, thr = wavelengths(rng)
    given = [x, x.tolist(), x[None, :][0]][rng.integers(3)] if len(x) > 1 else x
    before = fingerprint(given)
    iv = intervals(given) if thr == .2 else intervals(given, thr) if rng.random() < .5 else intervals(given, threshold=thr)
    ctx.check(fingerprint(given) == before, "wavelengths changed")
    ctx.ev("lists")
    ctx.check(all(len(i) == 2 and int(i[0]) == i[0] and int(i[1]) == i[1] for i in iv), "not index ranges", got=iv)
    got = [i for a, b in iv for i in range(int(a), int(b))]
    ctx.equal(got, list(range(len(x))), "samples in the intervals", intervals=[(int(a), int(b)) for a, b in iv], wavelengths=x.tolist()[:50])
    ctx.check(all(a < b for a, b in iv), "empty interval", got=iv)
    d = np.abs(np.diff(x))
    for n, (a, b) in enumerate(iv):
        a, b = int(a), int(b)
        ctx.check(np.all(d[a:b - 1] <= thr), "a jump inside an interval", interval=(a, b), steps=d[a:b - 1])
        if n:
            ctx.ev("jumps")
            ctx.check(d[a - 1] > thr, "no jump between two intervals", step=d[a - 1], threshold=thr)
        if b - a == 1:
            ctx.ev("single_samples")
    ctx.describe("list", x.tolist(), thr)


def spectra(ctx):
    rng = ctx.rng
    x, _ = wavelengths(rng)
    n = len(x)
    d = np.column_stack([x] + [rng.normal(size=n) for _ in range(4)] + [np.abs(rng.normal(size=n)) + 1e-3])
    before = fingerprint(d)
    with contextlib.redirect_stdout(io.StringIO()):
        fig = plot_lsd.plot_spectrum(d) if rng.random() < .6 else plot_lsd.plot_spectrum(d, size=1., alpha=.5, colormap="plasma")
    ctx.check(fingerprint(d) == before, "plotting changed the data")
    ctx.ev("spectra")
    ctx.equal(len(fig.axes), 5, "number of panels")
    for col, ax in enumerate(fig.axes, 1):
        pts = [np.asarray(c.get_offsets(), float) for c in ax.collections if isinstance(c, PathCollection)]
        pts = np.concatenate(pts) if pts else np.zeros((0, 2))
        ctx.equal(len(pts), n, "number of samples drawn")
        want = d[:, [0, col]]
        ctx.close("samples drawn", pts[np.lexsort(pts.T)], want[np.lexsort(want.T)], rtol=1e-12, column=col)
        lo, hi = sorted(ax.get_xlim())
        ctx.check(lo <= x.min() and hi >= x.max(), "samples outside the panel")
    ctx.describe("spectrum", x.tolist()[:20], n)


CASES = {"lists": (lists, 1500, 60000), "spectra": (spectra, 24, 300)}
