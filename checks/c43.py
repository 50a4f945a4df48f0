"""C43: Fibonacci points are spread evenly over the unit sphere."""
import random
import numpy as np
from scipy.spatial import cKDTree
from starwinds_magnetogram.fibonacci_sphere import fibonacci_sphere

PROPERTY = "C43"
QUICK_SCALE = 8
RULE = ("every number of points from 1 to a few hundred and random larger ones, with and without randomisation and with other random numbers drawn in between; a case is the number")
REQUIRE = dict(spheres=400, points=100000, randomised=200)


def judge(ctx, n, p, turned):
    p = np.asarray(p)
    ctx.ev("spheres")
    ctx.ev("points", n)
    ctx.check(p.shape == (n, 3) and p.dtype.kind == "f", "not n points", shape=p.shape)
    ctx.close("length", np.sum(p ** 2, axis=1), np.ones(n), rtol=1e-12)
    # One per band of equal area. The bands are along one of the axes (the second one).
    ctx.close("heights", np.sort(p[:, 1]), (2 * np.arange(n) + 1) / n - 1, rtol=1e-11, scale=1.)
    if n > 1:
        d = cKDTree(p).query(p, k=2)[0][:, 1]
        # The mean spacing is about sqrt(4 pi / n) = 3.5 / sqrt(n).
        ctx.check(np.min(d) > (1e-9 if turned else 1.0) / np.sqrt(n), "points too close to each other", distance=np.min(d) * np.sqrt(n), n=n)
    # The azimuth advances by the golden angle (in either sense), but for at most one place per randomisation and the wrap around.
    if n > 3:
        q = p[np.argsort(p[:, 1])]
        step = np.diff(np.arctan2(q[:, 2], q[:, 0]))
        g = np.pi * (3 - np.sqrt(5))
        off = [np.abs((step - s * g + np.pi) % (2 * np.pi) - np.pi) for s in (1, -1)]
        jumps = min(np.sum(o > 1e-6) for o in off)
        ctx.check(jumps <= 1, "the points are not on a spiral", n=n, places=jumps)


def case(ctx):
    rng = ctx.rng
    n = ctx.index + 1
    if ctx.index >= 260 or ctx.kind == "large":
        n = int(10 ** rng.uniform(2, 3.7 if ctx.tier == "quick" else 4.7))
    a = fibonacci_sphere(n)
    judge(ctx, n, a, False)
    keep = a.copy()
    state = random.getstate(), np.random.get_state()[1].tolist()
    ctx.same("points again", fibonacci_sphere(n, False), keep)
    ctx.check((random.getstate(), np.random.get_state()[1].tolist()) == state, "random numbers drawn without randomisation")
    b = fibonacci_sphere(n, True) if rng.random() < .5 else fibonacci_sphere(n, randomize=True)
    ctx.ev("randomised")
    judge(ctx, n, b, True)
    if n > 3:      # a turn of its own for every randomisation
        ctx.check(any(np.max(np.abs(np.asarray(fibonacci_sphere(n, True)) - b)) > 1e-9 for _ in range(3)), "randomising repeats the same points", n=n)
    a[...] = 0       # what is returned does not share memory with later results
    ctx.same("points after randomisation", fibonacci_sphere(n), keep)
    ctx.describe(n)


CASES = {"small": (case, 260, 260), "large": (case, 30, 600)}
