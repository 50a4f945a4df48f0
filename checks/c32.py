"""C32: caching of spherical harmonics never changes results."""
import threading

import numpy as np
from starwinds_magnetogram import image_converter
from starwinds_magnetogram.geometry import ZdiGeometry
import ref

PROPERTY = "C32"
QUICK_SCALE = 2
RULE = ("random histories of evaluations with and without cache over many grids (some sharing their first angles, shape or sum), degrees and orders, with "
        "in-place changes of the returned arrays, also from several threads; a case is a history")
REQUIRE = dict(evaluations=5000, repeats=1000, in_place_changes=300, threads=20)
FN = image_converter.spherical_harmonic


def grids(rng):
    """Centres of related grids: same polar angles, same azimuths, same shape, permuted, shifted by little, transposed sizes."""
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    p = np.sort(rng.uniform(0, np.pi, n))
    a = np.sort(rng.uniform(0, 2 * np.pi, m))
    one = [(a, p), (a, p[::-1]), (a[::-1], p), (a + 2 * np.pi, p), (np.roll(a, 1), p), (a, np.pi - p), (-a, p), (p * 2, a / 2), (a, p + 1e-9),
           (a + 1e-6, p), (np.sort(rng.uniform(0, 2 * np.pi, m)), p), (a, np.sort(rng.uniform(0, np.pi, n))),
           (np.concatenate([a, [a[-1] + .1]]), p), (a[:max(1, m - 1)], p), (np.round(a), np.round(p))]
    # The same end points and length, sum, or start, and other values between.
    if n > 2:
        q = p.copy()
        q[1:-1] = np.sort(rng.uniform(p[0], p[-1], n - 2))
        one += [(a, q), (a, p[[0] + list(range(n - 2, 0, -1)) + [n - 1]])]
        q = p.copy()
        q[0] += .01
        q[-1] -= .01
        one.append((a, q))
    if m > 2:
        b = a.copy()
        b[1:-1] = np.sort(rng.uniform(a[0], a[-1], m - 2))
        one += [(b, p), (a[[0] + list(range(m - 2, 0, -1)) + [m - 1]], p)]
        b = a.copy()
        k = int(rng.integers(1, m))
        b[k:] += .01
        one.append((b, p))
    if rng.random() < .1:     # many angles one way
        q = np.sort(rng.uniform(0, np.pi, int(rng.integers(100, 700))))
        one += [(a[:2], q), (2 * q, p[:2])]
    out = [(np.broadcast_to(x[:, None], (len(x), len(y))).copy(), np.broadcast_to(y, (len(x), len(y))).copy()) for x, y in one]
    c = ZdiGeometry(int(rng.integers(2, 12)), int(rng.integers(2, 12))).centers()
    return out + [(c[1], c[0])]


def one(ctx, rng, az, pl, l, m, cached=True):
    want = ref.ylm(l, m, pl, az)
    b = az.copy(), pl.copy()
    args = (int(m), int(l)) if rng.random() < .7 else (np.int64(m), np.int64(l))
    got = FN(*args, az, pl) if cached else FN(*args, az, pl, use_cache=False)
    ctx.ev("evaluations")
    ctx.close("harmonic (%s)" % ("cached" if cached else "not cached"), got, want + 0j, rtol=1e-10, scale=np.sqrt(2 * l + 1), pair=(l, m))
    ctx.check(np.array_equal(az, b[0]) and np.array_equal(pl, b[1]), "changed the angles")
    return got


def history(ctx):
    rng = ctx.rng
    G = grids(rng)
    lms = [(int(l), int(m)) for l in rng.integers(0, 13, 6) for m in rng.integers(-l, l + 1, 2)]
    lms += [(l, -m) for l, m in lms[:4]]
    seen = []
    for step in range(40):
        if seen and rng.random() < .4:
            i, (l, m) = seen[int(rng.integers(len(seen)))]
            ctx.ev("repeats")
        else:
            i, (l, m) = int(rng.integers(len(G))), lms[int(rng.integers(len(lms)))]
        az, pl = G[i]
        cached = rng.random() < .85
        got = one(ctx, rng, az, pl, l, m, cached)
        if cached:
            # Both ways agree.
            ctx.close("cached against not cached", got, FN(m, l, az, pl, use_cache=False), rtol=1e-12, scale=np.sqrt(2 * l + 1), pair=(l, m))
        if rng.random() < .4:
            try:
                got *= -3
                got += 17
                got[...] = np.nan
                ctx.ev("in_place_changes")
            except ValueError:      # a read-only array cannot be changed by the caller either
                ctx.ev("in_place_changes")
        if rng.random() < .1:       # change the angle arrays that were passed earlier: a later call has its own angles
            k = int(rng.integers(len(G)))
            G[k][0][...] = np.sort(rng.uniform(0, 6, G[k][0].shape[0]))[:, None]
        seen.append((i, (l, m)))
    ctx.describe("history", step, len(G), lms, G[0][0][:2, 0].tolist())


def eviction(ctx):
    """More different evaluations than the cache holds, then the first ones again."""
    rng = ctx.rng
    az, pl = np.broadcast_to(np.sort(rng.uniform(0, 6, 2))[:, None], (2, 3)).copy(), np.broadcast_to(rng.uniform(0, 3, 3), (2, 3)).copy()
    todo = [(l, m) for l in range(34) for m in range(-l, l + 1)]
    first = [todo[i] for i in rng.permutation(len(todo))]
    for l, m in first:
        r = one(ctx, rng, az, pl, l, m)
        r += 5
    for l, m in first[:100] + first[-100:]:
        ctx.ev("repeats")
        one(ctx, rng, az, pl, l, m)
    ctx.describe("eviction", ctx.index)


def threads(ctx):
    rng = ctx.rng
    G = grids(rng)
    lms = [(int(l), int(m)) for l in rng.integers(0, 9, 4) for m in rng.integers(-l, l + 1, 2)]
    want = {(i, k): ref.ylm(*k, G[i][1], G[i][0]) for i in range(len(G)) for k in lms}
    bad = []

    def work(seed):
        r = np.random.default_rng(seed)
        for _ in range(60):
            i, k = int(r.integers(len(G))), lms[int(r.integers(len(lms)))]
            try:
                got = FN(k[1], k[0], *G[i])
                if not np.allclose(got, want[i, k], rtol=0, atol=1e-10 * np.sqrt(2 * k[0] + 1)):
                    bad.append((i, k))
                if got.flags.writeable:
                    got *= 2
            except Exception as e:
                bad.append(repr(e))
    ts = [threading.Thread(target=work, args=(int(rng.integers(2 ** 31)),)) for _ in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.ev("threads", 4)
    ctx.ev("evaluations", 240)
    ctx.check(not bad, "concurrent evaluations gave other results", first=bad[:3])
    ctx.describe("threads", lms)


CASES = {"history": (history, 150, 2500), "eviction": (eviction, 4, 40), "threads": (threads, 20, 300)}
CHUNK = 3
