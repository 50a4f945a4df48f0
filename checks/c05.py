"""C05: conversion between coefficient sets and arrays loses nothing."""
import numpy as np
import starwinds_magnetogram.coefficients as shc
import gen

PROPERTY = "C05"
QUICK_SCALE = 8
RULE = ("random sets listed with every combination of degree and order limits, and built from shuffled arrays, lists and scalars; "
        "a case is the set with the limits")
REQUIRE = dict(listings=1500, builds=500, refusals=300)


def listing(ctx):
    rng = ctx.rng
    ncol = int(rng.integers(1, 4))
    lmax = gen.top(rng, rng.choice([0, 1, 2, 4, 7, 12]), (25, 40, 60))
    d = rng.normal(size=ncol) + 1j if rng.random() < 0.3 else np.zeros(ncol, complex)
    pairs = gen.lm_pairs(rng, lmax=lmax, negative=bool(rng.random() < .6))
    c = gen.build(pairs, list(gen.values(rng, (len(pairs), ncol))), d.copy())
    M = gen.model(c)
    for _ in range(12):
        kw = {}
        if rng.random() < 0.5:
            kw["degree_l_min"] = int(rng.integers(0, lmax + 1))
        if rng.random() < 0.5:
            kw["degree_l_max"] = int(rng.integers(kw.get("degree_l_min", 0), lmax + 4))
        if rng.random() < 0.5:
            kw["order_m_min"] = int(rng.integers(-lmax - 2, lmax + 1))
        if rng.random() < 0.5:
            kw["order_m_max"] = int(rng.integers(kw.get("order_m_min", -lmax - 1), lmax + 3))
        unset = [True, False, None][int(rng.integers(3))]
        lo, hi = kw.get("degree_l_min", 0), kw.get("degree_l_max", int(c.degree_max))
        mlo, mhi = kw.get("order_m_min", -hi), kw.get("order_m_max", hi)
        grid = [(l, m) for l in range(lo, hi + 1) for m in range(-l, l + 1) if mlo <= m <= mhi]
        if not grid:
            continue   # nothing requested
        if unset is not None:
            kw["include_unset"] = unset
        want = grid if unset in (True, None) else [k for k in grid if k in M]
        L, O, V = c.as_arrays(**kw)
        ctx.ev("listings")
        ctx.equal([(int(l), int(m)) for l, m in zip(L, O)], want, "listed pairs", limits=kw)
        ctx.equal(len(V), len(want), "number of listed values", limits=kw)
        if want:
            ctx.same("listed values", V, np.array([M.get(k, d) for k in want]), limits=kw)
            ctx.check(V.dtype == complex and np.asarray(L).dtype.kind in "iu" and np.asarray(O).dtype.kind in "iu",
                      "number types of the listing")
    ctx.describe(ncol, lmax, sorted(M)[:8])


def building(ctx):
    rng = ctx.rng
    ncol = int(rng.choice([0, 1, 2, 3]))     # 0: one-dimensional array of values
    pairs = gen.lm_pairs(rng, lmax=gen.top(rng, rng.choice([0, 1, 3, 6, 12]), (25, 40, 120)), negative=bool(rng.random() < .6))
    pairs = [pairs[i] for i in rng.permutation(len(pairs))]
    n = len(pairs)
    v = gen.values(rng, (n, max(1, ncol)))
    l, m = (np.array(x) for x in zip(*pairs))
    arg = v[:, 0].copy() if ncol == 0 else v.copy()
    kind = rng.choice(["arrays", "lists", "scalars", "int32"])
    if kind == "lists":
        args = (l.tolist(), m.tolist(), arg.tolist())
    elif kind == "int32":
        args = (l.astype(np.int32), m.astype(np.int16), arg)
    elif kind == "scalars" and n == 1 and ncol < 2:
        args = (int(l[0]), int(m[0]), complex(v[0, 0]))
    else:
        args = (l, m, arg)
    c = shc.from_arrays(*args)
    ctx.ev("builds")
    M = gen.model(c)
    ctx.equal(sorted(M), sorted(pairs), "pairs of the set built")
    for k, x in zip(pairs, v):
        ctx.same("value", M[k], x, pair=k)
        ctx.same("value by get", c.get(*k), x, pair=k)
    ctx.same("default", c.default_coefficients, np.zeros(v.shape[1], complex))
    # Round trip.
    L, O, V = c.as_arrays(include_unset=False)
    back = gen.model(shc.from_arrays(L, O, V))
    ctx.equal(sorted(back), sorted(M), "pairs after listing and rebuilding")
    for k in M:
        ctx.same("value after listing and rebuilding", back[k], M[k], pair=k)
    full = shc.from_arrays(*c.as_arrays())
    ctx.check(shc.allclose(full, c, rtol=0, atol=0), "listing with unset coefficients and rebuilding gives another set")
    # Refusals.
    j = int(rng.integers(n))
    for what, bad in (("repeated pair", (np.append(l, l[j]), np.append(m, m[j]), np.concatenate([arg, arg[j:j + 1]]))),
                      ("more values", (l, m, np.concatenate([arg, arg[:1]]))),
                      ("more orders", (l, np.append(m, 0), arg)),
                      ("more degrees", (np.append(l, 70), m, arg)),
                      ("fewer values", (np.append(l, 70), np.append(m, 0), arg)),
                      ("no values", (l, m, arg[:0]))):
        e = ctx.refused(lambda: shc.from_arrays(*bad), "from_arrays did not refuse: " + what)
    ctx.describe(ncol, kind, pairs[:10])


CASES = {"listing": (listing, 500, 8000), "building": (building, 600, 8000)}
