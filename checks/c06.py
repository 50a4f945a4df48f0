"""C06: comparison of coefficient sets looks at every coefficient."""
import numpy as np
import starwinds_magnetogram.coefficients as shc
import gen

PROPERTY = "C06"
QUICK_SCALE = 4
RULE = ("pairs of sets equal up to one changed, removed or added value just inside or outside the tolerance, plus unrelated sets; "
        "a case is the two sets with the tolerances")
REQUIRE = dict(close=200, not_close=300, elementwise=300)


def verdict(ctx, a, b, want, message, **kw):
    r = shc.allclose(a, b, **kw)
    ctx.ev("close" if want else "not_close")
    ctx.check(isinstance(r, (bool, np.bool_)), message + ": not a truth value", got=r)
    ctx.check(bool(r) == want, message + ": allclose returned %s" % r, tolerances=kw)


def elementwise(ctx, a, b, want, message, **kw):
    """want: {pair: array of truth values}"""
    r = shc.isclose(a, b, **kw)
    ctx.ev("elementwise")
    R = [((int(l), int(m)), np.array(v)) for (l, m), v in r.contents()]
    ctx.equal([k for k, _ in R], sorted(want), message + ": pairs reported")
    unset = max([l for (l, m), _ in R], default=0) + 1 + int(ctx.rng.integers(3))
    v = np.asarray(r.get(unset, int(ctx.rng.integers(-unset, unset + 1))))
    ctx.check(v.shape == a.default_coefficients.shape and v.dtype == bool and bool(np.all(v)), message + ": a pair missing from both is not close", got=v)
    for k, v in R:
        ctx.check(v.dtype == bool, message + ": not truth values", got=v)
        ctx.same(message, v, want[k], pair=k)


def one_difference(ctx):
    rng = ctx.rng
    ncol = int(rng.integers(1, 4))
    a = gen.coeffs(rng, ncol, lmax=gen.top(rng, rng.integers(0, 8), (25, 40, 120)), negative=bool(rng.random() < .5), magnitude=1.0)
    A = gen.model(a)
    keys = sorted(A)
    # Every position in turn, in each role.
    for k in [keys[i] for i in rng.permutation(len(keys))[:6]]:
        j = int(rng.integers(ncol))
        v = abs(A[k][j])
        rtol, atol = [(0, 1e-3), (1e-3, 0), (1e-6, 1e-5), (0, 1e-12), (1e-2, 1e-4)][int(rng.integers(5))]
        allow = atol + rtol * v
        direction = np.exp(2j * np.pi * rng.random())
        for factor, inside in ((0.5, True), (2.0, False), (50.0, False)):
            if allow < 1e-11 * v or allow == 0:
                if inside:
                    continue
                delta = max(1.0, v) * factor
            else:
                delta = factor * allow
            b = a.copy()
            x = A[k].copy()
            x[j] += delta * direction
            b.set(k[0], k[1], x)
            want = {p: np.ones(ncol, bool) for p in keys}
            want[k][j] = inside
            for p, q, tag in ((a, b, "changed value second"), (b, a, "changed value first")):
                verdict(ctx, p, q, inside, tag, rtol=rtol, atol=atol)
                elementwise(ctx, p, q, want, tag, rtol=rtol, atol=atol)
        # The coefficient is missing from one of the sets.
        b = gen.build([p for p in keys if p != k], [A[p] for p in keys if p != k], np.zeros(ncol, complex))
        near = {p: (np.abs(A[p]) <= 1e-9) if p == k else np.ones(ncol, bool) for p in keys}
        far = np.any(np.abs(A[k]) > 2e-9)
        if not np.any((np.abs(A[k]) > 0) & (np.abs(A[k]) < 4e-9)):
            for p, q, tag in ((a, b, "missing from the second"), (b, a, "missing from the first")):
                verdict(ctx, p, q, not far, tag, rtol=0, atol=1e-9)
                elementwise(ctx, p, q, near, tag, rtol=0, atol=1e-9)
        z = a.copy()
        z.set(k[0], k[1], np.zeros(ncol))
        verdict(ctx, z, b, True, "zero against missing", rtol=0, atol=0)
        verdict(ctx, b, z, True, "missing against zero", rtol=0, atol=0)
    verdict(ctx, a, a, True, "a set and itself")
    verdict(ctx, a, a.copy(), True, "a set and its copy", rtol=0, atol=0)
    extra = a.copy()
    l = int(a.degree_max) + 1
    extra.append(l, int(rng.integers(-l, l + 1)), np.ones(ncol))
    verdict(ctx, a, extra, False, "an additional coefficient in the second")
    verdict(ctx, extra, a, False, "an additional coefficient in the first")
    ctx.describe(ncol, keys[:8], rtol, atol)


def shapes(ctx):
    rng = ctx.rng
    n1, n2 = (int(x) for x in rng.choice([1, 2, 3, 4], 2, replace=False))
    pairs = gen.lm_pairs(rng, lmax=4)
    v = complex(rng.normal(), rng.normal())
    a = gen.build(pairs, [np.full(n1, v)] * len(pairs))
    b = gen.build(pairs, [np.full(n2, v)] * len(pairs))
    verdict(ctx, a, b, False, "different numbers of values")
    verdict(ctx, b, a, False, "different numbers of values")
    ea, eb = shc.empty_like(a), shc.empty_like(b)
    verdict(ctx, ea, eb, False, "empty sets with different numbers of values")
    verdict(ctx, ea, shc.empty_like(a), True, "empty sets")
    elementwise(ctx, ea, shc.empty_like(a), {}, "empty sets")
    verdict(ctx, a, ea, v == 0, "a set and an empty one")
    verdict(ctx, ea, a, v == 0, "an empty set and another")
    # Defaults stand for missing values.
    d = np.full(n1, v)
    da = gen.build(pairs[:1], [d], d.copy())
    db = gen.build(pairs, [d] * len(pairs), d.copy())
    verdict(ctx, da, db, True, "values equal to the default of the other set")
    verdict(ctx, db, da, True, "values equal to the default of the other set")
    db.set(*pairs[-1], d + 1)
    verdict(ctx, db, da, False, "a value different from the default of the other set") if len(pairs) > 1 else None
    ctx.describe(n1, n2, pairs[:6])


def unrelated(ctx):
    rng = ctx.rng
    ncol = int(rng.integers(1, 4))
    a, b = (gen.coeffs(rng, ncol, lmax=5, negative=True, magnitude=1.0) for _ in range(2))
    A, B = gen.model(a), gen.model(b)
    keys = sorted(set(A) | set(B))
    z = np.zeros(ncol, complex)
    atol = float(10.0 ** rng.uniform(-1, 1))
    diff = {k: np.abs(A.get(k, z) - B.get(k, z)) for k in keys}
    if min(np.min(np.abs(d - atol)) for d in diff.values()) < 1e-9:
        atol *= 1.0001
    want = {k: d <= atol for k, d in diff.items()}
    elementwise(ctx, a, b, want, "unrelated sets", rtol=0, atol=atol)
    verdict(ctx, a, b, all(np.all(w) for w in want.values()), "unrelated sets", rtol=0, atol=atol)
    ctx.describe(ncol, atol, keys[:8])


CASES = {"one_difference": (one_difference, 500, 9000), "shapes": (shapes, 200, 2000), "unrelated": (unrelated, 400, 5000)}
