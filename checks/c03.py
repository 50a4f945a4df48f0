"""C03: arithmetic on coefficient sets acts on each coefficient separately."""
import numpy as np
import starwinds_magnetogram.coefficients as shc
import gen

PROPERTY = "C03"
QUICK_SCALE = 6
RULE = ("operations and short expressions on random sparse sets (1-4 values per coefficient, both signs of the order), compared "
        "pair by pair with arithmetic on dictionaries; a case is the operation with its operands")
REQUIRE = dict(results=300, pairs=1500, refusals=100)


def compare(ctx, name, got, want, scale=None, rtol=4e-15):
    ctx.ev("results")
    g = gen.model(got)
    ctx.equal(sorted(g), sorted(want), name + ": the pairs of the result")
    for k, w in want.items():
        ctx.ev("pairs")
        s = np.abs(w) if scale is None else scale[k]
        ctx.close(name, g[k], w, rtol=rtol, scale=s, pair=k)
        ctx.same(name + " (by get)", got.get(*k), g[k])
    ctx.equal(int(got.degree_max), max([l for l, _ in want] + [0]), name + ": highest degree")
    if want:
        l = max(a for a, _ in want) + 1
        ctx.same(name + ": absent coefficient", got.get(l, 0), np.zeros_like(list(want.values())[0]))


def arithmetic(ctx):
    rng = ctx.rng
    ncol = int(rng.integers(1, 5))
    neg = bool(rng.random() < 0.5)
    a, b, c = (gen.coeffs(rng, ncol, lmax=gen.top(rng, rng.integers(0, 9), (30, 70, 110)), negative=neg, magnitude=10.0 ** rng.integers(-5, 6)) for _ in range(3))
    A, B, C = (gen.model(x) for x in (a, b, c))
    zero = np.zeros(ncol, complex)
    union = sorted(set(A) | set(B))

    def get(M, k):
        return M.get(k, zero)

    def sc(*Ms):
        return {k: sum(np.abs(get(M, k)) for M in Ms) for k in set().union(*Ms)}

    ks = [2, -3, 0, 1, 0.37, -1e-7, 1e9, 1 + 2j, -1j, np.float64(2.5), np.complex128(1 - 1j), np.int64(3), np.float32(0.5),
          2 + 1e-7j, 1 + 1e-10, -1e-8 + 3j, 0.5 - 1e-9j]
    k = ks[int(rng.integers(len(ks)))]
    kk = complex(k)
    compare(ctx, "sum", a + b, {p: get(A, p) + get(B, p) for p in union}, sc(A, B))
    compare(ctx, "difference", a - b, {p: get(A, p) - get(B, p) for p in union}, sc(A, B))
    compare(ctx, "difference with itself", a - a, {p: zero for p in A}, sc(A))
    compare(ctx, "product", a * b, {p: get(A, p) * get(B, p) for p in union})
    compare(ctx, "product with a number", a * k, {p: A[p] * kk for p in A})
    compare(ctx, "number times set", k * a, {p: A[p] * kk for p in A})
    if kk != 0:
        compare(ctx, "quotient", a / k, {p: A[p] / kk for p in A})
    n = [0, 1, 2, 3, 5, 0.5, 2.0][int(rng.integers(7))]
    compare(ctx, "power", a ** n, {p: A[p] ** n for p in A}, rtol=1e-11)
    if all(np.all(v != 0) for v in A.values()):
        compare(ctx, "negative power", a ** -1, {p: 1 / A[p] for p in A}, rtol=1e-11)

    fns = [lambda l, m: 2.0 * l + 1, lambda l, m: l - m, lambda l, m: (-1.0) ** m / (l + 1), lambda l, m: 1j * m + 1,
           lambda l, m: np.float64(l * l + 0.5 * m + 30.25), lambda l, m: float(l == 2)]
    f = fns[int(rng.integers(len(fns)))]
    compare(ctx, "scaling", a.scale(f), {p: A[p] * f(*p) for p in A})
    compare(ctx, "scaling (function)", shc.scale(a, f), {p: A[p] * f(*p) for p in A})
    f = fns[4]
    q = [-1, 2, 0.5, -2][int(rng.integers(4))]
    compare(ctx, "scaling to a power", a.scale(f, q), {p: A[p] * f(*p) ** q for p in A}, rtol=1e-11)

    for lim in {0, int(rng.integers(0, 10)), a.degree_max, a.degree_max - 1, 50}:
        compare(ctx, "truncation", a.truncated(lim), {p: A[p] for p in A if p[0] <= lim}, rtol=0)
        compare(ctx, "truncation (function)", shc.truncated(a, lim), {p: A[p] for p in A if p[0] <= lim}, rtol=0)
    compare(ctx, "zeroed", shc.zeros_like(a), {p: zero for p in A})
    compare(ctx, "emptied", shc.empty_like(a), {})
    compare(ctx, "copy", a.copy(), A, rtol=0)
    compare(ctx, "sum with an empty set", a + shc.empty_like(a), A, rtol=0)
    compare(ctx, "empty set minus", shc.empty_like(a) - a, {p: -A[p] for p in A}, rtol=0)
    compare(ctx, "expression", 2 * a + b * c - a / 4,
            {p: 2 * get(A, p) + get(B, p) * get(C, p) - get(A, p) / 4 for p in set(A) | set(B) | set(C)},
            {p: 3 * np.abs(get(A, p)) + np.abs(get(B, p) * get(C, p)) for p in set(A) | set(B) | set(C)}, rtol=1e-11)
    if ncol > 1:
        v = rng.normal(size=ncol)
        compare(ctx, "product with one number per value", a * v, {p: A[p] * v for p in A})
    ctx.describe(ncol, k, n, sorted(A)[:6], sorted(B)[:6])


def kinds(ctx):
    """Sets of integers, real numbers and single-precision numbers, also combined with each other; sizes that do not match."""
    rng = ctx.rng
    ncol = int(rng.integers(1, 4))
    names = ["int", "float", "complex", "float32", "complex64"]

    def make():
        kind = names[int(rng.integers(5))]
        pairs = gen.lm_pairs(rng, lmax=gen.top(rng, rng.integers(1, 7)))
        v = rng.integers(-9, 10, size=(len(pairs), ncol)) * np.array(1 if kind == "int" else 0.5)
        if kind.startswith("complex"):
            v = v + 0.25j * rng.integers(-9, 10, size=v.shape)
        v = v.astype(dict(int=int, float=float, complex=complex, float32=np.float32, complex64=np.complex64)[kind])
        l, m = np.array(pairs).T
        c = shc.from_arrays(l, m, v if ncol > 1 or rng.random() < 0.5 else v[:, 0])
        ctx.ev("sets of " + kind)
        return kind, c, {p: x.astype(complex) for p, x in zip(pairs, v)}

    (ka, a, A), (kb, b, B) = make(), make()
    zero = np.zeros(ncol, complex)
    single = "32" in ka + kb or "64" in ka + kb
    r = 3e-6 if single else 4e-15

    def get(M, k):
        return M.get(k, zero)

    union = sorted(set(A) | set(B))
    compare(ctx, "sum of a set of %s and one of %s" % (ka, kb), a + b, {p: get(A, p) + get(B, p) for p in union}, rtol=r, scale={p: 1.0 for p in union})
    compare(ctx, "difference of %s and %s" % (ka, kb), a - b, {p: get(A, p) - get(B, p) for p in union}, rtol=r, scale={p: 1.0 for p in union})
    compare(ctx, "product of %s and %s" % (ka, kb), a * b, {p: get(A, p) * get(B, p) for p in union}, rtol=r, scale={p: 1.0 for p in union})
    for k in (2, 0.5, -1.25, 1j, 0.5 - 2j, np.float64(1.5), np.complex128(1j), np.int64(-3)):
        compare(ctx, "%s times %r" % (ka, k), a * k, {p: A[p] * complex(k) for p in A}, rtol=r, scale={p: 1.0 for p in A})
        compare(ctx, "%r times %s" % (k, ka), k * a, {p: A[p] * complex(k) for p in A}, rtol=r, scale={p: 1.0 for p in A})
    for k in (2, 4.0, -8, 0.3, 2j):
        compare(ctx, "%s divided by %r" % (ka, k), a / k, {p: A[p] / k for p in A}, rtol=r)
    compare(ctx, "square of " + ka, a ** 2, {p: A[p] ** 2 for p in A}, rtol=r)
    if ka.startswith("complex") or all(np.all(v.real >= 0) for v in A.values()):
        compare(ctx, "root of " + ka, a ** 0.5, {p: A[p] ** 0.5 for p in A}, rtol=r * 10)
    v = rng.integers(-4, 5, size=ncol) * 0.5
    compare(ctx, "%s times one number per value" % ka, a * v, {p: A[p] * v for p in A}, rtol=r)
    compare(ctx, "first operand afterwards", a, A, rtol=0)
    compare(ctx, "second operand afterwards", b, B, rtol=0)

    other = gen.coeffs(rng, ncol + int(rng.integers(1, 3)), lmax=3)
    for name, f in (("sum", lambda: a + other), ("sum", lambda: other + a), ("difference", lambda: a - other),
                    ("product", lambda: a * other), ("product", lambda: other * a)):
        ctx.ev("refusals")
        ctx.refused(f, "the %s of sets with %d and %d values was not refused" % (name, ncol, other.default_coefficients.size))
    ctx.describe(ka, kb, ncol, sorted(A)[:6], sorted(B)[:6])


CASES = {"kinds": (kinds, 300, 6000), "arithmetic": (arithmetic, 800, 20000)}
