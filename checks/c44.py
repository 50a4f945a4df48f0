"""C44: noise magnetograms have the requested degrees, scaling and randomness."""
import random
import numpy as np
import starwinds_magnetogram.coefficients as shc
import gen

PROPERTY = "C44"
QUICK_SCALE = 10
RULE = ("random degree ranges, exponents and random sources (recording ones, numpy's generators, constants); the draws that the code asked for against the coefficients; "
        "a case is the range with the exponent and source")
REQUIRE = dict(coefficients=5000, recorded=150, default_source=50)


class Source:
    """Hands out distinct values and records them."""

    def __init__(self, rng):
        self.rng, self.drawn, self.calls = rng, [], 0

    def __call__(self, *a, **k):
        self.calls += 1
        v = self.rng.normal(size=k.get("size", a[-1] if a else None))
        self.drawn += np.atleast_1d(v).ravel().tolist()
        return v


def case(ctx):
    rng = ctx.rng
    lo = int(rng.choice([1, 1, 1, 2, 3, 5]))
    hi = lo + int(rng.integers(-1, 14))
    if rng.random() < .08:     # high degrees
        lo = int(rng.choice([1, 1, 20, 45, 70]))
        hi = lo + int(rng.integers(0, 30)) if lo > 1 else int(rng.integers(20, 60))
    beta = [0, 1, 2, -1, .5, -.75, 3.25, float(rng.normal())][int(rng.integers(8))]
    kw = {}
    if rng.random() < .1:
        lo = 1
    else:
        kw["degree_min"] = lo
    if rng.random() < .1:
        hi = 15
    else:
        kw["degree_max"] = hi
    if rng.random() < .1:
        beta = 0
    else:
        kw["beta"] = beta
    default = rng.random() < .3
    if default:
        ctx.ev("default_source")
        seed = int(rng.integers(2 ** 31))
        np.random.seed(seed)
        c = shc.noise(**kw)
        after = np.random.random()
        np.random.seed(seed)
        d = shc.noise(**kw)
        same = np.random.random()
        ctx.check(after == same, "another number of draws the second time")
        np.random.seed(seed + 1)
        e = shc.noise(**kw)
        A, B, C = gen.model(c), gen.model(d), gen.model(e)
        ctx.equal(sorted(A), sorted(B), "coefficients with the same draws")
        for k in A:
            ctx.same("coefficient with the same draws", B[k], A[k])
        if A:
            ctx.check(any(np.any(A[k] != C[k]) for k in A), "coefficients do not depend on the draws")
        M, drawn = A, None
        np.random.seed(seed)
        pool = np.random.normal(size=2 * len(A) if A else 1)
        drawn = pool.tolist()[:2 * len(A)]
        np.random.random()
    else:
        ctx.ev("recorded")
        src = Source(rng)
        state = random.getstate(), np.random.get_state()[1].tolist(), np.random.get_state()[2]
        c = shc.noise(noise_fn=src, **kw)
        ctx.check((random.getstate(), np.random.get_state()[1].tolist(), np.random.get_state()[2]) == state, "random numbers drawn from elsewhere")
        M, drawn = gen.model(c), src.drawn
    pairs = [(l, m) for l in range(lo, hi + 1) for m in range(l + 1)]
    ctx.equal(sorted(M), pairs, "degrees and orders")
    ctx.ev("coefficients", len(pairs))
    ctx.equal(len(drawn), 2 * len(pairs), "number of values drawn")
    used = []
    for l, m in pairs:
        v = np.asarray(M[l, m]).reshape(-1)
        ctx.equal(v.size, 1, "number of values of a coefficient")
        f = (2 * l + 1) * float(l) ** beta
        used += [v[0].real * f, v[0].imag * f]
    # Every draw is used exactly once.
    ctx.close("draws used", np.sort(used), np.sort(drawn), rtol=1e-9, scale=np.abs(np.sort(drawn)) + 1e-9)
    # As real and imaginary parts of the same coefficient, for draws that were made together.
    d = np.asarray(drawn)
    for l, m in pairs:
        f = (2 * l + 1) * float(l) ** beta
        z = complex(np.asarray(M[l, m]).reshape(-1)[0]) * f
        i, j = int(np.argmin(np.abs(d - z.real))), int(np.argmin(np.abs(d - z.imag)))
        ctx.check(i // 2 == j // 2 or default, "real and imaginary part from different draws", pair=(l, m))
    # A constant source
    k = complex(rng.normal(), rng.normal())
    c = shc.noise(noise_fn=lambda size=None: np.broadcast_to(np.array([k.real, k.imag]), size) if size == 2 else np.resize([k.real, k.imag], size), **kw)
    for (l, m), v in gen.model(c).items():
        w = k / ((2 * l + 1) * float(l) ** beta)
        ctx.close("coefficient of a constant source", complex(np.asarray(v).reshape(-1)[0]), w, rtol=1e-11, scale=abs(w), pair=(l, m))
    ctx.describe(lo, hi, beta, default, drawn[:2])


CASES = {"noise": (case, 300, 8000)}
