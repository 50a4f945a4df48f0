"""C04: stacking and splitting coefficient sets are exact inverses."""
import numpy as np
import starwinds_magnetogram.coefficients as shc
import gen

PROPERTY = "C04"
QUICK_SCALE = 6
RULE = "1-5 random sets of 1-4 values with different (overlapping) pairs and defaults, stacked and split in every way; a case is the sets"
REQUIRE = dict(stacks=300, splits=600, empty_sections=100)


def stack_split(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    sets, models, defaults = [], [], []
    for i in range(n):
        w = int(rng.choice([1, 1, 1, 2, 3, 4]))
        d = rng.normal(size=w) + 1j * rng.normal(size=w) if rng.random() < 0.3 else np.zeros(w, complex)
        if rng.random() < 0.1:
            s = shc.Coefficients(d.copy())
        else:
            pairs = gen.lm_pairs(rng, lmax=gen.top(rng, rng.integers(0, 6), (25, 45, 80)), negative=bool(rng.random() < .5))
            s = gen.build(pairs, list(gen.values(rng, (len(pairs), w))), d.copy())
        sets.append(s), models.append(gen.model(s)), defaults.append(d)
    st = shc.hstack(sets if rng.random() < 0.5 else tuple(sets))
    ctx.ev("stacks")
    keys = sorted(set().union(*models))
    M = gen.model(st)
    ctx.equal(sorted(M), keys, "pairs of the stack")
    for k in keys:
        ctx.same("stacked values", M[k], np.concatenate([m.get(k, d) for m, d in zip(models, defaults)]), pair=k)
    ctx.same("default of the stack", st.default_coefficients, np.concatenate(defaults))

    def check_sections(parts, bounds, what):
        ctx.ev("splits")
        ctx.equal(len(parts), len(bounds), what + ": number of sections")
        for p, (i, j) in zip(parts, bounds):
            pm = gen.model(p)
            ctx.equal(sorted(pm), keys, what + ": pairs of a section")
            for k in keys:
                ctx.same(what, pm[k], M[k][i:j], pair=k, section=(i, j))
            ctx.same(what + ": default", p.default_coefficients, np.concatenate(defaults)[i:j])
            ctx.equal(int(p.degree_max), int(st.degree_max), what + ": highest degree")

    widths = [len(d) for d in defaults]
    edges = np.concatenate([[0], np.cumsum(widths)]).astype(int)
    total = int(edges[-1])
    # Splitting the stack at the widths returns the originals.
    cuts = [int(x) for x in edges[1:-1]]
    parts = st.hsplit(cuts) if cuts else st.hsplit(1)
    check_sections(parts, list(zip(edges[:-1], edges[1:])), "split of the stack")
    for p, m, d, s in zip(parts, models, defaults, sets):
        for k in set(keys) | {(7, 7)}:
            ctx.same("split of the stack against the original", p.get(*k), m.get(k, d), pair=k)
        ctx.check(shc.allclose(p, s, rtol=0, atol=0), "a section of the stack does not equal the original set")
    # By default one section per value.
    check_sections(shc.hsplit(st), [(i, i + 1) for i in range(total)], "default split")
    for k in range(1, total + 1):
        if total % k == 0:
            w = total // k
            check_sections(st.hsplit(k), [(i * w, (i + 1) * w) for i in range(k)], "split in %d" % k)
    cuts = sorted(set(int(x) for x in rng.integers(1, total, 3))) if total > 1 else []
    if cuts:
        e = [0] + cuts + [total]
        parts = shc.hsplit(st, cuts)
        check_sections(parts, list(zip(e[:-1], e[1:])), "split at indices")
        back = shc.hstack(parts)
        B = gen.model(back)
        ctx.equal(sorted(B), keys, "pairs after split and stack")
        for k in keys:
            ctx.same("split and stack", B[k], M[k], pair=k)
        ctx.same("split and stack: default", back.default_coefficients, st.default_coefficients)
    # Sections may be empty.
    cuts = sorted(int(x) for x in rng.integers(0, total + 1, int(rng.integers(1, 5))))
    e = [0] + cuts + [total]
    parts = st.hsplit([list, tuple, np.array][int(rng.integers(3))](cuts))
    check_sections(parts, list(zip(e[:-1], e[1:])), "split at any indices")
    ctx.ev("empty_sections", sum(i == j for i, j in zip(e, e[1:])))
    back = gen.model(shc.hstack(parts))
    for k in keys:
        ctx.same("split at any indices and stack", back[k], M[k], pair=k)
    back = gen.model(shc.hstack(shc.hsplit(st)))
    for k in keys:
        ctx.same("split and stack", back[k], M[k], pair=k)
    ctx.describe(widths, [sorted(m)[:5] for m in models])


CASES = {"stack_split": (stack_split, 1500, 20000)}
