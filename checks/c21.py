"""C21: folding negative orders keeps the radial field."""
import numpy as np
from starwinds_magnetogram import converter, zdi_magnetogram
import gen
import ref
from vh import fingerprint

PROPERTY = "C21"
QUICK_SCALE = 6
RULE = ("random single-valued coefficient sets with both signs of the order (sparse, one-sided, equal and opposite pairs); the radial field of the "
        "folded set, evaluated by the code and independently, against the original; a case is the set")
REQUIRE = dict(points=10000, negative_orders=1000, without_negative=50)


def radial(M, theta, phi):
    l, m = np.array(list(M)).T
    v = np.array([x[0] for x in M.values()])
    f = ref.zdi_field(l, m, v, 0 * v, 0 * v, theta, phi)
    return f["r"], f.scale["r"]


def fold(ctx):
    rng = ctx.rng
    neg = bool(rng.random() < .85)
    pairs = gen.lm_pairs(rng, lmax=gen.top(rng, rng.choice([1, 2, 3, 5, 9, 14]), (20, 30, 45)), negative=neg)
    v = gen.values(rng, (len(pairs), 1))
    if neg and rng.random() < .2:      # pairs that cancel or reinforce each other
        d = dict(zip(pairs, v))
        for (l, m) in pairs:
            if m > 0 and (l, -m) in d:
                d[(l, -m)] = rng.choice([1, -1]) * (np.conj(d[(l, m)]) if rng.random() < .7 else d[(l, m)])
        v = np.array([d[p] for p in pairs])
    c = gen.build(pairs, list(v))
    M = gen.model(c)
    before = fingerprint(c)
    r = converter.map_to_positive_orders(c)
    ctx.check(fingerprint(c) == before, "folding changed its argument")
    R = gen.model(r)
    ctx.ev("negative_orders", sum(m < 0 for _, m in M))
    ctx.check(all(m >= 0 for _, m in R), "negative orders remain", orders=sorted(R)[:5])
    ctx.check(all(x.shape == (1,) for x in R.values()), "values per coefficient")
    theta, phi = gen.points(rng, 30)
    ctx.ev("points", 30)
    want, scale = radial(M, theta, phi)
    got, _ = radial(R, theta, phi)
    ctx.close("radial field of the folded set", got, want, rtol=1e-9, scale=scale)
    for x, what in ((r, "folded"), (c, "original")):
        mg = zdi_magnetogram.from_coefficients(x)
        ctx.close("radial field of the %s set as the code evaluates it" % what, mg.get_radial_field(theta, phi), want, rtol=1e-9, scale=scale)
    # A set without negative orders keeps its values; other degrees and orders have none.
    for k in set(M) | set(R):
        if (k[0], -k[1]) not in M or k[1] == 0:
            if k[1] >= 0:
                w = M.get(k, np.zeros(1))
                ctx.close("coefficient without a negative partner", R.get(k, np.zeros(1, complex)), w + 0j, rtol=1e-11, scale=np.abs(w), pair=k)
    if all(m >= 0 for _, m in M):
        ctx.ev("without_negative")
    # Folding is linear over the reals and folding twice changes nothing more.
    again = gen.model(converter.map_to_positive_orders(r))
    for k in set(R) | set(again):
        w = R.get(k, np.zeros(1, complex))
        ctx.close("folding twice", again.get(k, np.zeros(1, complex)), w, rtol=1e-11, scale=np.abs(w), pair=k)
    ctx.describe(sorted(M)[:12], len(M), scale)


CASES = {"fold": (fold, 700, 10000)}
