"""C20: restricted, poloidal, toroidal and copied magnetograms are exact projections."""
import numpy as np
import gen
import ref
from vh import fingerprint
from c14 import GETTERS

PROPERTY = "C20"
QUICK_SCALE = 5
RULE = ("random magnetograms (both signs of the order, shuffled) and degree/order ranges in every accepted form, with in-place changes of the originals "
        "and of the results; a case is the magnetogram with the ranges")
REQUIRE = dict(restrictions=500, points=5000, in_place_changes=500)
ATTR = "degrees_l", "orders_m", "alpha", "beta", "gamma"


def listing(mg):
    """{(l, m): the three values}, refusing repetitions."""
    l, m, a, b, g = (np.asarray(getattr(mg, n)) for n in ATTR)
    out = {}
    for i in range(len(l)):
        k = int(l[i]), int(m[i])
        assert k not in out, "repeated %s" % (k,)
        out[k] = (complex(a[i]), complex(b[i]), complex(g[i]))
    return out


def fields(mg, theta, phi):
    return {k: np.asarray(getattr(mg, g)(theta, phi)) for k, g in GETTERS.items()}


def forms(rng, lo, hi):
    """An inclusive range in one of the accepted forms."""
    k = int(rng.integers(5 if lo == hi else 4))
    return [(lo, hi), [lo, hi], np.array([lo, hi]), (np.int64(lo), np.int64(hi)), [lo, (lo,), np.int64(lo), [lo]][int(rng.integers(4))]][k]


def pick(rng, present):
    """Limits of a range: often on the values that are present, one next to them, or outside."""
    a, b = sorted(int(present[int(rng.integers(len(present)))]) + int(rng.choice([0, 0, 0, 1, -1])) for _ in range(2))
    k = rng.random()
    if k < .15:
        a = int(min(present)) - int(rng.integers(0, 3))
    elif k < .3:
        b = int(max(present)) + int(rng.integers(0, 3))
    elif k < .45:
        b = a
    return a, b


def restriction(ctx):
    rng = ctx.rng
    z = gen.zdi(rng, lmax=gen.top(rng, rng.choice([1, 2, 4, 6, 9])), negative=bool(rng.random() < .5))
    mg = z.make("coefficients" if rng.random() < .3 else "arrays")
    full = listing(mg)
    ctx.equal(sorted(full), sorted(zip(z.l.tolist(), z.m.tolist())), "coefficients of the magnetogram")
    kw = {}
    l0, l1 = pick(rng, z.l) if rng.random() < .8 else (None, None)
    m0, m1 = pick(rng, z.m) if rng.random() < .7 else (None, None)
    if l0 is not None:
        kw["degree_l_range"] = forms(rng, l0, l1)
    if m0 is not None:
        kw["order_m_range"] = forms(rng, m0, m1)
    elif np.min(z.m) < 0:
        m0, m1 = int(np.min(z.m)), int(np.max(z.m))
        kw["order_m_range"] = (m0, m1)

    def inside(k):
        return (l0 is None or l0 <= k[0] <= l1) and (m0 is None or m0 <= k[1] <= m1)
    before = fingerprint(mg)
    if rng.random() < .15 and np.min(z.m) >= 0:
        r, keep = mg.as_dipole(), {k: v for k, v in full.items() if k[0] == 1}
    else:
        r, keep = mg.as_restricted(**kw), {k: v for k, v in full.items() if inside(k)}
    ctx.ev("restrictions")
    ctx.check(fingerprint(mg) == before, "restricting changed the original")
    ctx.equal(listing(r), keep, "coefficients kept", ranges=kw)
    theta, phi = gen.points(rng, 9)
    ctx.ev("points", 9)
    f = fields(mg, theta, phi)
    if keep:
        i = np.array([k in keep for k in zip(z.l.tolist(), z.m.tolist())])
        want = ref.zdi_field(*(x[i] for x in z.args), theta, phi)
        for k, v in fields(r, theta, phi).items():
            ctx.close("field of the restriction, " + k, v, want[k], rtol=1e-9, scale=want.scale[k])
    # Complementary restrictions add up.
    L = int(np.max(z.l))
    cut = int(rng.integers(np.min(z.l), L + 1))
    all_m = (int(np.min(z.m)), int(np.max(z.m)))
    parts = [mg.as_restricted((0, cut), all_m), mg.as_restricted((cut + 1, L + 1), all_m)]
    if rng.random() < .5:
        mc = int(rng.integers(all_m[0], all_m[1] + 1))
        parts = [mg.as_restricted((0, L), (all_m[0], mc)), mg.as_restricted((0, L), (mc + 1, all_m[1] + 1))]
    ctx.equal(sum(len(listing(p)) for p in parts), len(full), "sizes of complementary restrictions")
    s = ref.zdi_field(*z.args, theta, phi).scale
    tot = {k: 0 for k in f}
    for p in parts:
        if len(listing(p)):
            for k, v in fields(p, theta, phi).items():
                tot[k] = tot[k] + v
    for k in f:
        ctx.close("complementary restrictions, " + k, tot[k], f[k], rtol=1e-10, scale=s[k])
    if keep:
        independent(ctx, mg, r, f, theta, phi)
    ctx.describe(repr(z), repr(kw))


def independent(ctx, mg, r, f, theta, phi):
    """Changing the one in place does not change the other."""
    rng = ctx.rng
    a, b = (mg, r) if rng.random() < .5 else (r, mg)
    before, seen = fingerprint(b), fields(b, theta, phi)
    for n in ("alpha", "beta", "gamma"):
        v = getattr(a, n)
        if len(v) and v.flags.writeable:
            v[int(rng.integers(len(v)))] += 1000 * (1 + np.max(np.abs(v)))
            v *= 2
            ctx.ev("in_place_changes")
    ctx.check(fingerprint(b) == before, "changing one changed the other")
    for k, v in fields(b, theta, phi).items():
        ctx.same("field after a change of the other, " + k, v, seen[k])


def parts(ctx):
    rng = ctx.rng
    z = gen.zdi(rng, lmax=gen.top(rng, rng.choice([1, 2, 4, 6, 9])), negative=bool(rng.random() < .4))
    mg = z.make("coefficients" if rng.random() < .3 else "arrays")
    theta, phi = gen.points(rng, 8)
    ctx.ev("points", 24)
    full = listing(mg)
    before, f = fingerprint(mg), fields(mg, theta, phi)
    s = ref.zdi_field(*z.args, theta, phi).scale
    pol, tor, cp = mg.as_poloidal(), mg.as_toroidal(), mg.copy()
    ctx.check(fingerprint(mg) == before, "changed the original")
    ctx.equal(listing(cp), full, "coefficients of the copy")
    ctx.equal(listing(pol), {k: (a, b, 0) for k, (a, b, g) in full.items()}, "coefficients of the poloidal magnetogram")
    ctx.equal(listing(tor), {k: (0, 0, g) for k, (a, b, g) in full.items()}, "coefficients of the toroidal magnetogram")
    fp, ft, fc = (fields(x, theta, phi) for x in (pol, tor, cp))
    for k in f:
        zero = np.zeros(theta.shape)
        ctx.close("copy, " + k, fc[k], f[k], rtol=1e-10, scale=s[k])
        ctx.close("poloidal magnetogram, " + k, fp[k], f[k] if k.endswith("pol") else zero, rtol=1e-10, scale=s[k])
        ctx.close("toroidal magnetogram, " + k, ft[k], f[k] if k.endswith("tor") else zero, rtol=1e-10, scale=s[k])
    # Projections applied again or one after the other.
    ctx.equal(listing(pol.as_poloidal()), listing(pol), "poloidal part of the poloidal magnetogram")
    ctx.check(not np.any([v for v in listing(pol.as_toroidal()).values()]), "toroidal part of the poloidal magnetogram")
    results = [mg, pol, tor, cp]
    i, j = rng.choice(4, 2, replace=False)
    independent(ctx, results[i], results[j], None, theta, phi)
    ctx.describe(repr(z))


CASES = {"restriction": (restriction, 700, 10000), "parts": (parts, 400, 6000)}
