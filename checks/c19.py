"""C19: energy fractions and the energy matrix agree with the energies."""
import contextlib
import io
import re

import numpy as np
import gen
import ref

PROPERTY = "C19"
QUICK_SCALE = 8
RULE = ("random magnetograms (all kinds of sparsity, missing degrees, missing kinds of coefficients, any magnitude); every reported fraction against "
        "the ratio of the sums that it names, the printed description, and the matrix; a case is the magnetogram")
REQUIRE = dict(fractions=5000, fractions_of_weak_sums=300, matrices=300, printed=30)
T = "magnetogram.total.energy."


def expected(l, m, ea, eb, eg):
    """name -> (numerator, denominator)"""
    p = ea + eb
    tot, P, G = np.sum(p) + np.sum(eg), np.sum(p), np.sum(eg)
    ax = m == 0
    out = {"magnetogram.radial.energy.fraction": (np.sum(ea), tot), "magnetogram.poloidal.energy.fraction": (P, tot),
           "magnetogram.toroidal.energy.fraction": (G, tot),
           T + "axisymmetric.fraction": (np.sum(p[ax]) + np.sum(eg[ax]), tot),
           T + "radial.axisymmetric.fraction": (np.sum(ea[ax]), P),
           T + "poloidal.axisymmetric.fraction": (np.sum(p[ax]), P),
           T + "toroidal.axisymmetric.fraction": (np.sum(eg[ax]), G),
           T + "dipole.axisymmetric.fraction": (np.sum(p[ax & (l == 1)]), np.sum(p[l == 1]))}
    for i, n in enumerate(("dipole", "quadrupole", "octopole"), 1):
        out[T + n + ".fraction"] = (np.sum(p[l == i]), P)
        out[T + "toroidal.l%d.fraction" % i] = (np.sum(eg[l == i]), G)
    for i in range(1, 16):
        out["magnetogram.pol.energy.l%d.fraction" % i] = (np.sum(p[l == i]), P)
        out["magnetogram.tor.energy.l%d.fraction" % i] = (np.sum(eg[l == i]), G)
    return out, tot


PRINTED = [("Radial   energy", "magnetogram.radial.energy.fraction"), ("Poloidal energy", "magnetogram.poloidal.energy.fraction"),
           ("Toroidal energy", "magnetogram.toroidal.energy.fraction"), ("poloidal l1", T + "dipole.fraction"),
           ("poloidal l2", T + "quadrupole.fraction"), ("poloidal l3", T + "octopole.fraction"),
           ("toroidal l1", T + "toroidal.l1.fraction"), ("toroidal l2", T + "toroidal.l2.fraction"),
           ("toroidal l3", T + "toroidal.l3.fraction"), ("axisymmetric", T + "axisymmetric.fraction"),
           ("poloidal axisymmetric", T + "poloidal.axisymmetric.fraction"), ("toroidal axisymmetric", T + "toroidal.axisymmetric.fraction"),
           ("dipole axisymmetric", T + "dipole.axisymmetric.fraction")]


def fractions(ctx):
    rng = ctx.rng
    mag = 10.0 ** rng.choice([-100, -30, 30, 100]) if rng.random() < .15 else None
    z = gen.zdi(rng, lmax=gen.top(rng, rng.choice([1, 2, 3, 5, 8, 15, 18]), (30, 45)), lmin=int(rng.random() < .8), magnitude=mag, negative=bool(rng.random() < .15))
    if rng.random() < .15:      # the lowest degrees, one kind or the axisymmetric part are weak
        k = int(rng.integers(4))
        weak = [z.l == 1, z.l <= 2, z.m == 0, np.full(z.l.shape, True)][k]
        for x in ([z.a, z.b, z.g] if k < 3 else [[z.a, z.b], [z.g], [z.a]][int(rng.integers(3))]):
            x[weak] *= 10. ** -rng.uniform(4, 9)
    mg = z.make("coefficients" if rng.random() < .3 else "arrays")
    l, m = np.asarray(mg.degrees_l), np.asarray(mg.orders_m)
    dest = {}
    if rng.random() < .3:
        dest["other"] = 1
    size = ref.squares(l, m, *[np.asarray(x) for x in (mg.alpha, mg.beta, mg.gamma)])
    every = sum(np.sum(q) for q in size)
    noise = 1e-6 * every
    # Sums much smaller than the squares that they consist of are dominated by rounding errors.
    own = {k: 1e-6 * v[1] for k, v in expected(l, m, *size)[0].items()}
    e = [np.asarray(x) for x in mg.energy(dest=dest)]
    if np.all(z.m >= 0):
        want = ref.zdi_energy(l, m, *[np.asarray(x) for x in (mg.alpha, mg.beta, mg.gamma)])
        for x, w, q in zip(e, want, size):
            ctx.close("energies", x, w, rtol=1e-11, scale=q)
    want, tot = expected(l, m, *e)
    ctx.close("total", dest["magnetogram.total.energy.B2"], tot, rtol=1e-11, scale=tot + noise)
    for name, (num, den) in want.items():
        ctx.check(name in dest, "missing " + name)
        if den > own[name]:
            ctx.ev("fractions")
            ctx.close(name, dest[name], num / den, rtol=1e-9, scale=1.0 + 1e-6 * every / den)
            if den <= noise:
                ctx.ev("fractions_of_weak_sums")
    if ctx.rng.random() < .3:
        ctx.check("other" not in dest or dest["other"] == 1, "other entries of the dictionary changed")
    printed(ctx, mg, {k: v if v[1] > own[k] else (0, 0) for k, v in want.items()}, tot if tot > noise else None)
    # Matrix
    er, ep, et = mg.energy_matrix()
    ctx.ev("matrices")
    L = int(np.max(l))
    for name, M, v, q in (("radial", er, e[0], size[0]), ("poloidal", ep, e[0] + e[1], size[0] + size[1]), ("toroidal", et, e[2], size[2])):
        w = np.zeros((L + 1, 2 * L + 1))
        w[l, L + m] = v
        s = np.zeros_like(w)
        s[l, L + m] = q
        ctx.close("matrix (%s)" % name, M, w, rtol=1e-11, scale=s)
    ctx.describe(repr(z), np.any(z.a), np.any(z.b), np.any(z.g))


def printed(ctx, mg, want, tot):
    if ctx.rng.random() > .25:
        return
    buf = io.StringIO()
    table = ctx.rng.random() < .5
    with contextlib.redirect_stdout(buf):
        e = mg.energy(show_fractions=True) if table else mg.energy()
    ctx.ev("printed")
    lines = buf.getvalue().splitlines()
    ctx.check(len(lines) > 10, "nothing printed")
    for start, name in PRINTED:
        hit = [x for x in lines if re.match(re.escape(start) + r"[ *:(]", x)]
        hit = [x for x in hit if re.search(r"(-?\d+\.\d)%", x)] if want[name][1] > 0 else []
        if want[name][1] > 0:
            ctx.check(len(hit) >= 1, "not printed: " + start, text=lines)
            v = float(re.search(r"(-?\d+\.\d)%", hit[0]).group(1))
            ctx.close("printed " + start, v, 100 * want[name][0] / want[name][1], rtol=0, atol=0.0501)
    if tot is None:
        return
    rows = [x.split() for x in lines if re.match(r"\s*\d+\s+-?\d+(\s+\S+){3}\s*$", x)]
    ctx.equal(len(rows), len(mg.degrees_l) if table else 0, "rows of fractions printed", text=lines)
    for row, *w in zip(rows, mg.degrees_l, mg.orders_m, *e):
        ctx.ev("rows_printed")
        ctx.equal([int(row[0]), int(row[1])], [int(w[0]), int(w[1])], "degree and order of a printed row")
        ctx.close("printed row", [float(x) for x in row[2:]], np.array(w[2:]) / tot, rtol=2e-6, atol=1e-9, scale=np.abs(w[2:]) / tot)
    v = [float(re.search(r"Total energy: (\S+)", x).group(1)) for x in lines if x.startswith("Total energy")]
    ctx.close("printed total", v, [tot], rtol=0.0051)


CASES = {"fractions": (fractions, 500, 8000)}
