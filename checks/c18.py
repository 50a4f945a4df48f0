"""C18: magnetogram energies are exact surface averages of the squared field."""
import contextlib
import io

import numpy as np
import gen
import ref
from c14 import GETTERS

PROPERTY = "C18"
QUICK_SCALE = 6
RULE = ("random magnetograms with non-negative orders and coefficients of magnitudes 1e-100 to 1e100; the listed energies against the definition "
        "and against exact quadrature of the squared field that the code evaluates; a case is the magnetogram")
REQUIRE = dict(quadrature_points=20000, energies=1500, extreme_magnitudes=20)


def energies(ctx):
    rng = ctx.rng
    mag = None
    if rng.random() < .35:
        mag = 10.0 ** rng.choice([-100, -60, -30, -15, 15, 30, 60, 100])
        ctx.ev("extreme_magnitudes")
    lmax = gen.top(rng, rng.choice([1, 2, 3, 5, 8, 12, 20]), (30, 45, 60))
    z = gen.zdi(rng, lmax=lmax, lmin=int(rng.random() < .7), magnitude=mag)
    mg = z.make("coefficients" if rng.random() < .3 else "arrays")
    order = list(zip(np.asarray(mg.degrees_l).tolist(), np.asarray(mg.orders_m).tolist()))
    ind = {k: i for i, k in enumerate(zip(z.l.tolist(), z.m.tolist()))}
    perm = [ind[k] for k in order]
    got = mg.energy(dest={})
    want = ref.zdi_energy(*z.args)
    size = ref.squares(*z.args)
    ctx.equal(len(got), 3, "number of kinds of energy")
    for name, e, w, q in zip(("radial", "remaining poloidal", "toroidal"), got, want, size):
        ctx.ev("energies", w.size)
        w, q = w[perm], q[perm]
        ctx.close("energies (%s)" % name, e, w, rtol=1e-11, scale=q)
        ctx.check(np.all(np.asarray(e) >= -1e-14 * q), "negative energy", energies=e)
    # Integrals of the field that the code evaluates. The quadrature is exact for these degrees.
    if lmax <= 12:
        theta, phi, w = ref.sphere_quadrature(2 * lmax + 2)
        ctx.ev("quadrature_points", w.size)
        f = {k: getattr(mg, g)(theta, phi) for k, g in GETTERS.items()}
        s = np.max([np.max(np.abs(x)) for x in f.values()]) or 1.0
        f = {k: v / s for k, v in f.items()}
        integrals = [np.sum(w * f["r_pol"] ** 2), np.sum(w * (f["t_pol"] ** 2 + f["p_pol"] ** 2)),
                     np.sum(w * (f["r_tor"] ** 2 + f["t_tor"] ** 2 + f["p_tor"] ** 2))]
        for name, e, i in zip(("radial", "tangential poloidal", "toroidal"), got, integrals):
            ctx.close("sum of energies and integral of the squared field (%s)" % name, np.sum(e) / s ** 2, i, rtol=1e-9,
                      scale=float(np.sum(np.concatenate(size))) / s ** 2)
        if rng.random() < .3:    # and of each coefficient alone
            i = int(rng.integers(len(z.l)))
            one = gen.Zdi(*(x[i:i + 1] for x in z.args))
            o = one.make()
            e = o.energy(dest={})
            f = {k: getattr(o, g)(theta, phi) / s for k, g in GETTERS.items()}
            for j, keys in enumerate((("r_pol",), ("t_pol", "p_pol"), ("t_tor", "p_tor"))):
                ctx.close("energy of one coefficient", e[j] / s ** 2, [sum(np.sum(w * f[k] ** 2) for k in keys)], rtol=1e-9,
                          scale=float(sum(x[i] for x in size)) / s ** 2)
    # Scaling, and the energies do not depend on where the description goes.
    k = float(rng.choice([2.0, -3.0, 1e-3, 1e4]))
    scaled = gen.Zdi(z.l, z.m, k * z.a, k * z.b, k * z.g).make().energy(dest={})
    plain = gen.Zdi(*z.args).make().energy(dest={})
    for e, w, q in zip(scaled, plain, size):
        ctx.close("energies of a multiple", e, k * k * np.asarray(w), rtol=1e-11, scale=k * k * q)
    if rng.random() < .2:
        with contextlib.redirect_stdout(io.StringIO()):
            printed = mg.energy(show_fractions=bool(rng.random() < .5))
        for e, w in zip(printed, got):
            ctx.same("energies when printing", e, w)
    ctx.describe(repr(z))


CASES = {"energies": (energies, 400, 6000)}
