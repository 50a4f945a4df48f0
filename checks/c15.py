"""C15: total, strength, cartesian and tabulated ZDI fields agree with the components."""
import numpy as np
import gen
import ref
from c14 import GETTERS

PROPERTY = "C15"
QUICK_SCALE = 6
RULE = "random magnetograms and point arrays of several shapes; totals, strength, cartesian vectors and the table against the components; a case is the magnetogram with the points"
REQUIRE = dict(points=2500, tables=200)


def agree(ctx):
    rng = ctx.rng
    lmax = gen.top(rng, rng.choice([1, 2, 3, 5, 8, 15]))
    z = gen.zdi(rng, lmax=lmax, negative=bool(rng.random() < .4))
    mg = z.make("coefficients" if rng.random() < .5 else "arrays")
    shape = [(7,), (3, 5), (2, 3, 4), (1, 1), (1,), (6, 1)][int(rng.integers(6))]
    n = int(np.prod(shape))
    theta, phi = (x.reshape(shape) for x in gen.points(rng, n))
    if rng.random() < 0.3:
        theta.flat[0] = [0.0, np.pi][int(rng.integers(2))]
    styles = rng.choice(["C", "C", "F", "strided", "reversed", "readonly"], 2)
    theta, phi = (gen.layout(rng, x, str(k)) for x, k in zip((theta, phi), styles if rng.random() < .5 else styles[[0, 0]]))
    ctx.ev("points", n)
    f = {k: getattr(mg, g)(theta, phi) for k, g in GETTERS.items()}
    want = ref.zdi_field(*z.args, theta, phi)
    s = want.scale
    if np.any(np.sin(theta) < 1e-10):     # terms that vanish on the axis leave no scale of their own
        s = {k: v + ref.zdi_bound(*z.args) for k, v in s.items()}
    for k in f:
        ctx.close("component " + k, f[k], want[k], rtol=1e-9, scale=s[k])
    ctx.same("toroidal radial field", f["r_tor"], np.zeros(shape))
    total = {}
    for k, g in dict(r="get_radial_field", t="get_polar_field", p="get_azimuthal_field").items():
        total[k] = getattr(mg, g)(theta, phi)
        ctx.close(g, total[k], f[k + "_pol"] + f[k + "_tor"], rtol=1e-11, scale=s[k])
    strength = mg.get_field_strength(theta, phi)
    ctx.close("strength", strength, np.sqrt(total["r"] ** 2 + total["t"] ** 2 + total["p"] ** 2), rtol=1e-11, scale=s["strength"])
    ctx.check(np.all(strength >= 0), "negative field strength")
    for name, a in (("", ["r", "t", "p"]), ("_poloidal", ["r_pol", "t_pol", "p_pol"]), ("_toroidal", ["r_tor", "t_tor", "p_tor"])):
        xyz = getattr(mg, "get_cartesian%s_field" % name)(theta, phi)
        comps = [total[k] if k in total else f[k] for k in a]
        sc = sum(s[k] for k in a)
        ctx.close("cartesian%s field" % name, xyz, ref.cartesian(*comps, theta, phi), rtol=1e-11, scale=sc)
        ctx.close("length of the cartesian%s field" % name, np.sqrt(np.sum(xyz ** 2, -1)), np.sqrt(sum(c ** 2 for c in comps)), rtol=1e-11, scale=sc)
    ctx.close("cartesian poloidal + toroidal", mg.get_cartesian_poloidal_field(theta, phi) + mg.get_cartesian_toroidal_field(theta, phi),
              mg.get_cartesian_field(theta, phi), rtol=1e-11, scale=s["strength"])
    table = mg.get_all()
    ctx.ev("tables")
    ctx.equal(sorted(table), ["azimuthal", "polar", "radial"], "directions in the table")
    for d, k in (("radial", "r"), ("polar", "t"), ("azimuthal", "p")):
        ctx.equal(sorted(table[d]), ["poloidal", "toroidal"], "parts in the table")
        for part, q in (("poloidal", "_pol"), ("toroidal", "_tor")):
            ctx.close("table %s %s" % (d, part), table[d][part](theta, phi), f[k + q], rtol=1e-11, scale=s[k + q])
    ctx.describe(repr(z), shape)


CASES = {"agree": (agree, 400, 6000)}
