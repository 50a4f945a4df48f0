"""C17: fields are finite and single-valued on the rotation axis."""
import numpy as np
from starwinds_magnetogram import pfss_magnetogram
import gen
import ref
from c14 import GETTERS

PROPERTY = "C17"
QUICK_SCALE = 6
RULE = ("random magnetograms and every single (degree, order) evaluated at both poles from several azimuths (alone and among other points), "
        "compared with each other, with the limit from the definition and with nearby points; a case is the magnetogram")
REQUIRE = dict(pole_evaluations=1000, close_to_axis=1000)


def zdi(ctx, z=None):
    rng = ctx.rng
    z = z or gen.zdi(rng, lmax=gen.top(rng, rng.choice([1, 2, 3, 5, 8, 15, 25]), (33, 45, 60)), negative=bool(rng.random() < .4))
    mg = z.make()
    scale = ref.zdi_bound(*z.args)
    phi = np.concatenate([[0.0, np.pi / 2, np.pi, -np.pi / 2], rng.uniform(-7, 7, 3)])
    for pole in (0.0, np.pi):
        theta = np.full(phi.shape, pole)
        if rng.random() < 0.5:     # among other points
            t2, p2 = gen.points(rng, 5)
            order = rng.permutation(12)
            T, P = np.concatenate([theta, t2])[order], np.concatenate([phi, p2])[order]
            pick = np.argsort(order)[:7]
        else:
            T, P, pick = theta, phi, np.arange(7)
        if rng.random() < 0.3:
            T, P = T[:, None], P[:, None]
        ctx.ev("pole_evaluations", 7)
        want = ref.zdi_field(*z.args, theta, phi)
        comp = {}
        for k, g in GETTERS.items():
            comp[k] = np.asarray(getattr(mg, g)(T, P)).reshape(-1)[pick]
            ctx.close(g + " on the axis", comp[k], want[k], rtol=1e-9, scale=scale)
        for part in ("pol", "tor"):
            xyz = ref.cartesian(*(comp[k + part] for k in ("r_", "t_", "p_")), np.where(theta > 1, np.pi, 0.0), phi)
            ctx.close("%soidal vector from different azimuths" % part, xyz, np.broadcast_to(xyz[0], xyz.shape), rtol=1e-9, scale=scale)
        for name in ("", "_poloidal", "_toroidal"):
            xyz = getattr(mg, "get_cartesian%s_field" % name)(theta, phi)
            ctx.close("cartesian%s vector from different azimuths" % name, xyz, np.broadcast_to(xyz[0], xyz.shape), rtol=1e-9, scale=scale)
        s = mg.get_field_strength(theta, phi)
        ctx.close("strength from different azimuths", s, np.full(7, s[0]), rtol=1e-9, scale=scale)
        # Nearby points approach the value: the difference shrinks with the distance.
        eps = 1e-3
        near = mg.get_cartesian_field(np.abs(theta - eps), phi)
        lm = int(np.max(z.l))
        at = mg.get_cartesian_field(theta, phi)
        ctx.close("nearby points", near, at, rtol=4 * eps * (lm + 1) ** 2, scale=scale)
        # Very close points. The angle is only known from its cosine, so that its relative precision decreases towards the axis.
        eps = 10.0 ** rng.uniform(-9, -4, 7)
        T = np.abs(theta - eps)
        ctx.ev("close_to_axis", 7)
        near = mg.get_cartesian_field(T, phi)
        tol = np.minimum(4 * eps * (lm + 1) ** 2 + 1e-14 * (lm + 1) / eps ** 2, 4 * (lm + 1))
        ctx.close("points very close to the axis", near, at, rtol=1.0, scale=scale * tol[:, None])
    ctx.describe("zdi", repr(z))


def pfss(ctx, M=None):
    rng = ctx.rng
    c = gen.coeffs(rng, 1, lmax=gen.top(rng, rng.choice([0, 1, 2, 3, 5, 8, 15]), (20, 30, 45))) if M is None else gen.build(list(M), [np.array([v]) for v in M.values()])
    M = {k: v[0] for k, v in gen.model(c).items()}
    phi = np.concatenate([[0.0, np.pi / 2, np.pi, -np.pi / 2], rng.uniform(-7, 7, 3)])
    r0, rss = (1.0, 2.5) if rng.random() < .5 else (float(rng.uniform(.2, 3)), None)
    rss = rss or r0 * float(rng.uniform(1.2, 6))
    for pole in (0.0, np.pi):
        for r in (0.5 * r0, r0, 0.4 * rss + 0.6 * r0, rss, 1.7 * rss):
            theta = np.full(phi.shape, pole)
            ctx.ev("pole_evaluations", 7)
            f = pfss_magnetogram.evaluate_spherical(c, np.full(7, r), theta, phi, radius_star=r0, radius_source_surface=rss)
            w = ref.pfss_field(M, np.full(7, r), theta, phi, r0, rss)
            # The terms that vanish on the axis leave no scale of their own.
            scale = np.max(w[3]) + np.max(ref.pfss_field(M, np.full(5, np.clip(r, r0, rss)), np.linspace(.2, 2.9, 5), np.zeros(5), r0, rss)[3])
            for i, n in enumerate(("radial", "polar", "azimuthal")):
                ctx.close(n + " on the axis", f[i], w[i], rtol=1e-9, scale=scale)
            xyz = ref.cartesian(*f, theta, phi)
            ctx.close("vector from different azimuths", xyz, np.broadcast_to(xyz[0], xyz.shape), rtol=1e-9, scale=scale)
            # Cartesian evaluation, with either sign of zero.
            z0 = r if pole == 0 else -r
            px, py = np.array([0.0, -0.0, 0.0, -0.0]), np.array([0.0, 0.0, -0.0, -0.0])
            o = pfss_magnetogram.evaluate_cartesian(c, px, py, np.full(4, z0), radius_star=r0, radius_source_surface=rss)
            got = np.stack(o[3:], -1)
            ctx.close("cartesian evaluation on the axis", got, np.broadcast_to(ref.cartesian(*(x[:1] for x in w[:3]), theta[:1], phi[:1]), (4, 3)),
                      rtol=1e-9, scale=scale)
            ctx.check(all(np.all(np.isfinite(x)) for x in o), "not finite on the axis")
            # Very close points
            eps = 10.0 ** rng.uniform(-9, -4, 7)
            ctx.ev("close_to_axis", 7)
            lm = max(l for l, m in M)
            near = ref.cartesian(*pfss_magnetogram.evaluate_spherical(c, np.full(7, r), np.abs(theta - eps), phi, radius_star=r0, radius_source_surface=rss),
                                 np.abs(theta - eps), phi)
            tol = np.minimum(4 * eps * (lm + 1) ** 2 + 1e-14 * (lm + 1) / eps ** 2, 4 * (lm + 1))
            ctx.close("points very close to the axis", near, xyz, rtol=1.0, scale=scale * tol[:, None])
    ctx.describe("pfss", sorted(M)[:8], r0, rss)


def singles(ctx):
    rng = ctx.rng
    l = ctx.index
    for m in range(-l, l + 1):
        c = np.exp(2j * np.pi * rng.random(3))
        zdi(ctx, gen.Zdi([l], [m], c[:1], c[1:2], c[2:]))
        if m >= 0:
            pfss(ctx, {(l, m): c[0]})


CASES = {"zdi": (zdi, 150, 2500), "pfss": (pfss, 80, 1500), "singles": (singles, 10, 22)}
CHUNK = 3
