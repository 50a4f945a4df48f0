"""C25: PFSS fields are divergence-free and current-free and conserve flux."""
import numpy as np
from starwinds_magnetogram import pfss_magnetogram
import gen
import ref
from c24 import coefficient_set, radii

PROPERTY = "C25"
QUICK_SCALE = 2
RULE = ("random coefficient sets and radii; divergence and curl of the evaluated field from eighth-order differences of the cartesian field, fluxes through "
        "spheres by exact quadrature; a case is the set with the radii")
REQUIRE = dict(derivative_points=500, spheres=400)

STENCIL = (np.array([-4, -3, -2, -1, 1, 2, 3, 4]), np.array([1 / 280, -4 / 105, 1 / 5, -4 / 5, 4 / 5, -1 / 5, 4 / 105, -1 / 280]))


def derivatives(ctx):
    rng = ctx.rng
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 8]), (13, 20))
    c, M = coefficient_set(rng, lmax)
    L = max(l for l, _ in M)
    r0, rss, kw = radii(rng)
    n = 10
    # Differences must not cross the surfaces. Truncation error (k h)^8 with k the wave number of the highest degree.
    h = min(2e-2 / (L + 2) * r0, (rss - r0) / 30)
    out = rng.random(n) < .3
    r = np.where(out, rss + 5 * h + rng.random(n) * 3 * rss, r0 + 5 * h + rng.random(n) * (rss - r0 - 10 * h))
    theta, phi = gen.points(rng, n, margin=.05)
    x = np.stack([r * np.sin(theta) * np.cos(phi), r * np.sin(theta) * np.sin(phi), r * np.cos(theta)], -1)
    k, w = STENCIL
    pts = x[:, None, None, :] + h * k[None, None, :, None] * np.eye(3)[None, :, None, :]      # point, axis, step, coordinate
    f = pfss_magnetogram.evaluate_cartesian(c, *(pts[..., i] for i in range(3)), **kw)[3:]
    f = np.stack(f, -1)
    grad = np.einsum("pask,s->pak", f, w) / h            # grad[p, a, k] = d f_k / d x_a
    ctx.ev("derivative_points", n)
    s = ref.pfss_field(M, r, theta, phi, r0, rss)[3]
    scale = (s + 1e-3 * np.max(s)) * (L + 2) / r0
    # Rounding errors of the differences: eps * scale / h; allow also for the truncation error.
    rtol = 1e-7
    div = np.einsum("paa->p", grad)
    ctx.close("divergence", div, np.zeros(n), rtol=rtol, scale=scale)
    curl = np.stack([grad[:, 1, 2] - grad[:, 2, 1], grad[:, 2, 0] - grad[:, 0, 2], grad[:, 0, 1] - grad[:, 1, 0]], -1)
    inside = ~out
    if np.any(inside):
        ctx.close("curl", curl[inside], np.zeros((np.sum(inside), 3)), rtol=rtol, scale=scale[inside][:, None])
    # The monitor itself is sensitive: the individual derivatives are not small.
    ctx.ev("large_derivatives", np.sum(np.abs(grad) > 1e-3 * scale[:, None, None]))
    ctx.describe("derivatives", sorted(M)[:10], len(M), r0, rss)


def flux(ctx):
    rng = ctx.rng
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 8]), (13, 20))
    c, M = coefficient_set(rng, lmax)
    r0, rss, kw = radii(rng)
    theta, phi, w = ref.sphere_quadrature(2 * lmax + 4)
    mono = float(np.real(M.get((0, 0), 0.0)))
    rs = np.concatenate([[r0, rss], r0 + rng.random(2) * (rss - r0), rss * (1 + 5 * rng.random(2))])
    unsigned = []
    total = sum(abs(v) for v in M.values())
    for r in rs:
        ctx.ev("spheres")
        f = pfss_magnetogram.evaluate_spherical(c, np.full(theta.shape, r), theta, phi, **kw)
        ctx.close("net flux", np.sum(w * f[0]) * (r / r0) ** 2, 4 * np.pi * mono, rtol=1e-9, scale=4 * np.pi * total * (r / r0) ** 2 * 1.0)
        if r >= rss:
            unsigned.append(np.sum(w * np.abs(f[0])) * r ** 2)
    # A sphere that is not centred on the star but encloses it: the flux is that of the monopole too.
    q = 90
    t2, p2, w2 = ref.sphere_quadrature(q)
    R, d = 1.6 * r0, .25 * r0 * np.array([np.sin(1 + rng.random()), .3, .2])
    if R + np.linalg.norm(d) < rss and lmax <= 3:
        nrm = ref.basis(t2, p2)[..., 0, :]
        pos = R * nrm + d
        b = np.stack(pfss_magnetogram.evaluate_cartesian(c, *(pos[..., i] for i in range(3)), **kw)[3:], -1)
        ctx.close("net flux through a shifted sphere", np.sum(w2 * np.sum(b * nrm, -1)) * (R / r0) ** 2, 4 * np.pi * mono, rtol=1e-7, scale=4 * np.pi * total)
        ctx.ev("shifted_spheres")
    for u in unsigned:
        ctx.close("unsigned flux outside the source surface", u, unsigned[0], rtol=1e-9, scale=unsigned[0] + 1e-9 * total * rss ** 2)
    ctx.describe("flux", sorted(M)[:10], len(M), r0, rss)


CASES = {"derivatives": (derivatives, 300, 4000), "flux": (flux, 250, 3000)}
CHUNK = 4
