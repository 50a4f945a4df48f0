"""C34: the Parker wind conserves mass and matches the stellar surface."""
import numpy as np
import scipy.constants as sc
from starwinds_magnetogram.parker_solution import AnalyticBase, ParkerSolution
from vh import fingerprint

PROPERTY = "C34"
QUICK_SCALE = 10
RULE = ("winds with random temperature, density, radius and mass (sonic point outside, next to or inside the star; defaults and single arguments too), evaluated at "
        "arrays of distances of any kind, above and below the surface, repeatedly with the same array; a case is the wind with the distances")
REQUIRE = dict(winds=300, below_surface=500, fluxes=3000, sonic_inside=20)
KEYS = "temperature", "base_density", "stellar_radius", "stellar_mass"
DEFAULT = 1.5e6, 1.5e14 * sc.proton_mass, 6.95510e8, 1.989e30


def wind(ctx):
    rng = ctx.rng
    k = rng.integers(6)
    v = list(DEFAULT)
    if k == 0:
        sol, how = ParkerSolution(), "default"
    else:
        R = 6.9551e8 * 10 ** rng.uniform(-1, 1.5)
        M = 1.989e30 * 10 ** rng.uniform(-1, 1)
        x = 10 ** rng.uniform(-2, .7)   # stellar radius over sonic radius
        if rng.random() < .1:
            x = 1 + rng.normal() * 1e-2
        T = sc.G * M * sc.proton_mass * x / (4 * R * sc.k)
        v = [T, 10 ** rng.uniform(-20, -5), R, M]
        if k == 1:     # a single argument, the others by default
            j = rng.integers(4)
            w = [1.5e6 * 10 ** rng.uniform(-.6, .6), v[1], R, M][j] if j != 2 else 6.9551e8 * 10 ** rng.uniform(-.5, .8)
            w = 1.989e30 * 10 ** rng.uniform(-.5, .5) if j == 3 else w
            v = list(DEFAULT)
            v[j] = w
            sol, how = ParkerSolution(**{KEYS[j]: w}), "one"
        elif k == 2:
            sol, how = ParkerSolution(*v), "positional"
        else:
            sol, how = ParkerSolution(**dict(zip(KEYS, v))), "named"
    return sol, v, how


def case(ctx):
    rng = ctx.rng
    sol, (T, rho, R, M), how = wind(ctx)
    ctx.ev("winds")
    cs = np.sqrt(2 * sc.k * T / sc.proton_mass)
    rs = sc.G * M * sc.proton_mass / (4 * sc.k * T)
    if rs < R:
        ctx.ev("sonic_inside")
    n = int(rng.choice([1, 2, 10, 40]))
    r = R * np.where(rng.random(n) < .25, rng.uniform(0, 1, n), 10 ** rng.uniform(0, 3, n))
    r[rng.random(n) < .1] = R
    if rng.random() < .3:
        r[0] = rs
    kind = str(rng.choice(["float", "int", "2d", "list", "scalar", "readonly", "descending"]))
    if kind == "int":
        r = np.round(r)
        given = r.astype(np.int64)
    elif kind == "2d":
        given = r[:, None] * np.ones(2)
    elif kind == "list":
        given = r.tolist()
    elif kind == "scalar":
        r = r[:1]
        given = float(r[0])
    elif kind == "descending":
        r = np.sort(r)[::-1]
        given = r
    else:
        given = r.copy()
        if kind == "readonly":
            given.flags.writeable = False
    before = fingerprint(given)
    ref = np.asarray(given, float)
    shape = ref.shape or (1,)
    ref = ref.reshape(shape)
    up = np.maximum(ref, R)
    ctx.ev("below_surface", np.sum(ref < R))
    speed = density = None
    for rep in range(3):
        for what in rng.permutation(["speed", "density"]):
            got = np.asarray(getattr(sol, what)(given))
            ctx.check(fingerprint(given) == before, "%s changed the distances" % what, kind=kind)
            ctx.check(got.shape == shape and got.dtype.kind == "f", "%s of the wrong shape or kind" % what, got=got, kind=kind)
            if what == "speed":
                if speed is not None:
                    ctx.same("speed again", got, speed)
                speed = got
            else:
                if density is not None:
                    ctx.same("density again", got, density)
                density = got
    near = np.abs(up / rs - 1) < 1e-3
    tol = np.where(near, 1e-4, 1e-9)
    want = cs * np.asarray(AnalyticBase.find_parker_analytic(up / rs), float)
    ctx.close("speed scaled from the dimensionless solution", speed, want, rtol=1.0, scale=tol * want)
    u = speed / cs
    y = 4 * np.log(up / rs) + 4 * (rs / up - 1)
    ctx.close("equation of the wind", u ** 2 - 1 - 2 * np.log(u), y, rtol=1e-9, scale=8 + np.abs(y) + u ** 2)
    ctx.check(not np.any(~near & ((up < rs) != (u < 1))), "wrong side of the speed of sound", distances=up / rs, u=u)
    ctx.check(np.all(density > 0), "density not positive", density=density)
    # Surface
    s = np.asarray(sol.density(R)).reshape(-1)
    ctx.close("density at the surface", s, np.array([rho]), rtol=1e-9)
    v0 = float(np.asarray(sol.speed(R)).reshape(-1)[0])
    below = ref < R
    ctx.close("speed below the surface", speed[below], np.full(below.sum(), v0), rtol=1e-9, scale=v0)
    ctx.close("density below the surface", density[below], np.full(below.sum(), rho), rtol=1e-9, scale=rho)
    # Mass
    flux = 4 * np.pi * up ** 2 * speed * density
    total = np.asarray(sol.total_mass_flux).reshape(-1)
    ctx.check(total.size == 1, "more than one total mass flux", total=total)
    base = 4 * np.pi * R ** 2 * v0 * rho
    ctx.ev("fluxes", flux.size)
    ctx.close("mass flux through spheres", flux, np.full(shape, base), rtol=1e-9, scale=base)
    ctx.close("total mass flux", total, np.array([base]), rtol=1e-9, scale=base)
    # Scaling: the density is proportional to the base density, speeds do not depend on it.
    f = 10 ** rng.uniform(-3, 3)
    other = ParkerSolution(temperature=T, base_density=rho * f, stellar_radius=R, stellar_mass=M)
    ctx.close("density with another base density", other.density(given), density * f, rtol=1e-9, scale=density * f)
    ctx.close("speed with another base density", other.speed(given), speed, rtol=1e-9, scale=speed)
    # One at a time
    flat, fs, fd = ref.reshape(-1), speed.reshape(-1), density.reshape(-1)
    for j in rng.choice(flat.size, min(4, flat.size), replace=False):
        t = 1e-4 if abs(max(flat[j], R) / rs - 1) < 1e-3 else 1e-10
        ctx.close("speed alone", np.asarray(sol.speed(float(flat[j]))).reshape(()), fs[j], rtol=t, scale=fs[j])
        ctx.close("density alone", np.asarray(sol.density(float(flat[j]))).reshape(()), fd[j], rtol=t, scale=fd[j])
    ctx.same("total mass flux again", np.asarray(sol.total_mass_flux).reshape(-1), total)
    ctx.check(fingerprint(given) == before, "the distances changed", kind=kind)
    str(sol)
    ctx.describe("wind", how, kind, T, rho, R, M, ref.tolist()[:4])


CASES = {"wind": (case, 600, 20000)}
