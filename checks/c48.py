"""C48: the parts of the package agree on the same magnetogram."""
import os

import numpy as np
import quaternion
from starwinds_magnetogram import (converter, geometry, image_converter, longitudinal_field, pfss_magnetogram, reader_writer, rotate, zdi_magnetogram)
from starwinds_magnetogram.geometry import ZdiGeometry
import cli
import files
import gen
import ref

PROPERTY = "C48"
QUICK_SCALE = 4
RULE = ("random magnetograms taken through files, the command, the reader and both field evaluations; images against fields; rotated magnetograms against moved curves, "
        "energies, statistics and images; a case is the magnetogram with the chain of operations")
REQUIRE = dict(pipelines=80, images=80, rotations=150)


def pipeline(ctx):
    """ZDI file -> command -> PFSS file -> command -> ZDI file, with fields evaluated from each."""
    rng = ctx.rng
    work = ctx.scratch()
    pairs = gen.lm_pairs(rng, lmax=gen.top(rng, rng.choice([1, 2, 4, 8, 15]), (25, 40)), lmin=int(rng.integers(2)))
    vals = gen.values(rng, (len(pairs), 3), float(10. ** rng.integers(-3, 4)))
    vals += np.max(np.abs(vals)) * .1
    with open(os.path.join(work, "a.dat"), "w") as f:
        f.write(files.text(dict(zip(pairs, vals))))
    c = reader_writer.read_magnetogram_file(os.path.join(work, "a.dat"))
    opts = [[], ["--no-header"]][int(rng.integers(2))]
    res = cli.run("convert_magnetogram", ["a.dat", "b.dat"] + opts, work)
    ctx.check(res.ok, "conversion to PFSS failed", error=res.error)
    p = reader_writer.read_magnetogram_file(os.path.join(work, "b.dat"))
    theta, phi = gen.points(rng, int(rng.integers(3, 30)))
    l, m = np.array(pairs).T
    a = vals[:, 0]
    want = ref.zdi_field(l, m, a, 0 * a, 0 * a, theta, phi)
    s = want.scale["r"] + ref.zdi_bound(l, m, a, 0 * a, 0 * a)
    z = zdi_magnetogram.from_coefficients(c)
    ctx.close("radial field of the file", z.get_radial_field(theta, phi), want["r"], rtol=1e-8, scale=s)
    b = pfss_magnetogram.evaluate_spherical(p, np.ones_like(theta), theta, -phi)[0]
    ctx.close("radial field of the converted file", b, want["r"], rtol=2e-6, scale=s)
    res = cli.run("convert_magnetogram", ["b.dat", "c.dat", "--pfss-to-zdi"], work)
    ctx.check(res.ok, "conversion back failed", error=res.error)
    back = zdi_magnetogram.from_coefficients(reader_writer.read_magnetogram_file(os.path.join(work, "c.dat")))
    ctx.close("radial field after conversion there and back", back.get_radial_field(theta, phi), want["r"], rtol=4e-6, scale=s)
    f = pfss_magnetogram.evaluate_spherical(p, np.ones_like(theta), theta, -phi, radius_star=1, radius_source_surface=3)
    ctx.close("polar field after conversion there and back", back.get_polar_field(theta, phi), f[1], rtol=4e-6, scale=s)
    ctx.close("azimuthal field after conversion there and back", back.get_azimuthal_field(theta, phi), -f[2], rtol=4e-6, scale=s)
    ctx.close("no toroidal field", back.get_polar_toroidal_field(theta, phi), 0 * theta, rtol=1e-12, scale=s)
    # The command and the function give the same (to the digits in files).
    q = gen.model(converter.convert_zdi_to_pfss(c.hsplit()[0]))
    for k, v in gen.model(p).items():
        w = complex(q[k][0]) if k in q else 0j
        ctx.close("coefficient converted by command and function", v[0], w, rtol=2e-6, scale=abs(w) + 1e-300, pair=k)
    ctx.ev("pipelines")
    ctx.describe("pipeline", pairs[:8], opts)


def grid(rng):
    return ZdiGeometry(int(rng.integers(3, 14)), int(rng.integers(4, 26)))


def images(ctx):
    rng = ctx.rng
    lmax = int(rng.choice([1, 2, 3, 6]))
    c = gen.coeffs(rng, 1, lmax=lmax, negative=bool(rng.random() < .4))
    M = gen.model(c)
    l, m = np.array(sorted(M)).T
    a = np.array([M[k][0] for k in sorted(M)])
    zg = grid(rng)
    polar, azimuth = zg.centers()
    s = ref.zdi_bound(l, m, a, 0 * a, 0 * a)
    z = zdi_magnetogram.from_coefficients(c)
    field = z.get_radial_field(polar, azimuth)
    img = image_converter.to_image(c, zg)
    ctx.close("real part of the image against the radial field", np.real(img), field, rtol=1e-9, scale=s)
    # The same sums over facets: mean of the field by the image, the areas and the converted field.
    pf = pfss_magnetogram.evaluate_spherical(converter.convert_zdi_to_pfss(converter.map_to_positive_orders(c)), np.ones_like(polar), polar, -azimuth)[0]
    ctx.close("PFSS field of the folded set against the image", pf, np.real(img), rtol=1e-9, scale=s)
    w = zg.areas()
    d = geometry.numerical_description(zg, z)
    r = {k: v for k, v in d.items() if "radial" in k and "oloidal" not in k and "oroidal" not in k}
    want = dict(max=np.max(np.abs(np.real(img))), mean=np.sum(w * np.abs(np.real(img))) / np.sum(w))
    for n, v in want.items():
        got = [x for k, x in r.items() if n in k.split(".")[-1].lower()]
        if got:
            ctx.close("statistics of the radial field from the image: " + n, float(got[0]), v, rtol=1e-8, scale=s)
            ctx.ev("statistics")
    # Analysing the evaluated field gives half of each coefficient and its mirror (within the error of the grid).
    n = 40
    fine = ZdiGeometry(n + 1, 2 * n + 1)
    got = image_converter.from_image(z.get_radial_field(*fine.centers()), fine, lmax + 1)[0]
    for x in range(lmax + 1):
        for y in range(-x, x + 1):
            cp, cm = complex(M.get((x, y), [0])[0]), complex(M.get((x, -y), [0])[0])
            ctx.close("coefficient of the evaluated field", complex(np.asarray(got.get(x, y)).reshape(-1)[0]), (cp + (-1) ** y * np.conj(cm)) / 2,
                      rtol=1.0, scale=s * 4 * (2 * lmax + 1) * (np.pi / n) ** 2 / 4 + 1e-12 * s, pair=(x, y))
    ctx.ev("images")
    ctx.describe("images", sorted(M)[:8], zg.shape)


def rotations(ctx):
    """A star turned about its axis by a whole number of facets."""
    rng = ctx.rng
    z = gen.zdi(rng, lmax=int(rng.integers(1, 5)), lmin=1, magnitude=float(10. ** rng.integers(-2, 3)))
    c = gen.build(list(zip(z.l.tolist(), z.m.tolist())), [np.array(v) for v in zip(z.a, z.b, z.g)])
    n, k = int(rng.integers(6, 24)), int(rng.integers(1, 12))
    zg = ZdiGeometry(int(rng.integers(4, 12)), n + 1)
    step = 2 * np.pi / n
    q = quaternion.from_rotation_vector([0, 0, k * step])
    R = quaternion.as_rotation_matrix(q).T
    turn = np.arctan2(R[1, 0], R[0, 0])           # azimuth to which the point at azimuth zero is moved
    rot = rotate.rotate_magnetogram(c, q)
    a, b = zdi_magnetogram.from_coefficients(c), zdi_magnetogram.from_coefficients(rot)
    s = ref.zdi_bound(*z.args)
    shift = int(np.round(turn / step))
    for g in ("get_radial_field", "get_polar_field", "get_azimuthal_field", "get_field_strength"):
        x, y = getattr(a, g)(*zg.centers()), getattr(b, g)(*zg.centers())
        ctx.close("turned " + g, y, np.roll(x, shift, axis=0), rtol=1e-9, scale=s)
    inc = float(rng.uniform(.1, 3))
    az = rng.uniform(0, 2 * np.pi, 5)
    u = longitudinal_field.get_longitudinal_field_curve(zg, a, inc, az)
    v = longitudinal_field.get_longitudinal_field_curve(zg, b, inc, az + turn)
    ctx.close("longitudinal field of the turned star", v, u, rtol=1e-9, scale=s)
    da, db = geometry.numerical_description(zg, a), geometry.numerical_description(zg, b)
    ctx.equal(sorted(da), sorted(db), "statistics reported")
    for key in da:
        if isinstance(da[key], (int, float, np.number)):
            ctx.close("statistics of the turned star", float(db[key]), float(da[key]), rtol=1e-8, scale=s, key=key)
    # Energies, degree by degree, after any rotation and folding.
    q = quaternion.from_float_array((lambda w: w / np.linalg.norm(w))(rng.normal(size=4)))
    sets = []
    for part in rotate.rotate_magnetogram(c, q).hsplit():
        sets.append(gen.model(converter.map_to_positive_orders(part)))
    keys = sorted(sets[0])
    lm = np.array(keys).T
    r = zdi_magnetogram.ZdiMagnetogram(lm[0], lm[1], *(np.array([x[k][0] for k in keys]) for x in sets))
    E, F = ref.zdi_energy(*z.args), ref.zdi_energy(r.degrees_l, r.orders_m, r.alpha, r.beta, r.gamma)
    mr, mz = r.energy_matrix(), a.energy_matrix()
    for d in range(int(np.max(z.l)) + 1):
        e2 = s ** 2
        for i in range(3):
            ctx.close("energy of a degree after rotation", np.sum(F[i][lm[0] == d]), np.sum(E[i][z.l == d]), rtol=1e-10, scale=e2)
    ctx.close("total energy in the matrix after rotation", np.sum(mr[0]) if isinstance(mr, (tuple, list)) else np.sum(mr),
              np.sum(mz[0]) if isinstance(mz, (tuple, list)) else np.sum(mz), rtol=1e-9, scale=s ** 2)
    ctx.ev("rotations")
    ctx.describe("rotations", repr(z), n, k)


CASES = {"pipeline": (pipeline, 60, 700), "images": (images, 60, 700), "rotations": (rotations, 100, 1200)}
CHUNK = 3
