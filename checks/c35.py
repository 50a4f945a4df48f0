"""C35: numerical descriptions are the statistics of the evaluated field."""
import numpy as np
from starwinds_magnetogram import geometry
from starwinds_magnetogram.geometry import ZdiGeometry
import gen
import ref
from c28 import increasing
from vh import fingerprint

PROPERTY = "C35"
QUICK_SCALE = 2
RULE = ("random magnetograms (also purely poloidal, toroidal, radial, zero and of any magnitude) on full-sphere grids given by numbers, by default or by uneven "
        "corners, with and without a dictionary; a case is the magnetogram with the grid")
REQUIRE = dict(descriptions=100, values=4000)


def full_grid(rng):
    k = rng.integers(5)
    n, m = int(rng.integers(2, 20)), int(rng.integers(3, 34))
    if k == 0:
        return ZdiGeometry(), np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130)
    if k == 1:
        return ZdiGeometry(n), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, 2 * n)
    if k == 2:
        return ZdiGeometry(n, m), np.linspace(0, np.pi, n), np.linspace(0, 2 * np.pi, m)
    p, a = increasing(rng, n, 0, np.pi), increasing(rng, m, 0, 2 * np.pi)
    p[-1] = np.pi
    if k == 3:
        a[-1] = 2 * np.pi
    else:
        a = increasing(rng, m, -np.pi, np.pi)
        a[-1] = np.pi
    return ZdiGeometry(p, a), p, a


def case(ctx):
    rng = ctx.rng
    z = gen.zdi(rng, lmax=int(rng.integers(1, 9)), lmin=1)
    if rng.random() < .05:
        z = gen.Zdi(z.l, z.m, 0 * z.a, 0 * z.b, 0 * z.g)
    mgm = z.make(["arrays", "coefficients"][rng.integers(2)])
    zg, p, a = full_grid(rng)
    dest, given = None, {}
    if rng.random() < .5:
        dest = given = {"other": 1, "magnetogram.radial.energy": 2.5}
    before = fingerprint([mgm, zg])
    out = geometry.numerical_description(zg, mgm, dest) if dest is not None else geometry.numerical_description(zg, mgm)
    ctx.check(fingerprint([mgm, zg]) == before, "describing changed the magnetogram or grid")
    ctx.ev("descriptions")
    if dest is not None:
        ctx.check(out is dest, "another dictionary returned than the one given")
        ctx.check(out["other"] == 1 and out["magnetogram.radial.energy"] == 2.5, "other entries of the dictionary changed")
        given = {"other", "magnetogram.radial.energy"}
    shape = len(a) - 1, len(p) - 1
    pc = np.broadcast_to((p[1:] + p[:-1]) / 2, shape)
    ac = np.broadcast_to(((a[1:] + a[:-1]) / 2)[:, None], shape)
    w = (np.diff(a)[:, None] * (np.cos(p[:-1]) - np.cos(p[1:]))) / (4 * np.pi)
    zero = 0 * z.a
    F = {"poloidal": ref.zdi_field(z.l, z.m, z.a, z.b, zero, pc, ac), "toroidal": ref.zdi_field(z.l, z.m, zero, zero, z.g, pc, ac)}
    scale = float(sum(ref.zdi_bound(int(l), int(m), *abc) for l, m, *abc in zip(*z.args)))
    want = {}
    total = 0
    for i, d in enumerate(("radial", "polar", "azimuthal")):
        f = {k: np.asarray(v["rtp"[i]]) for k, v in F.items()}
        s = f["poloidal"] + f["toroidal"]
        want[d + "-poloidal"], want[d + "-toroidal"], want[d] = f["poloidal"], f["toroidal"], s
        total = total + s ** 2
    want["field strength"] = np.sqrt(total)
    for name, f in want.items():
        f = np.abs(f)
        mean = np.sum(f * w)
        stat = dict(max=np.max(f), mean=mean, rms=np.sqrt(np.sum(f ** 2 * w)), std=np.sqrt(np.sum((f - mean) ** 2 * w)))
        for k, v in stat.items():
            key = "magnetogram.%s.abs.%s" % (name, k)
            ctx.check(key in out, "not reported: " + key)
            ctx.ev("values")
            # The tangential fields lose digits next to the poles.
            ctx.close("%s %s" % (name, k), float(out[key]), v, rtol=1e-8, scale=scale)
    extra = set(out) - {"magnetogram.%s.abs.%s" % (n, k) for n in want for k in ("max", "mean", "rms", "std")} - set(given)
    ctx.check(not [k for k in extra if ".abs." in k], "more is reported than the field has", extra=sorted(extra))
    again = geometry.numerical_description(zg, mgm, {})
    for k, v in again.items():
        ctx.close("described again", float(v), float(out[k]), rtol=1e-12)
    # Without a dictionary each description is a new one.
    first = geometry.numerical_description(zg, mgm)
    kept = dict(first)
    other = gen.zdi(rng, lmax=3, lmin=1).make("arrays")
    second = geometry.numerical_description(zg, other)
    ctx.check(first is not second and first is not out and second is not out, "descriptions without a dictionary share one")
    ctx.check(first == kept, "an earlier description changed")
    ctx.describe("description", z, p.tolist()[:4], a.tolist()[:4], len(p), len(a), dest is None)


CASES = {"description": (case, 150, 3000)}
