"""C45: computations never change their inputs and always repeat."""
import contextlib
import io
import os
import random
import re
import sys
import threading
import time

import numpy as np
import quaternion
import starwinds_magnetogram
import starwinds_magnetogram.coefficients as shc
from starwinds_magnetogram import (associated_legendre, converter, coordinate_transforms, fibonacci_sphere, geometry, image_converter,
                                   longitudinal_field, parker_solution, pfss_magnetogram, reader_writer, rotate, zdi_magnetogram)
from starwinds_magnetogram.geometry import ZdiGeometry
import gen
from vh import fingerprint

PROPERTY = "C45"
RULE = ("a battery of over a hundred operations (fields, energies, conversions, rotations, images, geometry, wind, listings, reading and writing) on shared inputs, "
        "in random order with repeats, other inputs, failing calls and in-place changes of results in between, also on read-only inputs and from several "
        "threads with rapid switching; arrays and coefficients changed in place by the caller or permuted between calls; a case is a history on its own inputs")
REQUIRE = dict(repeats=30000, concurrent_repeats=8000, forced_switches=10000, failing_calls=1000, read_only_repeats=2000, snapshots=15000, operations_in_battery=8000, neighbour_calls=8000)
TOL = 1e-12


def flat(x, out=None, name=""):
    """The observable content of a result as a list of (name, value)."""
    out = [] if out is None else out
    if isinstance(x, shc.Coefficients):
        out.append((name + ".default", np.array(x.default_coefficients)))
        out += [(name + repr(k), np.array(v)) for k, v in x.contents()]
    elif isinstance(x, zdi_magnetogram.ZdiMagnetogram):
        out += [(name + "." + a, np.array(getattr(x, a))) for a in ("degrees_l", "orders_m", "alpha", "beta", "gamma")]
    elif isinstance(x, ZdiGeometry):
        flat(x.corners(), out, name + ".corners")
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            flat(x[k], out, name + "[%r]" % (k,))
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            flat(y, out, name + "[%d]" % i)
    elif isinstance(x, (np.ndarray, np.generic, int, float, complex)) and not isinstance(x, bool):
        out.append((name, np.array(x)))
    else:
        out.append((name, re.sub("0x[0-9a-f]+", "", repr(x))))
    return out


def differ(a, b):
    """None if the two contents are the same, or what differs."""
    if len(a) != len(b):
        return "%d parts instead of %d" % (len(b), len(a))
    for (n, x), (k, y) in zip(a, b):
        if n != k or type(x) is not type(y):
            return "%s instead of %s" % (k, n)
        if isinstance(x, str):
            if x != y:
                return "%s: %s instead of %s" % (n, y[:100], x[:100])
        elif x.shape != y.shape or x.dtype != y.dtype:
            return "%s: other shape or type" % n
        elif x.tobytes() != y.tobytes() and x.size:
            if x.dtype.kind not in "fc":
                return "%s: other values" % n
            fin = np.isfinite(x)
            if not np.array_equal(fin, np.isfinite(y)) or not np.array_equal(x[~fin], y[~fin], equal_nan=True):
                return "%s: other non-finite values" % n
            if not np.all(np.abs(x - y)[fin] <= TOL * np.max(np.abs(x[fin]), initial=0)):
                return "%s: other values, by %g" % (n, np.max(np.abs(x - y)[fin]))
    return None


def everything(mg, theta, phi):
    return {(a, b): f(theta, phi) for a, d in mg.get_all().items() for b, f in d.items()}


class Battery:
    """Shared inputs and the operations on them."""

    def __init__(self, rng, scratch, lmax=4, read_only=False):
        n, k = int(rng.integers(2, 6)), int(rng.integers(4, 10))
        self.inputs = I = {}
        theta, phi = gen.points(rng, n * k, margin=.05)
        I["theta"], I["phi"] = theta, phi
        I["theta2"], I["phi2"] = theta.reshape(n, k).copy(), phi.reshape(n, k).copy()
        z = gen.zdi(rng, lmax=lmax, lmin=1, magnitude=float(10. ** rng.integers(-1, 3)))
        I["arrays"] = [np.array(x) for x in z.args]
        if read_only:
            for x in [v for v in I.values() if isinstance(v, np.ndarray)] + I["arrays"]:
                x.flags.writeable = False
        mg = I["mg"] = zdi_magnetogram.ZdiMagnetogram(*I["arrays"])
        c3 = I["c3"] = gen.coeffs(rng, 3, lmax=lmax, lmin=1)
        c1 = I["c1"] = gen.coeffs(rng, 1, lmax=lmax, lmin=1, magnitude=2.)
        cn = I["cn"] = gen.coeffs(rng, 1, lmax=lmax, lmin=0, negative=True, magnitude=2.)
        same = I["same"] = gen.build(list(gen.model(c1)), list(gen.values(rng, (c1.size, 1), 1.)))
        I["r"] = rng.uniform(.8, 4, n * k)
        xyz = I["xyz"] = list(rng.normal(size=(3, n, k)) * 1.5)
        zg = I["zg"] = ZdiGeometry(int(rng.integers(4, 8)), int(rng.integers(5, 10)))
        zu = I["zu"] = ZdiGeometry(np.array([0, .4, 1, 1.3, 2.2, np.pi]), np.array([0, .9, 2, 3.7, 5, 2 * np.pi]))
        img = I["img"] = rng.normal(size=zg.centers()[0].shape)
        gimg = I["gimg"] = ZdiGeometry(*[f + 1 for f in img.shape][::-1])
        q = I["q"] = quaternion.from_float_array((lambda v: v / np.linalg.norm(v))(rng.normal(size=4)))
        e = I["e"] = rng.uniform(-180, 180, 3)
        f3 = I["f3"] = list(rng.normal(size=(3, n, k)))
        area = float(rng.uniform(.5, 1.5))
        wind = I["wind"] = parker_solution.ParkerSolution(temperature=float(rng.uniform(1e6, 3e6)))
        radii = I["radii"] = wind.stellar_radius * rng.uniform(.5, 40, 7)
        xi = I["xi"] = rng.uniform(.05, 20, 9)
        obs = I["obs"] = np.sort(rng.uniform(0, 2 * np.pi, 4))
        dirn = I["dirn"] = np.array([.6, 0, .8])
        mat = I["mat"] = rng.uniform(0, 3, (3,))
        path = os.path.join(scratch, "shared%d.dat" % rng.integers(2 ** 40))
        self.files = [path]
        reader_writer.write_magnetogram_file(c3, path)
        if read_only:
            for v in (I["r"], img, e, radii, xi, obs, dirn, mat, *xyz, *f3):
                v.flags.writeable = False
        th3, ph3 = I["theta3"], I["phi3"] = gen.points(rng, n * k, margin=.05)      # as many, but others
        th, ph, th2, ph2, r = I["theta"], I["phi"], I["theta2"], I["phi2"], I["r"]
        self.scratch = scratch
        kw = dict(radius_star=1, radius_source_surface=float(rng.uniform(2, 4)))
        l, m = (np.array(x) for x in zip(*[(a, b) for a in range(lmax + 1) for b in range(a + 1)]))
        inclination = float(rng.uniform(0, np.pi))
        O = self.ops = {}
        for g in ("get_radial_poloidal_field", "get_radial_toroidal_field", "get_radial_field", "get_azimuthal_poloidal_field",
                  "get_azimuthal_toroidal_field_new", "get_azimuthal_field", "get_polar_poloidal_field_new",
                  "get_polar_toroidal_field", "get_polar_field", "get_field_strength", "get_cartesian_field", "get_cartesian_poloidal_field",
                  "get_cartesian_toroidal_field"):
            O[g] = lambda g=g: getattr(mg, g)(th, ph)
            O[g + " 2d"] = lambda g=g: getattr(mg, g)(th2, ph2)
            O[g + " elsewhere"] = lambda g=g: getattr(mg, g)(th3, ph3)
        self.fresh = set(O)         # results that the caller may overwrite
        O.update({
            "get_all": lambda: everything(mg, th, ph), "degree": lambda: mg.degree(), "str mg": lambda: str(mg), "copy": mg.copy, "as_poloidal": mg.as_poloidal,
            "as_toroidal": mg.as_toroidal, "as_dipole": lambda: mg.as_restricted((0, int(mg.degree()))), "from arrays again": lambda:
            zdi_magnetogram.ZdiMagnetogram(*I["arrays"]).get_radial_field(th, ph),
            "energy": lambda: mg.energy(), "energy into": lambda: mg.energy(dest={"old": 1}), "energy fractions": lambda: mg.energy(show_fractions=True),
            "energy_matrix": mg.energy_matrix, "energy of poloidal": lambda: mg.as_poloidal().energy(),
            "from_coefficients": lambda: zdi_magnetogram.from_coefficients(c3), "c_lm": lambda: zdi_magnetogram.get_c_lm(l, m),
            "pfss spherical": lambda: pfss_magnetogram.evaluate_spherical(c1, r, th, ph, **kw),
            "pfss spherical default": lambda: pfss_magnetogram.evaluate_spherical(c1, r, th, ph),
            "pfss one radius": lambda: pfss_magnetogram.evaluate_spherical(c1, 1.5, th2, ph2, **kw),
            "pfss cartesian": lambda: pfss_magnetogram.evaluate_cartesian(c1, *xyz, **kw),
            "pfss cartesian default": lambda: pfss_magnetogram.evaluate_cartesian(c1, *xyz),
            "normal_plane": lambda: [pfss_magnetogram.normal_plane(xyz[0], xyz[1], d) for d in "xyz"],
            "r_l": lambda: pfss_magnetogram.r_l(3, r, 1, 5.), "phi_lm": lambda: pfss_magnetogram.phi_lm(2, 1., 2., ph),
            "theta_lm": lambda: pfss_magnetogram.theta_lm(1, 0, th2), "all theta": lambda: pfss_magnetogram.calculate_all_theta(l, m, th),
            "zdi to pfss": lambda: converter.convert_zdi_to_pfss(c1), "pfss to zdi": lambda: converter.convert_pfss_to_zdi(c1),
            "pfss to zdi 2": lambda: converter.convert_pfss_to_zdi(cn),
            "positive orders": lambda: converter.map_to_positive_orders(cn),
            "latlon": lambda: converter.convert_latlon_to_zdi_coeffs(th2, ph2, *f3, max_degree=2),
            "latlon area": lambda: converter.convert_latlon_to_zdi(th2, ph2, *f3, area=area, max_degree=1),
            "rotate": lambda: rotate.rotate_magnetogram(c3, q), "rotate euler": lambda: rotate.rotate_magnetogram_euler_zyz_deg(cn, e),
            "to_image": lambda: image_converter.to_image(cn, zg), "to_image 2": lambda: image_converter.to_image(cn, zu),
            "from_image": lambda: image_converter.from_image(img, lmax=4), "from_image zg": lambda: image_converter.from_image(img, gimg, lmax=3),
            "harmonic": lambda: image_converter.spherical_harmonic(1, 2, *zg.centers()[::-1]),
            "harmonic uncached": lambda: image_converter.spherical_harmonic(1, 2, *zg.centers()[::-1], use_cache=False),
            "curve": lambda: longitudinal_field.get_longitudinal_field_curve(zg, mg, inclination, obs),
            "curve default": lambda: longitudinal_field.get_longitudinal_field_curve(zu, mg, inclination),
            "describe": lambda: geometry.numerical_description(zg, mg), "describe into": lambda: geometry.numerical_description(zg, mg, {"x": 3}),
            "coordinates": lambda: coordinate_transforms.spherical_coordinates_from_rectangular(*xyz),
            "rectangular": lambda: coordinate_transforms.rectangular_coordinates_from_spherical(r, th, ph),
            "matrix": lambda: coordinate_transforms.spherical_to_rectangular_transformation_matrix(th, ph),
            "matrix back": lambda: coordinate_transforms.rectangular_to_spherical_transformation_matrix(th, ph),
            "lpmn": lambda: associated_legendre.calculate_lpmn(l, m, th2), "lpmv_over_sin": lambda: associated_legendre.lpmv_over_sin(1, 3, th2),
            "speed": lambda: wind.speed(radii), "density": lambda: wind.density(radii), "flux": lambda: wind.total_mass_flux, "wind": lambda: str(wind),
            "default wind": lambda: parker_solution.ParkerSolution().speed(radii),
            "analytic": lambda: parker_solution.ParkerSolution.find_parker_analytic(xi),
            "analytic all": lambda: parker_solution.ParkerSolution.find_parker_analytic(xi, all_sols=True),
            "fibonacci": lambda: fibonacci_sphere.fibonacci_sphere(17),
            "add": lambda: c1 + same, "subtract": lambda: c1 - same, "add other": lambda: shc.add(c1, cn), "times": lambda: c3 * 2.5, "times left": lambda: 3 * c3,
            "divide": lambda: c1 / 4., "power": lambda: c1 ** 2, "scale": lambda: c3.scale(lambda a, b: a + 2 * b + 1., -1), "truncated": lambda: c3.truncated(2),
            "hsplit": lambda: c3.hsplit(), "hstack": lambda: shc.hstack((c1, c1 * 2)), "copy c": c3.copy, "contents": lambda: list(c3.contents()),
            "as_arrays": lambda: c3.as_arrays(), "as_arrays set": lambda: cn.as_arrays(include_unset=False), "get": lambda: [c3.get(a, b) for a, b in zip(l.tolist(), m.tolist())],
            "empty_like": lambda: shc.empty_like(c3), "zeros_like": lambda: shc.zeros_like(c3), "allclose": lambda: shc.allclose(c1, same),
            "isclose": lambda: shc.isclose(c1, c1), "str": lambda: str(c3), "repr": lambda: repr(c1), "default": lambda: shc.Coefficients().get(3, 1),
            "read": lambda: reader_writer.read_magnetogram_file(path), "write": self.write, "sets": lambda: [c3.size, c3.degree_max, c3.order_min],
        })
        for key, g in (("zg", zg), ("zu", zu)):
            O.update({key + " " + n: getattr(g, n) for n in ("corners", "centers", "unit_normals", "areas", "corners_cartesian", "centers_cartesian")})
            O[key + " visible"] = lambda g=g: g.projected_visible_area_fraction(dirn)
        self.c3 = c3

    def write(self):
        path = os.path.join(self.scratch, "w%d-%d.dat" % (threading.get_ident(), id(self)))
        reader_writer.write_magnetogram_file(self.c3, path)
        with open(path) as f:
            text = f.read()
        return text.replace(os.path.basename(path), "").replace(path, "")

    def inputs_print(self):
        out = [fingerprint(v.__dict__ if isinstance(v, parker_solution.ParkerSolution) else v) for v in self.inputs.values()]
        for p in self.files:
            with open(p, "rb") as f:
                out.append(f.read())
        return out


def failing(rng, B):
    """Calls that raise (some of them depend on the installed libraries, none may have an effect)."""
    I = B.inputs
    calls = [lambda: I["mg"].get_radial_field(I["theta"], I["phi"][:-1]),
             lambda: pfss_magnetogram.evaluate_spherical(I["c1"], 1., I["theta"], I["phi"][1:]),
             lambda: pfss_magnetogram.evaluate_spherical(I["c1"], 1., I["theta"], I["phi"], radius_star=3, radius_source_surface=2),
             lambda: pfss_magnetogram.evaluate_cartesian(I["c1"], I["xyz"][0], I["xyz"][1], I["xyz"][2][:1]),
             lambda: converter.map_to_positive_orders(I["c3"]), lambda: rotate.rotate_magnetogram(I["c1"], "nothing"),
             lambda: image_converter.to_image(I["cn"], None), lambda: image_converter.from_image(I["img"][:2], I["zg"]),
             lambda: image_converter.spherical_harmonic(1, 2, None, None), lambda: shc.from_arrays([1, 2], [0], [1, 2]),
             lambda: reader_writer.read_magnetogram_file(os.path.join(B.scratch, "missing.dat")), lambda: I["c1"] + I["c3"],
             lambda: I["c3"].set(17, 3, 1), lambda: I["c1"].append(*list(I["c1"].contents())[0][0], 1j), lambda: I["c3"].append(2, 3, 1j),
             lambda: parker_solution.ParkerSolution(stellar_mass=None), lambda: zdi_magnetogram.get_c_lm(None, 2),
             lambda: shc.hstack((I["c1"], None)), lambda: I["c3"].scale(lambda l, m: 1 / 0), lambda: I["c3"] * "x",
             lambda: longitudinal_field.get_longitudinal_field_curve(I["zg"], None, 1.), lambda: geometry.numerical_description(I["zg"], None),
             lambda: converter.convert_latlon_to_zdi_coeffs(I["theta2"], I["phi2"], I["f3"][0], I["f3"][1], None)]
    return calls[int(rng.integers(len(calls)))]


class Interrupted:
    """Fails within a computation: an array-like whose conversion raises, given in place of an argument."""

    def __array__(self, *a, **k):
        raise ZeroDivisionError("injected")


def state():
    r = np.random.get_state()
    return (r[0], r[1].tobytes(), r[2:], hash(random.getstate()), repr(np.geterr()), os.getcwd())


def baseline(ctx, B):
    base = {}
    before = B.inputs_print()
    for n, f in B.ops.items():
        s = state()
        try:
            base[n] = flat(f())
        except Exception as e:
            ctx.fail("operation %s failed" % n, error=repr(e))
        ctx.check(state() == s, "operation %s changed the random state, error handling or directory" % n)
        ctx.check(B.inputs_print() == before, "operation %s changed its inputs" % n)
        ctx.ev("snapshots")
    ctx.ev("operations_in_battery", len(B.ops))
    return base


def repeat(ctx, B, base, n, what=""):
    got = B.ops[n]()
    bad = differ(base[n], flat(got))
    ctx.ev("repeats")
    ctx.check(bad is None, "operation %s does not repeat%s" % (n, what), difference=bad)
    return got


def history(ctx):
    rng = ctx.rng
    read_only = bool(ctx.index % 4 == 3)
    A = Battery(rng, ctx.scratch(), int(rng.integers(1, 6)), read_only)
    base = baseline(ctx, A)
    before = A.inputs_print()
    B = Battery(rng, ctx.scratch(), int(rng.integers(1, 6)))
    names = list(A.ops)
    last = []
    for step in range(180):
        k = rng.random()
        if k < .2:      # other inputs
            n = names[int(rng.integers(len(names)))]
            B.ops[n]()
            last.append("other " + n)
        elif k < .35:
            s = state()
            X = A if rng.random() < .7 else B
            try:
                failing(rng, X)()
            except Exception:
                ctx.ev("failing_calls")
            ctx.check(state() == s, "a failing call changed the random state, error handling or directory")
            last.append("failing")
        elif k < .4:    # a failure in the middle of a computation
            try:
                g = names[int(rng.integers(39))]
                getattr(A.inputs["mg"], g.split()[0])(A.inputs["theta"], Interrupted())
            except Exception:
                ctx.ev("failing_calls")
            last.append("interrupted")
        elif k < .5:    # results belong to the caller
            n = sorted(A.fresh)[int(rng.integers(len(A.fresh)))]
            got = A.ops[n]()
            if isinstance(got, np.ndarray) and got.flags.writeable:
                got *= 0
                got += 5
            last.append("overwrote " + n)
        else:
            n = names[int(rng.integers(len(names)))]
            repeat(ctx, A, base, n, " after " + ", ".join(last[-4:]))
            if read_only:
                ctx.ev("read_only_repeats")
            last.append(n)
        if step % 6 == 0:
            ctx.check(A.inputs_print() == before, "inputs changed", last=last[-7:])
            ctx.ev("snapshots")
    for n in rng.permutation(names):
        repeat(ctx, A, base, n, " at the end")
    ctx.check(A.inputs_print() == before, "inputs changed at the end")
    ctx.describe("history", read_only, last[:12], A.inputs["theta"][:2].tolist())


def threads(ctx):
    """Several threads on the same inputs."""
    rng = ctx.rng
    A = Battery(rng, ctx.scratch(), int(rng.integers(1, 5)), bool(rng.random() < .3))
    B = Battery(rng, ctx.scratch(), int(rng.integers(1, 5)))
    base = {id(A): baseline(ctx, A), id(B): baseline(ctx, B)}
    before = A.inputs_print(), B.inputs_print()
    names = list(A.ops)
    kind = rng.random()
    if kind < .3:       # one object, asked for its field in several places
        getters = sorted({n.split()[0] for n in A.fresh})
        names = [g + e for g in rng.choice(getters, 4, replace=False) for e in ("", " 2d", " elsewhere")] + ["describe", "curve", "get_all"]
    elif kind < .7:     # few operations, so that they meet
        names = [names[i] for i in rng.choice(len(names), 8, replace=False)]
    k = int(rng.integers(2, 6))
    gate, bad, done = threading.Barrier(k), [], []

    root = os.path.dirname(os.path.abspath(starwinds_magnetogram.__file__))
    rate = float(rng.choice([0, .02, .2]))
    slips = []

    def tracer(r):
        """Give other threads a turn between two lines of the code, or stay away for longer."""
        def local(frame, event, arg):
            if event == "line" and r.random() < rate:
                time.sleep(float(r.choice([0, 0, 1e-6, 1e-4])))
                slips.append(1)
            return local

        def outer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(root) else None
        return outer

    def work(seed):
        r = np.random.default_rng(seed)
        gate.wait()
        if rate:
            sys.settrace(tracer(np.random.default_rng(seed + 1)))
        try:
            run(r)
        finally:
            sys.settrace(None)

    def run(r):
        for _ in range(50):
            X = A if r.random() < .6 else B
            n = names[int(r.integers(len(names)))]
            try:
                if r.random() < .1:
                    try:
                        failing(r, X)()
                    except Exception:
                        pass
                    continue
                d = differ(base[id(X)][n], flat(X.ops[n]()))
            except Exception as e:
                d = repr(e)
            done.append(n)
            if d is not None:
                bad.append((n, d))
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    try:
        ts = [threading.Thread(target=work, args=(int(rng.integers(2 ** 31)),), daemon=True) for _ in range(k)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.ev("forced_switches", len(slips))
    ctx.ev("concurrent_repeats", len(done))
    ctx.ev("order_switches", sum(a != b for a, b in zip(done, done[1:])))
    ctx.check(not bad, "a concurrent call gave another result", first=bad[:3], number=len(bad))
    ctx.check((A.inputs_print(), B.inputs_print()) == before, "concurrent calls changed the inputs")
    ctx.describe("threads", k, done[:10])


def neighbours(ctx):
    """The same arrays and coefficients with other content, changed in place by the caller or alike in shape, sums and ends: only the content counts."""
    rng = ctx.rng
    B = Battery(rng, ctx.scratch(), int(rng.integers(1, 6)))
    I = B.inputs
    mg, c1, c3, cn, wind = (I[k] for k in ("mg", "c1", "c3", "cn", "wind"))
    kw = dict(radius_star=.5, radius_source_surface=float(rng.uniform(6, 9)))
    n = I["theta"].size
    l, m = (np.array(x) for x in zip(*[(a, b) for a in range(4) for b in range(a + 1)]))
    xyz = [np.ravel(x) for x in I["xyz"]]
    tp, rtp = [I["theta"], I["phi"]], [I["r"], I["theta"], I["phi"]]
    speeds = [wind.stellar_radius * rng.uniform(.5, 40, n)]
    # name -> (function of arrays with one value per point, arrays, axis of the points in each result)
    O = {g: (lambda t, p, g=g: getattr(mg, g)(t, p), tp) for g in (
        "get_radial_poloidal_field", "get_radial_toroidal_field", "get_radial_field", "get_azimuthal_poloidal_field", "get_azimuthal_toroidal_field_new",
        "get_azimuthal_field", "get_polar_poloidal_field_new", "get_polar_toroidal_field", "get_polar_field", "get_field_strength", "get_cartesian_field",
        "get_cartesian_poloidal_field", "get_cartesian_toroidal_field")}
    O.update({
        "pfss spherical": (lambda r, t, p: pfss_magnetogram.evaluate_spherical(c1, r, t, p, **kw), rtp),
        "pfss spherical default": (lambda r, t, p: pfss_magnetogram.evaluate_spherical(c1, r, t, p), rtp),
        "pfss one radius": (lambda t, p: pfss_magnetogram.evaluate_spherical(c1, 1.5, t, p, **kw), tp),
        "pfss cartesian": (lambda *x: pfss_magnetogram.evaluate_cartesian(c1, *x, **kw), xyz),
        "lpmn": (lambda t: associated_legendre.calculate_lpmn(l, m, t), tp[:1]),
        "lpmv_over_sin": (lambda t: associated_legendre.lpmv_over_sin(1, 3, t), tp[:1]),
        "theta_lm": (lambda t: pfss_magnetogram.theta_lm(2, 1, t)[0], tp[:1]),
        "all theta": (lambda t: pfss_magnetogram.calculate_all_theta(l, m, t), tp[:1]),
        "phi_lm": (lambda p: pfss_magnetogram.phi_lm(2, 1., 2., p), tp[1:]), "r_l": (lambda r: pfss_magnetogram.r_l(3, r, 1, 5.), rtp[:1]),
        "coordinates": (coordinate_transforms.spherical_coordinates_from_rectangular, xyz),
        "rectangular": (coordinate_transforms.rectangular_coordinates_from_spherical, rtp),
        "matrix": (lambda t, p: np.moveaxis(coordinate_transforms.spherical_to_rectangular_transformation_matrix(t, p), (0, 1), (-2, -1)), tp),
        "harmonic": (lambda t, p: image_converter.spherical_harmonic(1, 2, p, t, use_cache=False), tp),
        "speed": (wind.speed, speeds), "density": (wind.density, speeds),
        "analytic": (parker_solution.ParkerSolution.find_parker_analytic, [rng.uniform(.05, 20, n)]),
        "curve": (lambda a: longitudinal_field.get_longitudinal_field_curve(I["zg"], mg, 1., a), [rng.uniform(0, 6, n)]),
    })

    def parts(y):
        """A list of arrays with the points first."""
        y = list(y) if isinstance(y, tuple) else [y]
        return [np.moveaxis(np.asarray(x), list(np.shape(x)).index(n) if np.shape(x)[0] != n else 0, 0) for x in y]

    def compare(name, got, want, what):
        ctx.ev("neighbour_calls")
        for a, b in zip(parts(got), want):
            ctx.check(np.array_equal(np.isfinite(a), np.isfinite(b)), "%s: other finite values %s" % (name, what))
            f = np.isfinite(b)
            ctx.close("%s %s" % (name, what), a[f], b[f], rtol=1e-9, scale=np.max(np.abs(b[f]), initial=1e-300))
    for name in rng.permutation(list(O)):
        f, args = O[name]
        base = [x.copy() for x in parts(f(*[x.copy() for x in args]))]
        mine = [x.copy() for x in args]
        f(*mine)
        for what in rng.permutation(["reversed", "permuted", "two swapped", "rolled"]):
            perm = np.arange(n)
            if what == "reversed":
                perm = perm[::-1]
            elif what == "permuted":
                perm = rng.permutation(n)
            elif what == "rolled":
                perm = np.roll(perm, int(rng.integers(1, n)))
            else:
                i, j = rng.choice(np.arange(1, n - 1), 2, replace=False)
                perm[i], perm[j] = j, i
            other = [x[perm] for x in args]
            if rng.random() < .7:
                for x, y in zip(mine, other):
                    x[...] = y
                compare(name, f(*mine), [b[perm] for b in base], "of arrays changed in place (%s)" % what)
            else:
                compare(name, f(*other), [b[perm] for b in base], "of %s points" % what)
        if len(args) > 1 and rng.random() < .5:     # only one of the arrays
            k = int(rng.integers(len(args)))
            want = [x.copy() for x in parts(f(*[np.ascontiguousarray(x[::-1]) if i == k else x.copy() for i, x in enumerate(args)]))]
            mine = [x.copy() for x in args]
            compare(name, f(*mine), base, "again")
            mine[k][...] = mine[k][::-1].copy()
            compare(name, f(*mine), want, "with one array changed in place")
    # Coefficients that the caller changes in place, or with the same degrees and sums.
    zg, ev = I["zg"], {}
    q = I["q"]
    th, ph = I["theta"], I["phi"]
    ev["c1"] = [lambda c: pfss_magnetogram.evaluate_spherical(c, I["r"], th, ph, **kw), converter.convert_zdi_to_pfss, converter.convert_pfss_to_zdi,
                lambda c: pfss_magnetogram.evaluate_cartesian(c, *xyz, **kw), lambda c: rotate.rotate_magnetogram(c, q), lambda c: c * 2, lambda c: c + c,
                lambda c: c.truncated(2), lambda c: c.as_arrays(), lambda c: shc.hstack((c, c)), str, repr, lambda c: c.scale(lambda a, b: a + 1.), shc.copy,
                lambda c: image_converter.to_image(c, zg), lambda c: [c.size, c.degree_max, c.order_min], lambda c: c.hsplit()]
    ev["c3"] = [lambda c: zdi_magnetogram.from_coefficients(c), lambda c: zdi_magnetogram.from_coefficients(c).get_radial_field(th, ph), lambda c: self_written(B, c),
                lambda c: rotate.rotate_magnetogram_euler_zyz_deg(c, I["e"]), lambda c: c - c * 2, lambda c: list(c.contents()), lambda c: c.hsplit(),
                lambda c: zdi_magnetogram.from_coefficients(c).energy()]
    for key, fs in ev.items():
        c = I[key]
        have = gen.model(c)
        width = len(next(iter(have.values())))
        mine = shc.copy(c)
        for _ in range(3):
            fs = [fs[i] for i in rng.permutation(len(fs))]
            for f in fs:
                f(mine)
            k = int(rng.integers(3))
            keys = list(have)
            if k == 0 or len(keys) < 2:
                have[keys[int(rng.integers(len(keys)))]] = np.round(rng.normal(size=width) * 5) + 2j
            elif k == 1:        # two values exchanged
                i, j = rng.choice(len(keys), 2, replace=False)
                have[keys[i]], have[keys[j]] = have[keys[j]], have[keys[i]]
            else:
                have[keys[0]] = -have[keys[0]] + 1j
            for lm, v in have.items():
                if rng.random() < .5 or not np.array_equal(mine.get(*lm), v):
                    mine.set(*lm, np.array(v))
            for f in fs:
                a, b = flat(f(gen.build(list(have), list(have.values()), default=c.default_coefficients))), flat(f(mine))
                ctx.ev("neighbour_calls")
                bad = differ(a, b)
                ctx.check(bad is None, "coefficients changed by the caller give another result than the same coefficients made anew", difference=bad)
    # Images and gridded fields changed in place: the results are linear in them.
    img = I["img"].copy()
    fields = [x.copy() for x in I["f3"]]
    for f, arrays in ((lambda x: image_converter.from_image(x, I["gimg"], lmax=3)[0], [img]),
                      (lambda *x: converter.convert_latlon_to_zdi_coeffs(I["theta2"], I["phi2"], *x, max_degree=2), fields)):
        a = dict(gen.model(f(*arrays)))
        k = float(rng.choice([-1, 2, -.5]))
        for x in arrays:
            x *= k
        b = dict(gen.model(f(*arrays)))
        size = max(np.max(np.abs(v)) for v in a.values())
        for lm in a:
            ctx.ev("neighbour_calls")
            ctx.close("coefficients of fields changed in place", b[lm], k * a[lm], rtol=1e-9, scale=size, pair=lm)
    # Objects that come and go, at the same addresses, against objects that all exist at the same time.
    pairs = gen.lm_pairs(rng, lmax=4, lmin=1)
    data = [gen.values(rng, (len(pairs), 3), 1.) for _ in range(6)]
    grids = [(int(rng.integers(4, 9)), int(rng.integers(5, 9))) for _ in data]
    winds = rng.uniform(1e6, 3e6, 6)
    turns = [quaternion.from_float_array(v / np.linalg.norm(v)) for v in rng.normal(size=(6, 4))]
    lists = [np.array(x) for x in zip(*pairs)]
    make = [lambda i: zdi_magnetogram.ZdiMagnetogram(*lists, *data[i].T), lambda i: zdi_magnetogram.from_coefficients(gen.build(pairs, list(data[i]))),
            lambda i: gen.build(pairs, list(data[i][:, :1])), lambda i: gen.build(pairs, list(data[i])), lambda i: ZdiGeometry(*grids[i]),
            lambda i: parker_solution.ParkerSolution(temperature=winds[i]), lambda i: turns[i].copy(), lambda i: I["theta"] * (1 - .1 * i)]
    use = [lambda o: [o.get_cartesian_field(th, ph), o.get_radial_field(th, ph), o.get_polar_field(th, ph), o.energy(), o.energy_matrix()],
           lambda o: [o.get_azimuthal_field(th, ph), everything(o, th, ph), o.as_poloidal(), longitudinal_field.get_longitudinal_field_curve(zg, o, 1.)],
           lambda o: [pfss_magnetogram.evaluate_spherical(o, 1.5, th, ph), converter.convert_zdi_to_pfss(o), image_converter.to_image(o, zg), str(o)],
           lambda o: [rotate.rotate_magnetogram(o, q), o * 2, o.hsplit(), o.as_arrays()],
           lambda o: [o.corners(), o.centers(), o.areas(), o.unit_normals(), o.corners_cartesian(), o.projected_visible_area_fraction(I["dirn"]),
                      longitudinal_field.get_longitudinal_field_curve(o, mg, 1.), image_converter.to_image(cn, o)],
           lambda o: [o.speed(I["radii"]), o.density(I["radii"]), o.total_mass_flux, str(o)],
           lambda o: rotate.rotate_magnetogram(c3, o),
           lambda o: [mg.get_field_strength(o, ph), pfss_magnetogram.evaluate_spherical(c1, 1.5, o, ph), associated_legendre.calculate_lpmn(l, m, o)]]
    order = [int(i) for i in rng.permutation(6)] * 2
    for mk, fn in zip(make, use):
        short = [flat(fn(mk(i))) for i in order]
        alive = [mk(i) for i in range(6)]
        long = [flat(fn(o)) for o in alive]
        for i, a in zip(order, short):
            ctx.ev("neighbour_calls")
            bad = differ(long[i], a)
            ctx.check(bad is None, "a short-lived object gives another result than one that is kept", difference=bad, kind=type(alive[i]).__name__)
    ctx.describe("neighbours", n, I["theta"][:2].tolist())


def self_written(B, c):
    B.c3 = c
    return B.write()


def quiet(fn):
    def run(ctx):
        with contextlib.redirect_stdout(io.StringIO()):
            fn(ctx)
    return run


CASES = {"history": (quiet(history), 300, 3000), "threads": (quiet(threads), 100, 1000), "neighbours": (quiet(neighbours), 60, 800)}
CHUNK = 2
