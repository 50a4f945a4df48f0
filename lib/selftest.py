"""Tests of the machinery itself (setup_cmd): the independent reference against its own defining properties, and the monitors
against executions that they must object to. Does not judge the code under test."""
import json
import os
import sys

import numpy as np

import ref
import vh


def must(cond, what):
    if not cond:
        print("SELFTEST FAILED: " + what)
        sys.exit(1)


def objects(fn, what):
    try:
        fn()
    except vh.Violation:
        return
    must(False, "no objection to " + what)


def reference():
    L = 12
    theta, phi, w = ref.sphere_quadrature(2 * L + 4)
    P, Q, D = ref.legendre(L, theta)
    Y = np.array([ref.pqd((P, Q, D), l, m)[0] * np.exp(1j * m * phi) for l in range(L + 1) for m in range(-l, l + 1)])
    G = np.einsum("aij,bij,ij->ab", np.conj(Y), Y, w)
    must(np.max(np.abs(G - np.eye(len(Y)))) < 1e-12, "harmonics are orthonormal")
    h = 1e-5
    up, dn = ref.legendre(L, theta + h)[0], ref.legendre(L, theta - h)[0]
    for l in range(L + 1):
        for m in range(l + 1):
            must(np.allclose(D[l, m], (up[l, m] - dn[l, m]) / (2 * h), rtol=0, atol=1e-6), "derivative of harmonics")
            if m:
                must(np.allclose(Q[l, m] * np.sin(theta), P[l, m], rtol=0, atol=1e-12), "harmonics divided by the sine")
    # One value in closed form fixes sign and phase: Y_1^1 = -sqrt(3/8 pi) sin e^{i phi}.
    must(np.allclose(ref.ylm(1, 1, theta, phi), -np.sqrt(3 / (8 * np.pi)) * np.sin(theta) * np.exp(1j * phi)), "sign and phase")
    # Energies of single coefficients are integrals of the squared field.
    rng = np.random.default_rng(0)
    for l in range(1, 7):
        for m in range(l + 1):
            abc = [np.array([complex(*rng.normal(size=2))]) for _ in range(3)]
            if m == 0:
                abc = [np.real(x) + 0j for x in abc]
            for i in range(3):
                only = [x if i == j else 0 * x for j, x in enumerate(abc)]
                f = ref.zdi_field([l], [m], *only, theta, phi)
                e = np.sum(w * (f["r"] ** 2 + f["t"] ** 2 + f["p"] ** 2))
                must(np.isclose(e, ref.zdi_energy([l], [m], *only)[i][0], rtol=1e-10), "energy of one coefficient")
    # The potential field: radial boundary condition, purely radial at the source surface, no divergence, no curl.
    c = {(l, m): complex(*rng.normal(size=2)) for l in range(1, 6) for m in range(l + 1)}
    c = {k: v.real + 0j if k[1] == 0 else v for k, v in c.items()}
    t, p = np.arccos(rng.uniform(-.95, .95, 40)), rng.uniform(0, 6, 40)
    surface = ref.pfss_field(c, 1.0, t, p, 1.0, 3.0)
    direct = sum(np.sqrt(4 * np.pi / (2 * l + 1)) * np.sqrt(1 if m == 0 else 2) * (-1) ** m
                 * ref.pqd(ref.legendre(5, t), l, m)[0] * (v.real * np.cos(m * p) + v.imag * np.sin(m * p)) for (l, m), v in c.items())
    must(np.allclose(surface[0], direct), "surface field")
    top = ref.pfss_field(c, 3.0, t, p, 1.0, 3.0)
    must(np.max(np.abs(top[1])) < 1e-12 and np.max(np.abs(top[2])) < 1e-12, "radial at the source surface")

    def cart(x):
        r = np.sqrt(np.sum(x ** 2, -1))
        th, ph = np.arccos(x[..., 2] / r), np.arctan2(x[..., 1], x[..., 0])
        return ref.cartesian(*ref.pfss_field(c, r, th, ph, 1.0, 3.0)[:3], th, ph)
    x = 1.7 * ref.basis(t, p)[:, 0]
    J = np.stack([(cart(x + d) - cart(x - d)) / 2e-5 for d in 1e-5 * np.eye(3)], 1)     # J[:, i, j] = d_i B_j
    must(np.max(np.abs(np.trace(J, axis1=1, axis2=2))) < 1e-6, "no divergence")
    must(np.max(np.abs(J - np.swapaxes(J, 1, 2))) < 1e-6, "no curl")


def monitors():
    ctx = vh.Ctx("SELF", "kind", 0, 1, "quick")
    a = np.arange(4.0)
    ctx.close("x", a, a)
    ctx.same("x", a, a.copy())
    for what, fn in {
        "a deviation": lambda: ctx.close("x", a + [0, 0, 1e-6, 0], a), "a missing value": lambda: ctx.close("x", a[:3], a),
        "nan": lambda: ctx.close("x", a * np.nan, a), "infinity": lambda: ctx.close("x", a + [0, 0, 0, np.inf], a),
        "a complex result": lambda: ctx.close("x", a + 0j, a), "text": lambda: ctx.close("x", "abc", a), "nothing": lambda: ctx.close("x", None, a),
        "the last bit": lambda: ctx.same("x", np.nextafter(a, 9), a), "a false condition": lambda: ctx.check(False, "x"),
        "accepting": lambda: ctx.refused(lambda: 1, "x"), "inequality": lambda: ctx.equal([1], [2], "x"),
    }.items():
        objects(fn, what)

    def change(f, *objs):
        def run():
            with vh.unchanged(ctx, "x", *objs):
                f()
        return run
    import gen
    rng = np.random.default_rng(0)
    c, z = gen.coeffs(rng, 2), gen.zdi(rng).make()
    key = next(iter(gen.model(c)))
    objects(change(lambda: c.set(*key, np.array([7, 7])), c), "a changed coefficient")
    objects(change(lambda: c.append(30, 1, np.array([7, 7])), c), "an added coefficient")
    objects(change(lambda: z.alpha.__setitem__(0, 99), z), "a changed magnetogram")
    objects(change(lambda: a.__setitem__(0, 99), a), "a changed array")

    class Mod:
        PROPERTY, RULE = "SELF", ""
        CASES = {"raises": (lambda ctx: 1 / 0, 1, 1), "fine": (lambda ctx: None, 1, 1), "loops": (lambda ctx: spin(), 1, 1)}

    def spin():
        while True:
            pass
    must(vh.run_case(Mod, "raises", 0, 1, "quick")["violation"], "an exception is a violation")
    must(not vh.run_case(Mod, "fine", 0, 1, "quick")["violation"], "nothing is no violation")
    old, vh.CASE_CPU = vh.CASE_CPU, 1
    must(vh.run_case(Mod, "loops", 0, 1, "quick")["violation"], "an endless loop is a violation")
    vh.CASE_CPU = old


def files():
    root = vh.VERIF
    with open(os.path.join(root, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f]
    with open(os.path.join(root, "MANIFEST.json")) as f:
        m = json.load(f)
    claimed = [c["property"] for c in m["checks"]] + [c["property"] for c in m.get("not_applicable", [])]
    must(sorted(ids) == sorted(claimed), "every property is claimed or not applicable")
    for c in m["checks"]:
        must(os.path.exists(os.path.join(root, "checks", c["property"].lower() + ".py")), c["property"] + " has a check")
    vh.load_known()


def main():
    reference()
    monitors()
    files()
    print("SELFTEST OK")
    return 0
