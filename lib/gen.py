"""Workload generators. Everything random comes from the given generator."""
import numpy as np

import starwinds_magnetogram.coefficients as shc
from starwinds_magnetogram import zdi_magnetogram


def lm_pairs(rng, lmax=8, negative=False, lmin=0, style=None):
    """A list of distinct (degree, order) pairs in random order, from one of several styles."""
    full = [(l, m) for l in range(lmin, lmax + 1) for m in range(-l if negative else 0, l + 1)]
    given = style is not None
    style = style or rng.choice(["full", "sparse", "zonal", "sectoral", "single", "nonaxi", "dense", "one_degree", "two"])
    if style == "full":
        out = full
    elif style == "sparse":
        out = [p for p in full if rng.random() < 0.25]
    elif style == "dense":
        out = [p for p in full if rng.random() < 0.75]
    elif style == "zonal":
        out = [p for p in full if p[1] == 0]
    elif style == "sectoral":
        out = [p for p in full if abs(p[1]) == p[0]]
    elif style == "nonaxi":
        out = [p for p in full if p[1] != 0 and rng.random() < 0.7]
    elif style == "one_degree":
        l = int(rng.integers(lmin, lmax + 1))
        out = [p for p in full if p[0] == l]
    elif style == "two":
        out = [full[i] for i in rng.choice(len(full), min(2, len(full)), replace=False)]
    else:
        out = []
    if not out:
        out = [full[int(rng.integers(len(full)))]]
    if not given and lmax > 24 and len(out) > 60 and rng.random() < .85:
        # A high degree, but not thousands of pairs; the highest degrees are always among them.
        keep = rng.permutation(len(out) - 6)[:40]
        out = [out[i] for i in sorted(keep)] + out[-6:]
    if rng.random() < 0.5:
        out = [out[i] for i in rng.permutation(len(out))]
    return [(int(l), int(m)) for l, m in out]


def top(rng, lmax, high=(18, 25, 33, 45), p=.06):
    """The given highest degree, or now and then a much higher one."""
    return int(rng.choice(high)) if rng.random() < p else int(lmax)


def values(rng, shape, magnitude=None):
    """Complex values of varied kinds: usually generic, sometimes purely real, imaginary, with zeros or spread over decades."""
    v = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    k = rng.random()
    if k < 0.08:
        v = np.real(v) + 0j
    elif k < 0.16:
        v = 1j * np.imag(v)
    elif k < 0.24:
        v = np.where(rng.random(shape) < 0.4, 0, v)
    elif k < 0.34:
        v = v * 10.0 ** rng.integers(-4, 5, shape)
    elif k < 0.40:
        v = np.round(v * 3)
    if magnitude is None:
        magnitude = 10.0 ** rng.choice([0, 0, 0, 1, 2, 3, -3, -6, 6, -9, 9, -16, 15])
    return v * magnitude


def build(pairs, vals, default=None, method="append"):
    """Coefficients from a list of pairs and a list of values (1d arrays)."""
    vals = [np.atleast_1d(v) for v in vals]
    c = shc.Coefficients(np.zeros(len(vals[0]), complex) if default is None else default)
    for (l, m), v in zip(pairs, vals):
        getattr(c, method)(l, m, v)
    return c


def model(c):
    """{(l, m): copy of the values}, read through the listing."""
    return {(int(l), int(m)): np.array(v, copy=True) for (l, m), v in c.contents()}


def coeffs(rng, ncol=1, **kw):
    mag = kw.pop("magnitude", None)
    pairs = lm_pairs(rng, **kw)
    vals = values(rng, (len(pairs), ncol), mag)
    return build(pairs, list(vals))


class Zdi:
    """A magnetogram together with the arrays that it was built from."""

    def __init__(self, l, m, a, b, g):
        self.l, self.m, self.a, self.b, self.g = (np.asarray(x) for x in (l, m, a, b, g))

    @property
    def args(self):
        return self.l, self.m, self.a, self.b, self.g

    def make(self, route="arrays"):
        if route == "coefficients":
            c = shc.Coefficients(np.zeros(3, complex))
            for i in range(len(self.l)):
                c.append(int(self.l[i]), int(self.m[i]), np.array([self.a[i], self.b[i], self.g[i]]))
            return zdi_magnetogram.from_coefficients(c)
        return zdi_magnetogram.ZdiMagnetogram(*(x.copy() for x in self.args))

    def __repr__(self):
        return "zdi(%d coefficients, l %d-%d, m %d-%d, |a| %.2g %s)" % (
            len(self.l), self.l.min(), self.l.max(), self.m.min(), self.m.max(), np.max(np.abs(self.a)),
            list(zip(self.l.tolist(), self.m.tolist()))[:6])


def zdi(rng, lmax=8, zeros=True, magnitude=None, **kw):
    pairs = lm_pairs(rng, lmax=lmax, **kw)
    l, m = np.array(pairs).T
    if magnitude is None:
        magnitude = 10.0 ** rng.choice([0, 0, 0, 1, 2, 3, -3, -6, 6, -9, 9, -16, 15])
    a, b, g = (values(rng, len(l), magnitude) for _ in range(3))
    if zeros:
        k = rng.random()
        if k < 0.06:
            a = 0 * a
        elif k < 0.12:
            b = 0 * b
        elif k < 0.18:
            g = 0 * g
        elif k < 0.22:
            b, g = 0 * b, 0 * g
        elif k < 0.26:
            a, b = 0 * a, 0 * b
    return Zdi(l, m, a, b, g)


def points(rng, n, margin=0.02, structured=True):
    """Directions (theta, phi) away from the axis: generic ones, the equator, azimuths on axes, negative and beyond a turn."""
    theta = np.arccos(rng.uniform(-np.cos(margin), np.cos(margin), n))
    phi = rng.uniform(-2 * np.pi, 4 * np.pi, n)
    if structured:
        k = rng.random(n)
        theta = np.where(k < 0.08, np.pi / 2, theta)
        theta = np.where((k > 0.08) & (k < 0.12), margin * (1 + rng.random(n)), theta)
        theta = np.where((k > 0.12) & (k < 0.16), np.pi - margin * (1 + rng.random(n)), theta)
        k = rng.random(n)
        phi = np.where(k < 0.12, rng.integers(-4, 9, n) * np.pi / 2, phi)
    return theta, phi


def layout(rng, x, style):
    """The same values with another memory layout."""
    x = np.asarray(x)
    if style == "F":
        return np.asfortranarray(x)
    if style == "strided":
        big = np.zeros(tuple(2 * s for s in x.shape), x.dtype)
        view = big[tuple(slice(None, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    if style == "reversed":
        return np.ascontiguousarray(x[tuple(slice(None, None, -1) for _ in x.shape)])[tuple(slice(None, None, -1) for _ in x.shape)]
    if style == "readonly":
        x = x.copy()
        x.flags.writeable = False
        return x
    return np.ascontiguousarray(x)
