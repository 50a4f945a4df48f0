"""Independent reference for the physics: normalised Legendre recurrences, the ZDI field definition, the potential
field source surface solution and the energy integrals. Nothing here imports the code under test."""
import functools

import numpy as np


def legendre(lmax, theta):
    """Fully normalised associated Legendre functions with the Condon-Shortley phase, P[l, m] (so that the integral of
    |P exp(i m phi)|^2 over the sphere is one), Q = P / sin(theta) (m > 0) and D = dP / dtheta. All are regular on the axis."""
    theta = np.asarray(theta, dtype=float)
    s, c = np.sin(theta), np.cos(theta)
    n = lmax + 2
    P = np.zeros((n + 1, n + 1) + theta.shape)
    Q = np.zeros_like(P)
    norm = 1.0 / np.sqrt(4 * np.pi)
    for m in range(n + 1):
        if m:
            norm *= -np.sqrt((2 * m + 1) / (2 * m))
        P[m, m] = norm * s ** m
        if m:
            Q[m, m] = norm * s ** (m - 1)
        for A in (P, Q):
            if m < n:
                A[m + 1, m] = np.sqrt(2 * m + 3) * c * A[m, m]
            for l in range(m + 2, n + 1):
                a = np.sqrt((4 * l * l - 1) / (l * l - m * m))
                b = np.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
                A[l, m] = a * (c * A[l - 1, m] - b * A[l - 2, m])
    D = np.zeros_like(P)
    for l in range(n):
        for m in range(l + 1):
            D[l, m] = m * c * Q[l, m]
            if m < l:
                D[l, m] += np.sqrt((l - m) * (l + m + 1)) * P[l, m + 1]
    return P, Q, D


def pqd(tables, l, m):
    """Values for any sign of the order."""
    P, Q, D = tables
    k = abs(m)
    sign = (-1.0) ** k if m < 0 else 1.0
    # Q is only used multiplied by m.
    return sign * P[l, k], sign * Q[l, k], sign * D[l, k]


class Field(dict):
    """Component name -> array; .scale[name] is the sum of the magnitudes of the terms (maximum over points)."""


def zdi_field(l, m, a, b, g, theta, phi):
    theta, phi = np.asarray(theta, float), np.asarray(phi, float)
    l, m = np.atleast_1d(l), np.atleast_1d(m)
    t = legendre(int(np.max(l)) if len(l) else 0, theta)
    names = "r_pol", "t_pol", "p_pol", "t_tor", "p_tor"
    acc = {k: np.zeros(theta.shape, complex) for k in names}
    sc = {k: np.zeros(theta.shape) for k in names}
    for l_, m_, a_, b_, g_ in zip(l, m, a, b, g):
        l_, m_ = int(l_), int(m_)
        P, Q, D = pqd(t, l_, m_)
        e = np.exp(1j * m_ * phi)
        f = 1.0 / (l_ + 1)
        for k, v in (("r_pol", a_ * P * e), ("t_pol", -b_ * f * D * e), ("p_pol", -b_ * f * 1j * m_ * Q * e),
                     ("t_tor", g_ * f * 1j * m_ * Q * e), ("p_tor", -g_ * f * D * e)):
            acc[k] += v
            sc[k] += np.abs(v)
    out = Field({k: np.real(v) for k, v in acc.items()})
    out["r_tor"] = np.zeros(theta.shape)
    out["r"] = out["r_pol"]
    out["t"] = out["t_pol"] + out["t_tor"]
    out["p"] = out["p_pol"] + out["p_tor"]
    out["strength"] = np.sqrt(out["r"] ** 2 + out["t"] ** 2 + out["p"] ** 2)
    # Where all terms (nearly) vanish, rounding errors remain: a floor of 1e-5 of the bound over the sphere.
    mx = {k: (float(np.max(v)) if v.size else 0.0) + 1e-5 * zdi_bound(l, m, *[x if i == j else 0 * np.asarray(x) for i, x in enumerate((a, b, g))])
          for (k, v), j in zip(sc.items(), (0, 1, 1, 2, 2))}
    mx["r_tor"] = 0.0
    mx["r"] = mx["r_pol"]
    mx["t"] = mx["t_pol"] + mx["t_tor"]
    mx["p"] = mx["p_pol"] + mx["p_tor"]
    mx["strength"] = mx["r"] + mx["t"] + mx["p"]
    out.scale = mx
    return out


def zdi_bound(l, m, a, b, g):
    """Upper bound of the magnitude of every component anywhere on the sphere, as the sum of that of the terms."""
    l = np.asarray(l)
    return float(np.sum((np.abs(a) + np.abs(b) + np.abs(g)) * np.sqrt((2 * l + 1) / (4 * np.pi))))


def zdi_energy(l, m, a, b, g):
    """Per coefficient energies (m >= 0), as surface integrals of the squared field of that coefficient."""
    l, m = np.asarray(l), np.asarray(m)

    def e(c):
        c = np.asarray(c)
        return np.where(m == 0, np.real(c) ** 2, 0.5 * (np.real(c) ** 2 + np.imag(c) ** 2))
    w = l / (l + 1)
    return e(a), e(b) * w, e(g) * w


def squares(l, m, a, b, g):
    """Scale of the rounding errors of the energies: the squared magnitudes."""
    return tuple(np.abs(np.asarray(c)) ** 2 for c in (a, b, g))


def basis(theta, phi):
    """Unit vectors (radial, polar, azimuthal) along the last axis but one: shape (..., 3, 3), rows are the vectors."""
    st, ct, sp, cp = np.sin(theta), np.cos(theta), np.sin(phi), np.cos(phi)
    z = np.zeros_like(st + sp)
    return np.stack([np.stack([st * cp, st * sp, ct + z], -1),
                     np.stack([ct * cp, ct * sp, -st + z], -1),
                     np.stack([-sp + z, cp + z, z], -1)], -2)


def cartesian(fr, ft, fp, theta, phi):
    return np.einsum("...i,...ij->...j", np.stack([fr, ft, fp], -1), basis(theta, phi))


@functools.lru_cache(None)
def _radial_constants(l, r0, rss):
    """f = A r^l + B r^-(l+1) with f(rss) = 0 and -f'(r0) = 1, solved in scaled variables."""
    # f(r) = p (r/rss)^l + q (r0/r)^(l+1)
    k = (r0 / rss) ** (l + 1)
    # f(rss) = p + q k = 0 -> p = -q k;  -f'(r0) = -p l / rss (r0/rss)^(l-1) + q (l+1)/r0 = 1
    den = (l + 1) / r0 + (k * l / rss * (r0 / rss) ** (l - 1) if l else 0.0)
    q = 1.0 / den
    return -q * k, q


def radial_function(l, r, r0, rss):
    p, q = _radial_constants(int(l), float(r0), float(rss))
    f = p * (r / rss) ** l + q * (r0 / r) ** (l + 1)
    df = (p * l / rss * (r / rss) ** (l - 1) if l else 0.0) - q * (l + 1) / r * (r0 / r) ** (l + 1)
    return f, df


def pfss_field(coeffs, r, theta, phi, r0=1.0, rss=2.5, raw=False):
    """Field of {(l, m): complex g + i h} at points. Returns (Br, Bt, Bp, scale): scale is a per point sum of the
    magnitudes of all terms."""
    r, theta, phi = np.broadcast_arrays(*(np.asarray(x, float) for x in (r, theta, phi)))
    lmax = max(l for l, _ in coeffs)
    t = legendre(lmax, theta)
    if raw:
        rr, fall = r, np.ones_like(r)
    else:
        rr = np.clip(r, r0, rss)
        fall = np.where(r > rss, (rss / np.maximum(r, rss)) ** 2, 1.0)
    B = [np.zeros(r.shape) for _ in range(3)]
    sc = np.zeros(r.shape)
    for (l, m), c in coeffs.items():
        g, h = float(np.real(c)), float(np.imag(c))
        s = np.sqrt(4 * np.pi / (2 * l + 1)) * np.sqrt(1 if m == 0 else 2) * (-1.0) ** m
        P, Q, D = (s * x for x in pqd(t, l, m))
        f, df = radial_function(l, rr, r0, rss)
        cos, sin = np.cos(m * phi), np.sin(m * phi)
        ph, dph = g * cos + h * sin, m * (h * cos - g * sin)
        terms = (-df * P * ph, -f / rr * D * ph, -f / rr * Q * dph)
        for i in range(3):
            B[i] += terms[i]
        sc += np.hypot(g, h) * (np.abs(df * P) + np.abs(f / rr) * (np.abs(D) + m * np.abs(Q)))
    if not raw:
        inside = r < r0
        B[0] = np.where(inside, 0, B[0] * fall)
        B[1] = np.where(inside | (r > rss), 0, B[1])
        B[2] = np.where(inside | (r > rss), 0, B[2])
    return B[0], B[1], B[2], sc


def forward_factor(l, m):
    """ZDI -> PFSS factor for m >= 0: Y = factor * Schmidt / ...; from the two definitions of the radial field."""
    # Radial field: Re(alpha Pbar e^{im phi}) must be g Theta cos(m phi') + h Theta sin(m phi') with phi' = -phi and
    # Theta = sqrt(4 pi / (2l+1)) sqrt(2 - d0) (-1)^m Pbar.
    return np.sqrt((2 * l + 1) / (4 * np.pi)) / np.sqrt(1 if m == 0 else 2) * (-1.0) ** m


def sphere_quadrature(degree):
    """Nodes (theta, phi) and weights that integrate spherical harmonics up to the degree exactly."""
    n = degree // 2 + 1
    x, w = np.polynomial.legendre.leggauss(n)
    k = degree + 1
    theta, phi = np.meshgrid(np.arccos(x), 2 * np.pi * np.arange(k) / k, indexing="ij")
    return theta, phi, np.broadcast_to((w * 2 * np.pi / k)[:, None], theta.shape)


def ylm(l, m, theta, phi):
    return pqd(legendre(l, theta), l, m)[0] * np.exp(1j * m * np.asarray(phi, float))
