"""C07: writing and reading a magnetogram file preserves the coefficients."""
import os
import numpy as np
import starwinds_magnetogram.coefficients as shc
from starwinds_magnetogram import reader_writer
import files
import gen

PROPERTY = "C07"
QUICK_SCALE = 6
RULE = ("random sets (1-4 values, sparse or full, magnitudes 1e-300 to 1e300, both signs of the order) written with and without "
        "header at several degree limits, read back, written again; a case is the set with the limit")
REQUIRE = dict(round_trips=300, values_read=5000)


def near7(ctx, name, got, want, **info):
    for part in (np.real, np.imag):
        g, w = part(got), part(want)
        ctx.close(name, g, w, rtol=1.0, scale=files.digits7(w), **info)


def round_trip(ctx):
    rng = ctx.rng
    d = ctx.scratch()
    ncol = int(rng.choice([1, 1, 2, 3, 3, 4]))
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 8, 15, 20]), (40, 60, 105), .04)
    c = shc.Coefficients(np.zeros(ncol, complex))
    pairs = gen.lm_pairs(rng, lmax=lmax, negative=bool(rng.random() < 0.3))
    wide = rng.random() < 0.4
    for k in pairs:
        v = rng.normal(size=ncol) + 1j * rng.normal(size=ncol)
        if wide:
            v = rng.normal(size=ncol) * 10.0 ** rng.integers(-300, 300, ncol) + 1j * rng.normal(size=ncol) * 10.0 ** rng.integers(-300, 300, ncol)
        else:
            v = v * 10.0 ** rng.integers(-12, 12)
        if rng.random() < 0.1:
            v = np.where(rng.random(ncol) < .5, 0, v)
        if rng.random() < 0.1:
            v = np.round(np.real(v) * 10) * 0.99999995 + 0j
        if rng.random() < 0.05:
            v = v.real - 0.0j
        c.append(*k, v)
    if rng.random() < 0.03:
        c = shc.Coefficients(np.zeros(ncol, complex))
    M = gen.model(c)
    top = int(c.degree_max)
    limit = [None, None, top, max(0, top - 1), max(0, top - 3), top + 1, top + 4, 0][int(rng.integers(8))]
    deg = top if limit is None else limit
    name = os.path.join(d, ["m.dat", "a b.dat", "x", "m.v1.txt"][int(rng.integers(4))])
    kw = {} if limit is None else dict(degree_max=limit)
    low = 0
    if rng.random() < .3:
        low = int(rng.choice([0, -1, -2, -deg, -deg, -deg - 3, 1 if deg else 0]))
        kw["order_min"] = low
    want_pairs = [(l, m) for l in range(deg + 1) for m in range(max(low, -l), l + 1)]
    zero = np.zeros(ncol, complex)
    seen = []
    for header in (False, True):
        if rng.random() < 0.3:
            with open(name, "w") as f:      # an older, longer file of that name is replaced
                f.write("1 0 5.0 5.0\n" * 5000)
        reader_writer.write_magnetogram_file(c, name, write_swmf_header=header, **kw)
        r = reader_writer.read_magnetogram_file(name)
        ctx.ev("round_trips")
        R = gen.model(r)
        ctx.equal(sorted(R), want_pairs, "pairs read back", limit=limit, header=header)
        ctx.same("number of values", len(r.default_coefficients), ncol)
        for k in want_pairs:
            ctx.ev("values_read", ncol)
            near7(ctx, "value read back", R[k], M.get(k, zero), pair=k, header=header)
        with open(name) as f:
            lines = files.parse(f.read())
        again = name + ".again"
        reader_writer.write_magnetogram_file(r, again, write_swmf_header=not header, **({'order_min': low} if 'order_min' in kw else {}))
        with open(again) as f:
            ctx.equal(files.parse(f.read()), lines, "coefficient lines after reading and writing again")
        r2 = reader_writer.read_magnetogram_file(again)
        for k, v in gen.model(r2).items():
            ctx.same("value after a second round trip", v, R[k], pair=k)
        seen.append(R)
    for k in want_pairs:
        ctx.same("with and without header", seen[0][k], seen[1][k], pair=k)
    now = gen.model(c)
    ctx.equal(sorted(now), sorted(M), "writing changed the set")
    for k in M:
        ctx.same("writing changed a value", now[k], M[k])
    ctx.describe(ncol, limit, wide, sorted(M)[:8])


CASES = {"round_trip": (round_trip, 400, 6000)}
