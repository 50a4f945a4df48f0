"""C09: files for the SWMF are complete and their header matches the data."""
import os
import numpy as np
from starwinds_magnetogram import reader_writer
import starwinds_magnetogram.coefficients as shc
import files
import gen

PROPERTY = "C09"
QUICK_SCALE = 4
RULE = "random single-valued sets written at degree limits 0-110 with and without header, the text of the file inspected line by line; a case is the set with the limit"
REQUIRE = dict(files_inspected=300, data_lines=5000, headers=200)


def format_of(ctx, head, name, n, deg, rotation, dlon):
    """The five lines that the SWMF expects: name; step, time, dimensions (-2, 3, 2); lines, 1; degree, rotation, longitude; names."""
    ctx.ev("headers")
    ctx.check(name in head[0], "the file name is not in the first line", header=head)
    for i, want in ((1, [0, 0, -2, 3, 2]), (2, [n, 1]), (3, [deg, rotation, dlon])):
        try:
            got = [float(x) for x in head[i].split()]
        except ValueError:
            got = head[i]
        ctx.equal(got, [float(x) for x in want], "line %d of the header" % (i + 1), header=head)
        integer = head[i].split()[:4 if i == 1 else 2]
        ctx.check(all("." not in x and "e" not in x for j, x in enumerate(integer) if (i, j) != (1, 1)), "an integer of the header is not written as one", header=head)
    ctx.equal(head[4].split(), ["n", "m", "g", "h", "nOrder", "CR", "dLon"], "names in the header", header=head)


def alone(ctx):
    """The header by itself, with given and with documented default values."""
    rng = ctx.rng
    kw = dict(file_name=str(rng.choice(["star_%d.dat", "my star %d.dat", "Epoch-%d, a.b.c", "%d", "%d" + "long" * 12 + ".dat", "τ Boo %d"])) % rng.integers(1000), num_data_lines=int(rng.integers(1, 20000)), max_degree=int(rng.integers(0, 200)),
              carrington_rotation_number=int(rng.integers(0, 3000)), dlon=float(np.round(rng.uniform(-360, 360), 3)))
    default = dict(file_name="", num_data_lines=496, max_degree=30, carrington_rotation_number=2077, dlon=0.0)
    for k in list(kw):
        if rng.random() < 0.25:
            del kw[k]
    full = dict(default, **kw)
    n = int(rng.integers(0, 6))
    order = list(default)
    if n and all(k in kw for k in order[:n]):
        head = reader_writer.create_swmf_header(*[kw[k] for k in order[:n]], **{k: v for k, v in kw.items() if k not in order[:n]})
    else:
        head = reader_writer.create_swmf_header(**kw)
    ctx.equal(len(head), 5, "number of header lines")
    format_of(ctx, list(head), *full.values())
    ctx.describe("alone", sorted(kw.items()))


def inspect(ctx):
    rng = ctx.rng
    d = ctx.scratch()
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 10, 15, 30]), (45, 105), .04)
    c = gen.coeffs(rng, 1, lmax=lmax, negative=bool(rng.random() < 0.3))
    if rng.random() < 0.05:
        c = shc.Coefficients()
    M = gen.model(c)
    top = int(c.degree_max)
    limit = [None, top, max(0, top - 1), 0, 1, top + 1, top + 7, 30, 110][int(rng.choice(9, p=[.3, .1, .15, .05, .1, .1, .1, .07, .03]))]
    deg = top if limit is None else limit
    kw = {} if limit is None else dict(degree_max=limit)
    name = os.path.join(d, "out.dat")
    content = {}
    for header in (True, False):
        if rng.random() < 0.5:
            with open(name, "w") as f:
                f.write("9 9 9.0 9.0\n" * 20000)
        if header or rng.random() < 0.5:
            reader_writer.write_magnetogram_file(c, name, write_swmf_header=header, **kw)
        else:
            reader_writer.write_magnetogram_file(c, name, **kw)
        with open(name) as f:
            text = f.read()
        ctx.ev("files_inspected")
        ctx.check(text.endswith("\n") and not text.endswith("\n\n"), "the file does not end with its last line")
        lines = text.split("\n")[:-1]
        k = 5 if header else 2
        head, data = lines[:k], lines[k:]
        want = [(l, m) for l in range(deg + 1) for m in range(l + 1)]
        ctx.equal(len(data), len(want), "number of lines after the header", header=header, degree=deg)
        for line, (l, m) in zip(data, want):
            ctx.ev("data_lines")
            t = line.split()
            ctx.check(len(t) == 4 and t[0] == str(l) and t[1] == str(m), "data line does not belong to the pair", line=line, pair=(l, m))
            v = complex(M.get((l, m), np.zeros(1))[0])
            ctx.close("real part", float(t[2]), v.real, rtol=1.0, scale=files.digits7(v.real))
            ctx.close("imaginary part", float(t[3]), v.imag, rtol=1.0, scale=files.digits7(v.imag))
        if header:
            ctx.equal(len(files.parse("\n".join(head))), 0, "a header line reads as a coefficient")
            t = head[2].split()
            ctx.equal([float(x) for x in t], [float(len(data)), 1.0], "number of coefficient lines in the header", header=head)
            format_of(ctx, head, os.path.basename(name), len(data), deg, 0, 0)
        else:
            digits = "".join(x if x.isdigit() else " " for x in head[1]).split()
            ctx.equal(digits, [str(deg)], "highest degree in the header of two lines", header=head)
        content[header] = data
    ctx.equal(content[True], content[False], "data lines with and without the header")
    ctx.describe(limit, sorted(M)[:10])


CASES = {"inspect": (inspect, 400, 6000), "alone": (alone, 60, 600)}
