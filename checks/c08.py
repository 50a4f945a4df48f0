"""C08: the reader accepts any layout of the documented magnetogram format."""
import os
import numpy as np
from starwinds_magnetogram import reader_writer
import files
import gen

PROPERTY = "C08"
QUICK_SCALE = 4
RULE = ("files generated with random blocks, number formats, separators, junk lines, trailing text and line endings, read and compared "
        "with an independent parser; a case is the text of the file")
REQUIRE = dict(files_read=300, coefficients=5000, junk_lines=1000)

JUNK = ["", "   ", "\t", "General poloidal plus toroidal field", "135 3 -3", "# 1 0 2.0 3.0", "1 0", "1 0 2.5", "1", "l m re im",
        "1.0 0 2.0 3.0", "1 0.0 2.0 3.0", "1 0 two 3.0", "1 0 2.0 x", "0    0.0    -2  3  2", "496    1", "30    2077    0.0",
        "n m g h nOrder CR dLon", "Order:15", "CR2077_GNG.dat", "-- 3 2 1.0 1.0", "a 1 0 2.0 3.0", "1, 0, 2.0, 3.0", "l=1 m=0 2.0 3.0",
        "1 0 # 3.0 4.0", "1;0;2.0;3.0", "!", "===================", "5 5 - -", "3 1 1.0 1.0j",
        # almost coefficients
        "1 0 2.0 3.0,", "1 0 2.0, 3.0", "1 0 2.0 3.0;", "1 0 2,0 3,0", "1 0 (2.0 3.0)", "1 0 2.0 3.0.", "(1 0 2.0 3.0)", "1, 0 2.0 3.0",
        "1 0 2.0 -", "1 0 2.0 3.0e", "1 0 2.0 3.0x", "1 0 2.0 '3.0'", "1 0 2.0 3.0%", "1 0 2.0 = 3.0", "1: 0 2.0 3.0", "1/0 2.0 3.0 4.0"]
# Text outside of ASCII.
WIDE = ["\u03b2 Pic, A. N\u00e9rac", "\u2113 m \u03b1", "\u03c4 1 1 2.0 3.0", "\u00c5ngstr\u00f6m"]


def number(rng, x):
    f = int(rng.integers(7))
    if f == 0:
        return "%.6e" % x
    if f == 1:
        return repr(float(x))
    if f == 2:
        return "%+.3E" % x
    if f == 3:
        return "%g" % x
    if f == 4:
        return "%d" % int(round(x)) if abs(x) < 1e9 else "%e" % x
    if f == 5:
        return "%.2f" % x if abs(x) < 1e9 else "%e" % x
    return ("%.3f" % x).lstrip("0") if 0 < x < 1 else "%d." % int(x) if abs(x) < 1e9 else "%e" % x


def layout(ctx):
    rng = ctx.rng
    nblocks = int(rng.choice([1, 1, 2, 3, 3, 4, 6]))
    base = gen.lm_pairs(rng, lmax=int(rng.choice([0, 1, 2, 4, 8, 15, 40])) if rng.random() < .9 else 110,
                        negative=bool(rng.random() < 0.3), style="sparse" if rng.random() < .3 else None)
    junk_rate = float(rng.choice([0, 0, 0.1, 0.5]))
    decorate = rng.random() < 0.5
    junk_lines = JUNK + WIDE if rng.random() < .15 else JUNK
    out = []

    def junk():
        if rng.random() < junk_rate:
            for _ in range(int(rng.integers(1, 3))):
                out.append(junk_lines[int(rng.integers(len(junk_lines)))])
                ctx.ev("junk_lines")

    for _ in range(int(rng.integers(0, 6))):
        out.append(junk_lines[int(rng.integers(len(junk_lines)))])
        ctx.ev("junk_lines")
    for b in range(nblocks):
        pairs = base
        if rng.random() < 0.4:
            pairs = [base[i] for i in rng.permutation(len(base))]
        if rng.random() < 0.15 and len(base) > 2:
            pairs = pairs[:-1]       # blocks of different sizes
        for l, m in pairs:
            re, im = (float(x) * 10.0 ** rng.integers(-20, 20) if rng.random() < .1 else float(x) for x in 100 * rng.normal(size=2))
            s = ["%d" % l, "%d" % m, number(rng, re), number(rng, im)]
            sep = (lambda: [" ", "  ", "\t", " \t ", "      "][int(rng.integers(5))]) if decorate else (lambda: " ")
            line = sep().join(s) if not decorate else s[0] + sep() + s[1] + sep() + s[2] + sep() + s[3]
            if decorate and rng.random() < .1:      # a table written by hand: runs of tabs among blanks
                line = s[0] + [" ", "\t"][int(rng.integers(2))] + s[1] + "\t" * int(rng.integers(1, 5)) + s[2] + [" ", "\t"][int(rng.integers(2))] + s[3] + "\t" * int(rng.integers(0, 6))
            if decorate and rng.random() < .5:
                line = sep() + line
            if decorate and rng.random() < .3:
                line += sep() + ["# comment", "7.5", "1 0 2.0 3.0", "x y z", "-", "5 5 5 5 5"][int(rng.integers(6))]
            if decorate and rng.random() < .3:
                line += sep()
            out.append(line)
            junk()
        if rng.random() < 0.5:
            out.append("")
    eol = ["\n", "\r\n", "\r", "mixed"][int(rng.choice([0, 0, 1, 2, 3]))]
    text = "\n".join(out)
    if rng.random() < 0.8:
        text += "\n"
    if eol == "mixed":
        text = "".join(c if c != "\n" else ["\n", "\r\n"][int(rng.integers(2))] for c in text)
    else:
        text = text.replace("\n", eol)
    name = os.path.join(ctx.scratch(), "in.dat")
    with open(name, "wb") as f:
        f.write(text.encode("utf-8"))
    os.chmod(name, 0o444)
    st = os.stat(name)
    lines = files.parse(text)
    want = files.sets(lines) if lines else {}
    n = len(files.blocks(lines))
    r = reader_writer.read_magnetogram_file(name)
    ctx.ev("files_read")
    R = gen.model(r)
    ctx.equal(sorted(R), sorted(want), "pairs read")
    ctx.equal(len(r.default_coefficients), n, "number of values per coefficient")
    ctx.same("value of an absent coefficient", r.get(200, 0), np.zeros(n, complex))
    for k, v in want.items():
        ctx.ev("coefficients")
        ctx.close("value", R[k], v, rtol=1e-11, scale=np.abs(v), pair=k)
    with open(name, "rb") as f:
        ctx.check(f.read() == text.encode("utf-8"), "reading changed the file")
    st2 = os.stat(name)
    ctx.check((st.st_mtime_ns, st.st_ino, st.st_mode) == (st2.st_mtime_ns, st2.st_ino, st2.st_mode), "reading touched the file")
    ctx.check(os.listdir(ctx.scratch()) == ["in.dat"], "reading created a file")
    ctx.describe(text[:1500])


CASES = {"layout": (layout, 600, 12000)}
