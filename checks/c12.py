"""C12: the conversion command writes the converted magnetogram."""
import os
import numpy as np
import cli
import files
import gen
import ref

PROPERTY = "C12"
QUICK_SCALE = 4
RULE = ("random input files (1-4 sets) converted by the command with every combination of options, names and directories, the output "
        "parsed independently and compared with the converted coefficients; a case is the command line with the input")
REQUIRE = dict(conversions=250, coefficient_lines=4000, refusals=20)


def expected(M, mode, deg):
    """[{pair: value}] per block"""
    pairs = [(l, m) for l in range(deg + 1) for m in range(l + 1)]

    def first(k):
        return complex(M[k][0]) if k in M else 0j
    if mode == "zdi":
        return [{k: first(k) * ref.forward_factor(*k) for k in pairs}]
    if mode == "none":
        return [{k: first(k) for k in pairs}]
    alpha = {k: first(k) / ref.forward_factor(*k) for k in pairs}
    beta = {k: alpha[k] * (k[0] + 1) * ref.radial_function(k[0], 1.0, 1.0, 3.0)[0] for k in pairs}
    return [alpha, beta, {k: 0j for k in pairs}]


def check_output(ctx, path, M, mode, limit, header):
    deg = max(l for l, _ in M) if limit is None else limit
    with open(path) as f:
        text = f.read()
    lines = files.parse(text)
    want = expected(M, mode, deg)
    ctx.equal(len(lines), sum(len(w) for w in want), "number of coefficient lines")
    i = 0
    for n, w in enumerate(want):
        for k in sorted(w):
            l, m, v = lines[i]
            i += 1
            ctx.ev("coefficient_lines")
            ctx.equal((l, m), k, "pair of a coefficient line")
            if mode == "pfss" and n == 1 and l == 0:
                continue    # this coefficient has no field
            for part in ("real", "imag"):
                x = getattr(w[k], part)
                ctx.close("converted coefficient", getattr(v, part), x, rtol=1.0, scale=files.digits7(x) * 1.0001 + 1e-13 * abs(w[k]), pair=k, block=n)
    head = text.split("\n")[:5]
    if mode != "pfss":
        t = head[2].split()
        is_swmf = len(t) == 2 and len(files.parse(head[2])) == 0
        ctx.check(is_swmf == header, "SWMF header present: %s, requested: %s" % (is_swmf, header), head=head)
        if header:
            ctx.equal(int(t[0]), len(lines), "number of coefficient lines in the header")
            ctx.equal(int(head[3].split()[0]), deg, "highest degree in the header")


NAMES = ["mag.dat", "zdi-magnetogram.dat", "noext", "two.dots.txt", "with space.dat", "a_wso.dat", "UPPER.DAT", ".hidden", "x.d", "tar.gz.dat"]


def convert(ctx, runner=cli.run):
    rng = ctx.rng
    base = os.path.realpath(ctx.scratch())
    work, data, target = (os.path.join(base, n) for n in ("work", "data", "target"))
    for x in (work, data, target):
        os.mkdir(x)
    mode = ["zdi", "pfss", "none"][int(rng.integers(3))]
    both = mode == "none" and rng.random() < 0.15     # --no-conversion takes precedence
    nsets = int(rng.choice([1, 1, 2, 3, 3, 4])) if mode == "zdi" or rng.random() < 0.2 else 1
    lmax = gen.top(rng, rng.choice([0, 1, 2, 3, 5, 10, 15]), (25, 40), .04)
    pairs = gen.lm_pairs(rng, lmax=lmax)
    M = dict(zip(pairs, gen.values(rng, (len(pairs), nsets))))
    text = files.text(M, newline=["\n", "\n", "\r\n"][int(rng.integers(3))], gap=bool(rng.random() < .7),
                      shuffle=rng if rng.random() < .3 else None,
                      header=[("General poloidal plus toroidal field", "%d 3 -3"), (), ("# x",), ("a", "0 0.0 -2 3 2", "%d 1", "5 0 0.0", "n m g h")][int(rng.integers(4))])
    M = files.sets(files.parse(text))
    name = NAMES[int(rng.integers(len(NAMES)))]
    where = [work, data][int(rng.integers(2))]
    source = os.path.join(where, name)
    with open(source, "w", newline="") as f:
        f.write(text)
    arg = source if rng.random() < 0.5 else os.path.relpath(source, work)
    top = max(l for l, _ in M)
    limit = [None, None, top, max(0, top - 1), 0, top + 1, top + 5, 30][int(rng.integers(8))]
    header = bool(rng.random() < 0.5)
    out = None
    opts = []
    if mode == "pfss" or both:
        opts.append(["--pfss-to-zdi"])
    if mode == "none":
        opts.append(["--no-conversion"])
    if not header:
        opts.append(["--no-header"])
    if limit is not None:
        opts.append(["--degree-max", str(limit)] if rng.random() < .5 else ["--degree-max=%d" % limit])
    if rng.random() < 0.3:
        opts.append([["-q"], ["-v"], ["--quiet"], ["--verbose"]][int(rng.integers(4))])
    opts = [o for i in rng.permutation(len(opts)) for o in opts[i]]
    if rng.random() < 0.6:
        dest = os.path.join([work, target, data][int(rng.integers(3))], ["out.dat", "result", "o.u.t", "out put.txt"][int(rng.integers(4))])
        if rng.random() < 0.3:
            with open(dest, "w") as f:
                f.write("old content\n" + "9 9 1.0 1.0\n" * 3000)
        out = dest if rng.random() < 0.5 else os.path.relpath(dest, work)
    else:
        stem, ext = os.path.splitext(name)
        dest = os.path.join(work, stem + ("_zdi" if mode == "pfss" else "_wso") + ext)
    pos = [arg] + ([out] if out else [])
    argv = (opts + pos) if rng.random() < 0.5 else (pos + opts)
    before = cli.tree(base)
    r = runner("convert_magnetogram", argv, work)
    after = cli.tree(base)
    rel = os.path.relpath(dest, base)
    if nsets > 1 and mode != "zdi":
        ctx.ev("refusals")
        ctx.check(not r.ok, "several sets were accepted where one is required", argv=argv)
        ctx.check(before == after, "a refused conversion changed files", argv=argv)
    else:
        ctx.check(r.ok, "the command failed: %s" % r.error, argv=argv)
        ctx.ev("conversions")
        ctx.check(rel in after, "the output file is missing", argv=argv, files=sorted(after), want=rel)
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        ctx.check([k for k in changed if k != rel] == [], "other files were changed or created", argv=argv, changed=changed)
        check_output(ctx, dest, M, mode, limit, header)
    ctx.describe(argv[-8:], nsets, sorted(M)[:6], limit)


def program(ctx):
    convert(ctx, cli.spawn)
    ctx.ev("separate_programs")


CASES = {"convert": (convert, 500, 8000), "program": (program, 6, 60)}
