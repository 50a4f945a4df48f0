"""C46: the common options of the commands only change what is logged."""
import logging
import os

import cli
import figs
import files
import gen
import starwinds_magnetogram
import c40
import c37

PROPERTY = "C46"
QUICK_SCALE = 2
RULE = ("the three commands run on random files with and without quiet and verbose options in any position; files written, figures saved and levels of the loggers compared; "
        "help, version and wrong usage; a case is the command line with the file")
REQUIRE = dict(compared_runs=120, information=60, usage_errors=40)
TOOLS = ["convert_magnetogram", "plot_magnetogram", "plot_lsd"]


def setup(ctx, tool):
    """Directory and a command line that works (options before or after the names)."""
    rng = ctx.rng
    base = os.path.realpath(ctx.scratch())
    if tool == "plot_lsd":
        work, d, params, source, out, ext, argv = c40.setup(ctx)
        return work, [a.replace(work, ".") for a in argv], out
    work = os.path.join(base, "work")
    os.mkdir(work)
    if tool == "plot_magnetogram":
        c37.make_input(rng, os.path.join(work, "star.dat"), False)
        kind = str(rng.choice(["radial", "strength", "energy-matrix", "energy-by-degree"]))
        return work, ["star.dat", "image.png", "-p", kind], "image.png"
    pairs = gen.lm_pairs(rng, lmax=int(rng.integers(1, 6)))
    with open(os.path.join(work, "star.dat"), "w") as f:
        f.write(files.text(dict(zip(pairs, gen.values(rng, (len(pairs), 1))))))
    out = ["out.dat", None][int(rng.integers(2))]
    o = [[], ["--pfss-to-zdi"], ["--no-conversion"], ["--no-header"], ["--degree-max", "4"]][int(rng.integers(5))]
    return work, ["star.dat"] + [out] * (out is not None) + o, out


def logger_levels():
    names = [None, "matplotlib", "verif.other", "starwinds_magnetogra"]
    return [logging.getLogger(n).level for n in names]


def clean(work, keep):
    for n in cli.tree(work):
        if n not in keep:
            os.remove(os.path.join(work, n))


def options(ctx):
    rng = ctx.rng
    tool = TOOLS[[0, 0, 0, 1, 2][int(rng.integers(5))]]
    work, argv, out = setup(ctx, tool)
    start = cli.tree(work)
    package = logging.getLogger("starwinds_magnetogram")
    package.setLevel(logging.NOTSET)
    lv = logger_levels()
    results = []
    todo = [[]] + [[["-q"], ["--quiet"], ["-v"], ["--verbose"], ["-q", "-v"], ["-v", "-q"], ["-v", "-v"]][i] for i in rng.permutation(7)[:3 if tool == TOOLS[0] else 1]]
    for extra in todo:
        pos = [0, len(argv)][int(rng.integers(2))]
        line = argv[:pos] + extra + argv[pos:]
        with figs.Saved() as rec:
            res = cli.run(tool, line, work)
        ctx.check(res.ok, "the command failed", argv=line, error=res.error)
        want = {"q": logging.WARNING, "v": logging.DEBUG}[extra[-1].strip("-")[0]] if extra else logging.INFO
        ctx.equal(package.level, want, "level of what the package logs", argv=line)
        ctx.equal(logger_levels(), lv, "levels of other loggers", argv=line)
        after = cli.tree(work)
        ctx.check(all(after.get(k) == v for k, v in start.items()), "a file that was there changed", argv=line)
        results.append(({k: v for k, v in after.items() if k not in start}, len(rec.figures), res.out, line))
        ctx.ev("compared_runs")
        clean(work, start)
    first = results[0]
    for r in results[1:]:
        ctx.equal(sorted(r[0]), sorted(first[0]), "files written", argv=r[3])
        ctx.equal(r[1], first[1], "number of figures saved", argv=r[3])
        for k in r[0]:
            if k.endswith((".pdf", ".svg")):      # they hold dates and random names
                ctx.check(len(r[0][k][1]) > 1000, "image is empty", argv=r[3])
            else:
                ctx.check(r[0][k] == first[0][k], "contents of the file written differ", file=k, argv=r[3])
    ctx.describe(tool, argv, todo)


def information(ctx):
    """Help and version only print."""
    rng = ctx.rng
    tool = TOOLS[int(rng.integers(3))]
    work, argv, out = setup(ctx, tool)
    start = cli.tree(work)
    opt = ["-h", "--help", "--version"][int(rng.integers(3))]
    line = [[opt], argv + [opt], [opt] + argv][int(rng.integers(3))]
    res = cli.run(tool, line, work)
    ctx.ev("information")
    ctx.check(res.ok, "the command failed", argv=line, error=res.error)
    ctx.check(cli.tree(work) == start, "printing information changed files", argv=line)
    if opt == "--version":
        ctx.check(starwinds_magnetogram.__version__ in res.out, "version not stated", out=res.out)
    else:
        for word in {"convert_magnetogram": ["--pfss-to-zdi", "--degree-max", "--no-header", "--no-conversion"], "plot_magnetogram": ["--plot_type", "--type"],
                     "plot_lsd": ["--params", "--skip-rows"]}[tool] + ["--quiet", "--verbose", "input_file", "output_file"]:
            ctx.check(word in res.out, "help does not mention " + word, out=res.out)
    ctx.describe("information", tool, line)


def usage(ctx):
    """Wrong usage is refused without touching files."""
    rng = ctx.rng
    tool = TOOLS[int(rng.integers(3))]
    work, argv, out = setup(ctx, tool)
    start = cli.tree(work)
    line = [[], argv + ["--no-such-option"], ["-Z"] + argv, ["a.dat", "b.dat", "c.dat", "d.dat"], argv + ["--quiet=3"]][int(rng.integers(5))]
    res = cli.run(tool, line, work)
    ctx.ev("usage_errors")
    ctx.check(not res.ok, "wrong usage accepted", argv=line)
    ctx.check(cli.tree(work) == start, "wrong usage changed files", argv=line)
    ctx.describe("usage", tool, line)


CASES = {"options": (options, 60, 600), "information": (information, 50, 400), "usage": (usage, 40, 400)}
CHUNK = 3
