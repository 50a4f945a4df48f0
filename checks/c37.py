"""C37: the magnetogram plotting command plots what was asked for."""
import os
import numpy as np
from matplotlib import pyplot as plt
import cli
import figs
import files
import gen
import ref
from c12 import expected
from c36 import NAMES, judge_map, titles
from c38 import energies, judge_by_degree, judge_matrix, judge_summary

PROPERTY = "C37"
RULE = ("random input files plotted by the command with every plot type, magnetogram type, file format and way of naming files (also without output file, with unknown types "
        "and unreadable input); the artists of the figure that is saved against the coefficients in the file; a case is the command line with the file")
REQUIRE = dict(plots=120, images=100, refusals=30, pfss=30, separate_programs=4)
FORMATS = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml", "jpg": b"\xff\xd8\xff", "eps": b"%!PS"}
SINGLE = {"radial": ("r", "B_r", "radial field"), "polar": ("t", r"B_\theta", "polar field"), "azimuthal": ("p", r"B_\phi", "azimuthal field"),
          "azimuth": ("p", r"B_\phi", "azimuthal field"), "strength": ("strength", "|B|", "field strength")}
TYPES = ["map"] + sorted(SINGLE) + ["energy-by-degree", "energy-matrix", "energy-summary"]
P, A = np.linspace(0, np.pi, 65), np.linspace(0, 2 * np.pi, 130)


def make_input(rng, path, pfss):
    lmax = int(rng.choice([1, 2, 3, 5, 8]))
    lmin = int(rng.random() < .8)
    if not lmin and rng.random() < .5:
        lmax = 0
    pairs = gen.lm_pairs(rng, lmax=lmax, lmin=lmin)
    mag = float(10.0 ** rng.choice([0, 1, 3, -2, -5]))
    M = dict(zip(pairs, gen.values(rng, (len(pairs), 1 if pfss else 3), mag)))
    # Some energy, so that its fractions are defined (a purely imaginary axisymmetric coefficient has none).
    l, m = np.array(pairs).T
    kinds = [np.array([M[k][i] if i < len(M[k]) else 0 for k in pairs]) for i in range(3)]
    if np.sum(energies(gen.Zdi(l, m, *kinds))["total"]) <= 1e-6 * sum(np.sum(q) for q in ref.squares(l, m, *kinds)):
        M[pairs[0]] = M[pairs[0]] + mag
    text = files.text(M, newline=["\n", "\r\n"][int(rng.random() < .2)], gap=bool(rng.random() < .7),
                      header=[("General poloidal plus toroidal field", "%d 3 -3"), (), ("# x",)][int(rng.integers(3))])
    with open(path, "w", newline="") as f:
        f.write(text)
    M = files.sets(files.parse(text))
    if pfss:
        B = expected(M, "pfss", max(l for l, _ in M))
        M = {k: np.array([b[k] for b in B]) for k in B[0]}
    l, m = np.array(sorted(M)).T
    a, b, g = np.array([M[k] for k in sorted(M)]).T
    return gen.Zdi(l, m, a, b, g)


def judge(ctx, fig, kind, z, star):
    ctx.ev("plots")
    shape = len(A) - 1, len(P) - 1
    pc = np.broadcast_to((P[1:] + P[:-1]) / 2, shape)
    ac = np.broadcast_to(((A[1:] + A[:-1]) / 2)[:, None], shape)
    scale = float(sum(ref.zdi_bound(int(l), int(m), *abc) for l, m, *abc in zip(*z.args)))
    if kind == "map" or kind in SINGLE:
        F = ref.zdi_field(*z.args, pc, ac)
    if kind == "map":
        axs = fig.axes[:3]
        for ax, (k, _, latex) in zip(axs, NAMES):
            judge_map(ctx, ax, np.asarray(F[k]), scale, P, A, latex)
        titles(ctx, axs, 1.0)
    elif kind in SINGLE:
        k, latex, name = SINGLE[kind]
        judge_map(ctx, fig.axes[0], np.asarray(F[k]), scale, P, A, latex)
        t = fig.axes[0].get_title()
        ctx.check(name in t.lower(), "title does not name the field", title=t, due=name)
        ctx.check(star in t, "title does not name the star", title=t, due=star)
    elif kind == "energy-by-degree":
        judge_by_degree(ctx, fig.axes[0], z, True)
    elif kind == "energy-matrix":
        judge_matrix(ctx, fig.axes[0], z, "total", False)
    else:
        judge_summary(ctx, fig.axes[:3], z)


def setup(ctx, pfss):
    rng = ctx.rng
    work = os.path.join(os.path.realpath(ctx.scratch()), "work")
    os.makedirs(os.path.join(work, "sub dir"))
    star = str(rng.choice(["HD 1", "mel25-005", "x", "tau.Boo"]))
    name = "coeff_" + star + ".dat"
    rel = os.path.join(str(rng.choice(["", "sub dir"])), name)
    z = make_input(rng, os.path.join(work, rel), pfss)
    source = [rel, os.path.join(work, rel)][rng.integers(2)]
    ext = str(rng.choice(["png", "png", "png", "pdf", "svg", "jpg", "eps"]))
    out = os.path.join(str(rng.choice(["", "sub dir"])), "image one." + ext)
    target = [out, os.path.join(work, out)][rng.integers(2)]
    return work, z, star, source, out, target, ext


def arguments(rng, kind, pfss, source, target):
    opts = []
    if kind != "map" or rng.random() < .5:
        opts.append([["-p", kind], ["--plot_type", kind], ["--plot_type=" + kind]][rng.integers(3)])
    if pfss or rng.random() < .3:
        y = "pfss" if pfss else "zdi"
        opts.append([["-y", y], ["--type", y], ["--type=" + y]][rng.integers(3)])
    if rng.random() < .3:
        opts.append([["-q"], ["-v"]][rng.integers(2)])
    pos = [source] + ([target] if target else [])
    opts.insert(int(rng.integers(len(opts) + 1)), pos)
    return [x for o in opts for x in o]


def judge_files(ctx, before, after, out, ext):
    new = set(after) - set(before)
    ctx.equal(new, {out} if out else set(), "files written")
    ctx.check(all(after.get(k) == v for k, v in before.items() if k != out), "a file that was there changed")
    if out:
        ctx.ev("images")
        data = after[out][1]
        ctx.check(after[out][0] == "file" and len(data) > 1000 and data[:8].startswith(FORMATS[ext][:8]), "not an image of the format asked for", data=data[:20])


def plot(ctx):
    rng = ctx.rng
    pfss = bool(rng.random() < .35)
    kind = TYPES[ctx.index % len(TYPES)]
    work, z, star, source, out, target, ext = setup(ctx, pfss)
    if rng.random() < .12:
        out = target = None
    if out and rng.random() < .2:      # an older file of that name is replaced
        with open(os.path.join(work, out), "w") as f:
            f.write("old")
    before = cli.tree(work)
    if out:
        before.pop(out, None)
    argv = arguments(rng, kind, pfss, source, target)
    with figs.Saved() as rec:
        res = cli.run("plot_magnetogram", argv, work)
    ctx.check(res.ok, "the command failed", argv=argv, error=res.error)
    after = cli.tree(work)
    judge_files(ctx, before, after, out, ext)
    if out:
        ctx.equal(len(rec.figures), 1, "number of figures saved")
        fig = rec.figures[0][0]
    else:
        fig = plt.gcf()
    if pfss:
        ctx.ev("pfss")
    judge(ctx, fig, kind, z, star)
    ctx.describe("plot", kind, pfss, ext if out else None, z, len(argv))


def refused(ctx):
    rng = ctx.rng
    pfss = bool(rng.random() < .3)
    work, z, star, source, out, target, ext = setup(ctx, pfss)
    kind = str(rng.choice(TYPES))
    argv = arguments(rng, kind, pfss, source, target)
    k = int(rng.integers(4))
    if k == 0:
        argv += ["-p", str(rng.choice(["Radial", "energy", "poloidal", "x", "", "fieldlines", "energy-by-order", "maps"]))]
    elif k == 1:
        argv += ["-y", str(rng.choice(["ZDI", "wso", "", "raw", "pfs"]))]
    elif k == 2:
        argv[argv.index(source)] = source + ".missing"
    else:
        argv[argv.index(target)] = target + ".unknownformat"
    before = cli.tree(work)
    res = cli.run("plot_magnetogram", argv, work)
    ctx.ev("refusals")
    ctx.check(not res.ok, "an invalid command line was accepted", argv=argv)
    ctx.check(cli.tree(work) == before, "files changed by a refused command", argv=argv)
    ctx.describe("refused", k, argv[-2:])


def program(ctx):
    rng = ctx.rng
    pfss = bool(rng.random() < .5)
    work, z, star, source, out, target, ext = setup(ctx, pfss)
    kind = TYPES[int(rng.integers(len(TYPES)))]
    bad = ctx.index % 4 == 3
    argv = arguments(rng, kind, pfss, source, target) + (["-p", "nothing"] if bad else [])
    before = cli.tree(work)
    res = cli.spawn("plot_magnetogram", argv, work)
    ctx.ev("separate_programs")
    ctx.check(res.ok != bad, "exit status", argv=argv, error=res.error)
    judge_files(ctx, before, cli.tree(work), None if bad else out, ext)
    ctx.describe("program", argv)


CASES = {"plot": (plot, 135, 1800), "refused": (refused, 40, 400), "program": (program, 6, 60)}
CHUNK = 2
