"""C40: LSD plots show the requested profiles."""
import os
import numpy as np
from matplotlib import pyplot as plt
from matplotlib.container import ErrorbarContainer
from starwinds_magnetogram import plot_lsd
import cli
import figs
from vh import fingerprint

PROPERTY = "C40"
QUICK_SCALE = 2
RULE = ("random tables of LSD data, selections and orders of I, V and N (single, repeated), stacks of one to five sets with every limit option, and the command with random "
        "headers, selections, formats and unknown parameters; a case is the table with the selection")
REQUIRE = dict(panels=300, stacks=60, commands=60, refusals=10, separate_programs=3)
COLUMN = {"I": 1, "V": 3, "N": 5}
FORMATS = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}


def table(rng, columns=7):
    n = int(rng.integers(2, 60))
    v = np.cumsum(rng.uniform(.1, 3, n)) - 50
    if rng.random() < .2:
        v = v[::-1]
    d = np.column_stack([v] + [f for _ in range(3) for f in (rng.normal(size=n) * 10.0 ** rng.integers(-4, 1), np.abs(rng.normal(size=n)) * 1e-3 + 1e-6)])
    return d[:, :columns]


def judge_panel(ctx, ax, d, col):
    ctx.ev("panels")
    bars = [c for c in ax.containers if isinstance(c, ErrorbarContainer)]
    ctx.equal(len(bars), 1, "number of profiles in the panel")
    line, _, cols = bars[0].lines
    x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
    ctx.close("velocities shown", x, d[:, 0], rtol=1e-12)
    ctx.close("values shown", y, d[:, col], rtol=1e-12)
    ctx.check(bars[0].has_yerr and not bars[0].has_xerr and len(cols) == 1, "error bars")
    seg = np.array([np.asarray(s) for s in cols[0].get_segments()])
    ctx.check(seg.shape == (len(d), 2, 2), "number of error bars", shape=seg.shape)
    ctx.close("places of the error bars", seg[:, :, 0], d[:, :1] * np.ones(2), rtol=1e-12)
    seg = np.sort(seg[:, :, 1], axis=1)
    e = d[:, col + 1]
    ctx.close("error bars", seg, np.stack([d[:, col] - e, d[:, col] + e], -1), rtol=1e-12)
    lo, hi = sorted(ax.get_xlim())
    ctx.check(lo <= d[:, 0].min() and hi >= d[:, 0].max(), "velocities outside the panel", limits=(lo, hi))


def selection(rng):
    k = rng.integers(4)
    if k == 0:
        return str(rng.choice(list("IVN")))
    if k == 1:
        return "".join(rng.choice(list("IVN"), int(rng.integers(1, 6))))
    return "".join(rng.permutation(list("IVN"))[:int(rng.integers(1, 4))])


def judge_profile(ctx, axs, d, params):
    for ax, p in zip(axs, params):
        judge_panel(ctx, ax, d, COLUMN[p])
        text = ax.get_ylabel()
        ctx.check("$%s/" % p in text or text.split("/")[0].endswith(p), "label of the panel", label=text, due=p)
    ctx.check("velocity" in axs[len(params) - 1].get_xlabel().lower(), "label of the velocities")


def profile(ctx):
    rng = ctx.rng
    params = selection(rng)
    default = rng.random() < .15
    if default:
        params = "VNI"
    d = table(rng)
    if set(params) == {"I"}:
        d = d[:, :3]
    extra = int(rng.random() < .15)
    fig, axs = plt.subplots(len(params) + extra, squeeze=False)
    before = fingerprint(d)
    given = [params, list(params), tuple(params)][rng.integers(3)]
    out = plot_lsd.plot_lsd_profile(d) if default else plot_lsd.plot_lsd_profile(d, given) if rng.random() < .5 else plot_lsd.plot_lsd_profile(d, parameters=given)
    ctx.check(fingerprint(d) == before, "plotting changed the data")
    ctx.check(out is fig, "another figure returned")
    ctx.equal(len(fig.axes), len(params) + extra, "number of panels")
    judge_profile(ctx, fig.axes, d, params)
    ctx.check(all(not a.containers and not a.lines for a in fig.axes[len(params):]), "more panels than asked for")
    ctx.describe("profile", params, d[:2].tolist(), len(d))


def stack(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 6))
    ds = [table(rng, int(rng.choice([5, 7]))) for _ in range(n)]
    names = [None, ["set %d" % i for i in rng.permutation(20)[:n]]][rng.integers(2)]
    k = int(rng.integers(4))
    lim = [None, "same", (-.5, .75), [-2., 1.]][k]
    how = str(rng.choice(["none", "reuse", "other"]))
    fig0 = None
    if how == "reuse":
        fig0 = plt.subplots(n)[0]
    elif how == "other":
        plt.subplots(n + 1)
    before = fingerprint(ds)
    kw = {} if lim is None and rng.random() < .5 else dict(y_lim=lim)
    plot_lsd.plot_lsd_stack(ds if rng.random() < .7 else tuple(ds), names, **kw)
    ctx.check(fingerprint(ds) == before, "plotting changed the data")
    fig = plt.gcf()
    ctx.ev("stacks")
    ctx.check(fig0 is None or fig is fig0, "panels of the present figure not used")
    ctx.equal(len(fig.axes), n, "number of panels")
    top = [a.get_position().y0 for a in fig.axes]
    ctx.check(top == sorted(top, reverse=True), "panels not from top to bottom")
    for i, (ax, d) in enumerate(zip(fig.axes, ds)):
        judge_panel(ctx, ax, d, 3)
        if names:
            leg = ax.get_legend()
            ctx.check(leg is not None and [t.get_text() for t in leg.get_texts()] == [names[i]], "name of the data set", due=names[i])
    ys = [sorted(a.get_ylim()) for a in fig.axes]
    if lim == "same":
        for y in ys:
            ctx.close("same limits", np.array(y), np.array(ys[0]), rtol=1e-12)
        for d in ds:
            ctx.check(ys[0][0] <= np.min(d[:, 3] - d[:, 4]) and ys[0][1] >= np.max(d[:, 3] + d[:, 4]), "common limits do not cover the data", limits=ys[0])
    elif lim is not None:
        for y in ys:
            ctx.close("limits", np.array(y), np.array(lim), rtol=1e-12)
    ctx.check("km/s" in fig.axes[-1].get_xlabel(), "label of the velocities")
    ctx.describe("stack", n, names, k, how, [len(d) for d in ds])


def setup(ctx):
    rng = ctx.rng
    work = os.path.join(os.path.realpath(ctx.scratch()), "work")
    os.makedirs(os.path.join(work, "in put"))
    d = table(rng)
    skip = int(rng.choice([2, 2, 0, 1, 3, 7]))
    head = ["***Reduced spectrum of 'HD 1'", " %d 6" % len(d), "1 2 3", "x", "", "5.0 1 1 1 1 1 1", "# end"][:skip]
    rel = os.path.join(str(rng.choice(["", "in put"])), "star profile.lsd")
    eol = ["\n", "\r\n"][int(rng.random() < .15)]
    with open(os.path.join(work, rel), "w", newline="") as f:
        f.write(eol.join(head + ["  ".join("%.9e" % x for x in row) for row in d]) + eol)
    d = np.array([[float("%.9e" % x) for x in row] for row in d])
    source = [rel, os.path.join(work, rel)][rng.integers(2)]
    ext = str(rng.choice(["png", "png", "pdf", "svg"]))
    out = "out image." + ext
    params = selection(rng)
    opts = [[source] + [[out, os.path.join(work, out)][rng.integers(2)]]]
    if params in ("VI",) and rng.random() < .5:
        pass
    else:
        opts.append([["-p", params], ["--params", params], ["--params=" + params]][rng.integers(3)])
    if skip != 2 or rng.random() < .3:
        opts.append([["-s", str(skip)], ["--skip-rows", str(skip)], ["--skip-rows=%d" % skip]][rng.integers(3)])
    if rng.random() < .1:
        opts, params = [o for o in opts if not o[0].startswith(("-p", "--params"))], "VI"
    opts = [opts[i] for i in rng.permutation(len(opts))]
    return work, d, params, source, out, ext, [x for o in opts for x in o]


def judge_files(ctx, before, after, out, ext):
    ctx.equal(set(after) - set(before), {out} if out else set(), "files written")
    ctx.check(all(after[k] == v for k, v in before.items()), "a file that was there changed")
    if out:
        ctx.check(len(after[out][1]) > 1000 and after[out][1].startswith(FORMATS[ext]), "not an image of the format asked for")


def command(ctx):
    rng = ctx.rng
    work, d, params, source, out, ext, argv = setup(ctx)
    before = cli.tree(work)
    with figs.Saved() as rec:
        res = cli.run("plot_lsd", argv, work)
    ctx.ev("commands")
    ctx.check(res.ok, "the command failed", argv=argv, error=res.error)
    judge_files(ctx, before, cli.tree(work), out, ext)
    ctx.equal(len(rec.figures), 1, "number of figures saved")
    fig = rec.figures[0][0]
    ctx.equal(len(fig.axes), len(params), "number of panels")
    judge_profile(ctx, fig.axes, d, params)
    ctx.check(source in fig.axes[0].get_title(), "title does not name the file", title=fig.axes[0].get_title())
    ctx.describe("command", argv, len(d))


def refused(ctx):
    rng = ctx.rng
    work, d, params, source, out, ext, argv = setup(ctx)
    k = int(rng.integers(3))
    if k == 0:
        argv += ["-p", params + str(rng.choice(["Q", "i", "v", "0"]))]
    elif k == 1:
        argv[argv.index(source)] = source + ".missing"
    else:
        argv += ["-s", "many"]
    before = cli.tree(work)
    res = cli.run("plot_lsd", argv, work)
    ctx.ev("refusals")
    ctx.check(not res.ok, "an invalid command line was accepted", argv=argv)
    judge_files(ctx, before, cli.tree(work), None, ext)
    ctx.describe("refused", k, argv)


def program(ctx):
    work, d, params, source, out, ext, argv = setup(ctx)
    before = cli.tree(work)
    res = cli.spawn("plot_lsd", argv, work)
    ctx.ev("separate_programs")
    ctx.check(res.ok, "exit status", argv=argv, error=res.error)
    judge_files(ctx, before, cli.tree(work), out, ext)
    ctx.describe("program", argv)


CASES = {"profile": (profile, 120, 1500), "stack": (stack, 80, 1000), "command": (command, 70, 800), "refused": (refused, 20, 200), "program": (program, 4, 40)}
CHUNK = 3
