"""C13: the conversion command never destroys existing data."""
import os
import numpy as np
import cli
import files
import gen

PROPERTY = "C13"
QUICK_SCALE = 6
RULE = ("the command run with outputs that are the input under another name (relative, absolute, through links and directories), default "
        "names that exist, and conversions that must fail; all files compared byte by byte before and after; a case is the command line with the directory")
REQUIRE = dict(same_file_attempts=150, default_name_exists=100, failing_conversions=100, trees_compared=400)


def make_input(ctx, path, nsets=1):
    rng = ctx.rng
    pairs = gen.lm_pairs(rng, lmax=int(rng.integers(0, 5)))
    M = dict(zip(pairs, gen.values(rng, (len(pairs), nsets))))
    with open(path, "w") as f:
        f.write(files.text(M))


def options(rng, mode):
    o = {"zdi": [], "pfss": ["--pfss-to-zdi"], "none": ["--no-conversion"]}[mode]
    if rng.random() < 0.3:
        o = o + ["--no-header"]
    if rng.random() < 0.3:
        o = o + ["--degree-max", str(int(rng.integers(0, 8)))]
    return o


def setup(ctx):
    base = os.path.realpath(ctx.scratch())
    for n in ("work", "data", "work/sub", "other"):
        os.mkdir(os.path.join(base, n))
    rng = ctx.rng
    name = ["mag.dat", "noext", "a.b.c", "with space.txt"][int(rng.integers(4))]
    where = ["work", "data", "work/sub"][int(rng.integers(3))]
    make_input(ctx, os.path.join(base, where, name), int(rng.choice([1, 1, 3])))
    with open(os.path.join(base, "work", "bystander.dat"), "w") as f:
        f.write("keep me\n")
    return base, where, name


def same_file(ctx):
    """Whatever name the output has, the input stays."""
    rng = ctx.rng
    base, where, name = setup(ctx)
    work = os.path.join(base, "work")
    source = os.path.join(base, where, name)
    make_input(ctx, source, 1)
    rel = os.path.relpath(source, work)
    os.symlink(source, os.path.join(base, "work", "link_abs"))
    os.symlink(rel, os.path.join(base, "work", "link_rel"))
    os.symlink("link_rel", os.path.join(base, "work", "link_link"))
    os.link(source, os.path.join(base, "work", "hard"))
    os.symlink(os.path.dirname(source), os.path.join(base, "work", "dirlink"))
    aliases = [source, rel, os.path.join(".", rel), os.path.join("..", "work", rel), os.path.join(base, "other", "..", where, name),
               "link_abs", "link_rel", "link_link", "hard", os.path.join(work, "hard"), os.path.join("dirlink", name),
               os.path.join(work, "sub", "..", "link_rel"), source.replace("/work/", "//work/./"), os.path.join(base, where) + "//" + name]
    i, j = ctx.index % len(aliases), int(rng.integers(len(aliases)))
    mode = ["zdi", "pfss", "none"][int(rng.integers(3))]
    for a, b in ((aliases[j], aliases[i]), (aliases[i], aliases[j])):
        argv = options(rng, mode) + [a, b]
        before = cli.tree(base)
        r = cli.run("convert_magnetogram", argv, work)
        ctx.ev("same_file_attempts")
        ctx.ev("trees_compared")
        ctx.check(cli.tree(base) == before, "the input was changed through another name", argv=argv)
        ctx.check(not r.ok, "writing onto the input was not refused", argv=argv)
    ctx.describe(argv)


def default_name(ctx):
    """The default output name never overwrites anything."""
    rng = ctx.rng
    base, where, name = setup(ctx)
    work = os.path.join(base, "work")
    mode = ["zdi", "pfss", "none"][int(rng.integers(3))]
    if mode != "zdi":
        make_input(ctx, os.path.join(base, where, name), 1)
    stem, ext = os.path.splitext(name)
    dest = os.path.join(work, stem + ("_zdi" if mode == "pfss" else "_wso") + ext)
    kind = ["file", "empty", "link", "hard", "dir", "input_link", "previous"][ctx.index % 7]
    if kind in ("file", "empty"):
        with open(dest, "w") as f:
            f.write("precious\n" if kind == "file" else "")
    elif kind == "link":
        os.symlink(os.path.join(work, "bystander.dat"), dest)
    elif kind == "hard":
        os.link(os.path.join(work, "bystander.dat"), dest)
    elif kind == "dir":
        os.mkdir(dest)
    elif kind == "input_link":
        os.symlink(os.path.join(base, where, name), dest)
    argv = options(rng, mode) + [os.path.relpath(os.path.join(base, where, name), work)]
    if kind == "previous":      # the command itself was run before
        r = cli.run("convert_magnetogram", argv, work)
        ctx.check(r.ok and os.path.exists(dest), "the first conversion failed: %s" % r.error, argv=argv)
        argv = options(rng, mode) + argv[-1:]
    before = cli.tree(base)
    r = cli.run("convert_magnetogram", argv, work)
    ctx.ev("default_name_exists")
    ctx.ev("trees_compared")
    ctx.check(cli.tree(base) == before, "the default output name changed existing files", argv=argv, kind=kind)
    ctx.check(not r.ok, "the default output name exists and was not refused", argv=argv, kind=kind)
    ctx.describe(kind, argv)


def failing(ctx):
    """Conversions that fail leave everything as it was."""
    rng = ctx.rng
    base, where, name = setup(ctx)
    work = os.path.join(base, "work")
    source = os.path.join(base, where, name)
    kinds = ["missing", "directory", "sets", "order", "order_late", "binary", "late_sets", "unwritable", "negative_degree"]
    kind = kinds[ctx.index % len(kinds)]
    mode = ["zdi", "pfss", "none"][int(rng.integers(3))]
    opts = options(rng, mode)
    if kind == "missing":
        os.remove(source)
    elif kind == "directory":
        os.remove(source)
        os.mkdir(source)
    elif kind in ("sets", "late_sets"):
        mode = ["pfss", "none"][int(rng.integers(2))]
        opts = options(rng, mode)
        make_input(ctx, source, int(rng.integers(2, 5)))
        if kind == "late_sets":      # only the last line makes it two sets
            make_input(ctx, source, 1)
            with open(source) as f:
                t = f.read()
            first = [x for x in t.split("\n") if len(files.parse(x)) == 1][0]
            with open(source, "a") as f:
                f.write(first + "\n")
    elif kind in ("order", "order_late"):
        with open(source, "w") as f:
            if kind == "order_late":
                f.write("1 0 1.0 0.0\n1 1 2.0 1.0\n2 0 1.0 0.0\n")
            f.write("1 %d 1.0 2.0\n" % int(rng.choice([2, -2, 7])))
    elif kind == "binary":
        with open(source, "wb") as f:
            f.write(b"1 0 1.0 0.0\n" + bytes([0xff, 0xfe, 0x80, 0x81]) * 50 + b"\n1 1 1 1\n")
    elif kind == "negative_degree":
        make_input(ctx, source, 1)
        opts = [o for o in opts if not (o == "--degree-max" or o.isdigit())] + ["--degree-max", "-1"]
    arg = source if rng.random() < 0.5 else os.path.relpath(source, work)
    out = []
    if kind == "unwritable":
        make_input(ctx, source, 1)
        out = [["sub", "no/such/dir/out.dat", "bystander.dat/x"][int(rng.integers(3))]]
    else:
        k = int(rng.integers(3))
        if k == 0:
            with open(os.path.join(work, "existing.dat"), "w") as f:
                f.write("old result\n")
            out = ["existing.dat"]
        elif k == 1:
            out = ["new.dat"]
    argv = opts + [arg] + out
    before = cli.tree(base)
    r = cli.run("convert_magnetogram", argv, work)
    ctx.ev("failing_conversions")
    ctx.ev("trees_compared")
    if kind == "binary" and r.ok:
        return      # bytes that are not text were skipped, which is as good
    ctx.check(cli.tree(base) == before, "a failing conversion (%s) changed or created files" % kind, argv=argv,
              changed=[x for x in set(before) | set(cli.tree(base)) if before.get(x) != cli.tree(base).get(x)])
    ctx.check(not r.ok, "the conversion should have failed (%s)" % kind, argv=argv)
    ctx.describe(kind, argv)


def ordinary(ctx):
    """A successful conversion leaves the input and bystanders alone."""
    rng = ctx.rng
    base, where, name = setup(ctx)
    work = os.path.join(base, "work")
    source = os.path.join(base, where, name)
    mode = ["zdi", "pfss", "none"][int(rng.integers(3))]
    if mode != "zdi":
        make_input(ctx, source, 1)
    argv = options(rng, mode) + [source] + (["out.dat"] if rng.random() < .5 else [])
    if rng.random() < 0.3:
        os.chmod(source, 0o444)
    before = cli.tree(base)
    st = os.stat(source)
    r = cli.run("convert_magnetogram", argv, work)
    after = cli.tree(base)
    ctx.ev("trees_compared")
    ctx.check(r.ok, "conversion failed: %s" % r.error, argv=argv)
    ctx.check(all(after.get(k) == v for k, v in before.items()), "an existing file was changed", argv=argv)
    ctx.equal(len(after), len(before) + 1, "number of files")
    ctx.check(os.stat(source).st_mtime_ns == st.st_mtime_ns, "the input was written to", argv=argv)
    ctx.describe(argv)


CASES = {"same_file": (same_file, 140, 1400), "default_name": (default_name, 140, 1400), "failing": (failing, 180, 1800),
         "ordinary": (ordinary, 60, 600)}
