"""C02: coefficient sets never share storage with their sources or results."""
import numpy as np
import starwinds_magnetogram.coefficients as shc
import gen
from vh import fingerprint

PROPERTY = "C02"
QUICK_SCALE = 8
RULE = ("each operation applied to random operands; every array reachable from the results is then overwritten while the "
        "operands, the caller's arrays and the other results are watched, and the other way round; a case is operation + operands")
REQUIRE = dict(mutations=1000, watched=1000)


def arrays_of(c):
    out = [v for _, v in c.contents()] + [c.default_coefficients]
    for k, _ in list(c.contents())[:5]:
        out.append(c.get(*k))
    return out + [c.get(63, 1), c.get(0, 0)]


def reach(x):
    if isinstance(x, shc.Coefficients):
        return arrays_of(x)
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for y in x for a in reach(y)]
    return []


def scribble(ctx, x):
    for a in reach(x):
        if a.flags.writeable:
            if a.dtype.kind == "b":
                a[...] = ~a
            else:
                a[...] = 77
            ctx.ev("mutations")
    for c in (x if isinstance(x, (list, tuple)) else [x]):
        if isinstance(c, shc.Coefficients):
            n = len(c.default_coefficients)
            c.set(61, -7, np.full(n, 5))
            c.set(1, 1, np.full(n, 6))
            ctx.ev("mutations")


def operations(rng, a, b, ncol):
    """name -> (function of nothing, the operands)"""
    k = complex(rng.normal(), rng.normal())
    cuts = sorted(set(int(x) for x in rng.integers(1, ncol, 2))) if ncol > 1 else ncol
    l, m, v = (np.array(x) for x in zip(*[(p[0], p[1], np.array(x)) for p, x in a.contents()]))
    if ncol == 1 and rng.random() < 0.5:
        v = v[:, 0].copy()
    d = np.full(ncol, 3 + 4j)
    val = np.full(ncol, 1 - 2j)
    new = shc.Coefficients(np.zeros(ncol, complex))

    def blank(f):
        x = f(a)
        x.append(1, 0, val)
        return x

    def store(method):
        getattr(new, method)(2, -1, val)
        return new

    one = np.float64(1.0)
    return {
        "copy": (lambda: a.copy(), [a]),
        "copy()": (lambda: shc.copy(a), [a]),
        "add": (lambda: a + b, [a, b]),
        "add self": (lambda: a + a, [a]),
        "add empty": (lambda: a + shc.empty_like(a), [a]),
        "empty add": (lambda: shc.empty_like(a) + a, [a]),
        "sub": (lambda: a - b, [a, b]),
        "mul": (lambda: a * k, [a]),
        "mul one": (lambda: a * 1, [a]),
        "rmul": (lambda: k * a, [a]),
        "mul coeffs": (lambda: a * b, [a, b]),
        "square": (lambda: a * a, [a]),
        "div": (lambda: a / k, [a]),
        "div one": (lambda: a / one, [a]),
        "pow": (lambda: a ** 2, [a]),
        "pow one": (lambda: a ** 1, [a]),
        "truncated": (lambda: a.truncated(3), [a]),
        "truncated above": (lambda: shc.truncated(a, 99), [a]),
        "scale": (lambda: a.scale(lambda l_, m_: 2.0 + l_), [a]),
        "scale one": (lambda: shc.scale(a, lambda l_, m_: 1, 1), [a]),
        "hstack": (lambda: shc.hstack([a, b]), [a, b]),
        "hstack one": (lambda: shc.hstack((a,)), [a]),
        "hstack self": (lambda: shc.hstack((a, a, b)), [a, b]),
        "hsplit": (lambda: shc.hsplit(a), [a]),
        "hsplit method": (lambda: a.hsplit(), [a]),
        "hsplit one": (lambda: shc.hsplit(a, 1), [a]),
        "hsplit cuts": (lambda: a.hsplit(cuts), [a]),
        "empty_like": (lambda: blank(shc.empty_like), [a, val]),
        "zeros_like": (lambda: shc.zeros_like(a), [a]),
        "from_arrays": (lambda: shc.from_arrays(l, m, v), [l, m, v]),
        "from_arrays one": (lambda: shc.from_arrays(l[:1], m[:1], v[:1]), [l, m, v]),
        "as_arrays": (lambda: a.as_arrays(), [a]),
        "as_arrays set": (lambda: a.as_arrays(include_unset=False), [a]),
        "constructor": (lambda: shc.Coefficients(d), [d]),
        "append": (lambda: store("append"), [val]),
        "set": (lambda: store("set"), [val]),
        "isclose": (lambda: shc.isclose(a, b), [a, b]),
        "allclose": (lambda: shc.allclose(a, b), [a, b]),
    }


OPS = sorted(operations(np.random.default_rng(0), gen.coeffs(np.random.default_rng(0), 2), gen.coeffs(np.random.default_rng(1), 2), 2))


def independence(ctx):
    rng = ctx.rng
    ncol = int(rng.integers(1, 5))
    default = rng.normal(size=ncol) + 1j if rng.random() < 0.3 else None
    a, b = (gen.coeffs(rng, ncol, lmax=gen.top(rng, rng.integers(0, 6)), negative=bool(rng.random() < .5)) for _ in range(2))
    if default is not None:
        a, b = (gen.build(list(gen.model(x)), list(gen.model(x).values()), default.copy()) for x in (a, b))
    name = OPS[ctx.index % len(OPS)]
    fn, operands = operations(rng, a, b, ncol)[name]
    watched = [a, b] + [o for o in operands if isinstance(o, np.ndarray)]
    before = [fingerprint(o) for o in watched]
    result = fn()
    for o, f in zip(watched, before):
        ctx.check(fingerprint(o) == f, "%s changed an operand" % name)
    parts = list(result) if isinstance(result, (list, tuple)) else [result]
    # Change each result, watch the operands and the other results.
    for i, r in enumerate(parts):
        others = [p for j, p in enumerate(parts) if j != i]
        fo = [fingerprint(p) for p in others]
        saved = fingerprint(r)
        scribble(ctx, r)
        for o, f in zip(watched, before):
            ctx.ev("watched")
            ctx.check(fingerprint(o) == f, "changing the result of %s changed an operand" % name)
        for o, f in zip(others, fo):
            ctx.ev("watched")
            ctx.check(fingerprint(o) == f, "changing one result of %s changed another" % name)
    # A fresh result, change the operands, watch the result.
    if name not in ("append", "set"):
        result = fn()
        f = fingerprint(result)
        for o in watched:
            scribble(ctx, o)
        ctx.ev("watched")
        ctx.check(fingerprint(result) == f, "changing an operand of %s changed the result" % name)
    else:
        f = fingerprint(parts[0])
        watched[-1][...] = 12345
        ctx.check(fingerprint(parts[0]) == f, "changing the array passed to %s changed the set" % name)
    ctx.describe(name, ncol, list(gen.model(a).items())[:4])


CASES = {"independence": (independence, 80 * len(OPS), 2000 * len(OPS))}
