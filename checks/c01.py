"""C01: a coefficient set behaves as a map from (degree, order) to values."""
import numpy as np
import starwinds_magnetogram.coefficients as shc

PROPERTY = "C01"
QUICK_SCALE = 4
RULE = ("random sequences of append/set/has/get and refused calls on sets with 1-4 values per coefficient, compared after "
        "every call with a dictionary; a case is the full operation sequence")
REQUIRE = dict(refusals=200, stores=2000, lookups=2000, full_listings=200, calls_while_listing=100)


def same_state(ctx, c, model, default):
    ctx.ev("full_listings")
    listed = [((l, m), np.array(v)) for (l, m), v in c.contents()]
    ctx.equal([k for k, _ in listed], sorted(model), "the listed pairs differ from those stored")
    for k, v in listed:
        ctx.same("listed value", v, model[k], pair=k)
    ctx.equal(int(c.size), len(model), "size")
    ctx.equal(int(c.degree_max), max([l for l, _ in model] + [0]), "highest degree")
    ctx.equal(int(c.order_min), min([m for _, m in model] + [0]), "lowest order")
    ctx.same("default", c.default_coefficients, default)


def several_listings(ctx, c, model):
    """Several listings at a time, each whole."""
    rng = ctx.rng
    its = [iter(c.contents()) for _ in range(int(rng.integers(2, 4)))]
    seen = [[] for _ in its]
    left = list(range(len(its)))
    while left:
        i = left[int(rng.integers(len(left)))]
        try:
            for _ in range(int(rng.integers(1, 4))):
                seen[i].append(tuple(next(its[i])[0]))
        except StopIteration:
            left.remove(i)
        if rng.random() < .2:
            [lambda: str(c), lambda: repr(c), lambda: c.as_arrays() if model else 0, lambda: c.copy(), lambda: shc.allclose(c, c), lambda: next(c.contents(), 0)][int(rng.integers(6))]()
            ctx.ev("calls_while_listing")
    for s in seen:
        ctx.equal(s, sorted(model), "the listed pairs with several listings at a time")


def sequence(ctx):
    rng = ctx.rng
    ncol = int(rng.integers(1, 5))
    default = np.zeros(ncol, complex) if rng.random() < 0.6 else rng.normal(size=ncol) + 1j * rng.normal(size=ncol)
    if rng.random() < 0.1:    # no default given: single complex values, absent ones are zero
        ncol, default = 1, np.zeros(1, complex)
        c = shc.Coefficients()
    else:
        c = shc.Coefficients(default.copy() if ncol > 1 or rng.random() < 0.5 else complex(default[0]))
    lmax = int(rng.choice([1, 2, 3, 5, 12, 40, 120]))
    model, log = {}, []
    pool = None
    if rng.random() < 0.6:    # few keys, many collisions
        pool = []
        for _ in range(int(rng.integers(2, 12))):
            l = int(rng.integers(0, lmax + 1))
            pool.append((l, int(rng.integers(-l, l + 1))))
    n = int(rng.integers(5, 80))

    def pair():
        if pool and rng.random() < 0.9:
            return pool[int(rng.integers(len(pool)))]
        l = int(rng.integers(0, lmax + 1))
        return l, int(rng.choice([-l, l, 0, rng.integers(-l, l + 1)]))

    def value():
        v = rng.normal(size=ncol) * 10.0 ** rng.integers(-300, 300) + 1j * rng.normal(size=ncol)
        return np.zeros(ncol, complex) if rng.random() < 0.05 else v

    for step in range(n):
        op = rng.choice(["append", "set", "has", "get", "bad_order", "bad_shape", "get_change"], p=[.35, .2, .15, .15, .05, .05, .05])
        l, m = pair()
        li, mi = (np.int64(l), np.int64(m)) if rng.random() < 0.3 else (l, m)
        log.append((str(op), l, m))
        if op in ("append", "set"):
            v = value()
            arg = complex(v[0]) if ncol == 1 and rng.random() < 0.5 else list(v) if rng.random() < 0.2 else v.copy()
            if op == "append" and (l, m) in model:
                ctx.refused(lambda: c.append(li, mi, arg), "appending an existing pair was not refused", pair=(l, m))
            else:
                getattr(c, op)(li, mi, arg)
                model[(l, m)] = v
                ctx.ev("stores")
            if isinstance(arg, np.ndarray):   # the caller reuses its array
                arg[...] = -77
        elif op == "has":
            ctx.ev("lookups")
            ctx.equal(bool(c.has(li, mi)), (l, m) in model, "has() disagrees", pair=(l, m))
        elif op == "get":
            ctx.ev("lookups")
            ctx.same("get", c.get(l, m), model.get((l, m), default), pair=(l, m))
        elif op == "get_change":
            if (l, m) not in model:
                c.get(l, m)[...] = 55   # an unset value does not come into being, and the default stays
                ctx.ev("lookups")
                ctx.same("get after changing the default obtained", c.get(l, m), default, pair=(l, m))
        elif op == "bad_order":
            bad = l + int(rng.integers(1, 4))
            bad = -bad if rng.random() < 0.5 else bad
            fn = c.append if rng.random() < 0.5 else c.set
            ctx.refused(lambda: fn(l, bad, value()), "an order above the degree was not refused", pair=(l, bad))
        elif op == "bad_shape":
            k = ncol + 1 if ncol == 1 or rng.random() < 0.5 else ncol - 1
            fn = c.append if (l, m) not in model and rng.random() < 0.5 else c.set
            ctx.refused(lambda: fn(l, m, np.ones(k, complex)), "a value of the wrong length was not refused", got=k, want=ncol)
        ctx.equal(int(c.size), len(model), "size", log=log)
        ctx.equal(int(c.degree_max), max([a for a, _ in model] + [0]), "highest degree", log=log)
        ctx.equal(int(c.order_min), min([b for _, b in model] + [0]), "lowest order", log=log)
        if step % 7 == 0 or op.startswith("bad"):
            same_state(ctx, c, model, default)
    same_state(ctx, c, model, default)
    several_listings(ctx, c, model)
    for k in list(model) + [pair() for _ in range(10)]:
        ctx.ev("lookups")
        ctx.same("get", c.get(*k), model.get(k, default), pair=k)
        ctx.equal(bool(c.has(*k)), k in model, "has() disagrees", pair=k)
    ctx.describe(ncol, tuple(log))


CASES = {"sequence": (sequence, 3000, 60000)}
