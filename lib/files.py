"""Independent writer and parser of magnetogram files."""
import numpy as np


def parse(text):
    """All coefficient lines of a text, in order: [(degree, order, value)]."""
    out = []
    for line in text.replace("\r\n", "\n").replace("\r", "\n").split("\n"):
        t = line.split()
        try:
            out.append((int(t[0]), int(t[1]), complex(float(t[2]), float(t[3]))))
        except (IndexError, ValueError):
            pass
    return out


def blocks(lines):
    """Split coefficient lines where a pair repeats: [{pair: value}]."""
    out = [{}]
    for l, m, v in lines:
        if (l, m) in out[-1]:
            out.append({})
        out[-1][(l, m)] = v
    return out


def sets(lines):
    """{pair: array of values}, zero where a block does not have the pair."""
    b = blocks(lines)
    keys = sorted(set().union(*b))
    return {k: np.array([x.get(k, 0j) for x in b]) for k in keys}


def text(model, header=("General poloidal plus toroidal field", "%d 3 -3"), newline="\n", gap=True, shuffle=None):
    """A ZDI-style file with one block per value."""
    keys = sorted(model)
    n = len(next(iter(model.values())))
    out = [h % len(keys) if "%" in h else h for h in header]
    for j in range(n):
        ks = keys if shuffle is None else [keys[i] for i in shuffle.permutation(len(keys))]
        for k in ks:
            v = model[k][j]
            out.append("%2d %2d %.9e %.9e" % (k[0], k[1], v.real, v.imag))
        if gap:
            out.append("")
    return newline.join(out) + newline


def digits7(v):
    """Largest error of a number printed with seven significant digits."""
    a = np.abs(v)
    with np.errstate(divide="ignore"):
        e = np.where(a > 0, 10.0 ** (np.floor(np.log10(np.where(a > 0, a, 1))) - 6), 0)
    return 0.5000001 * e + 1e-14 * a
