"""Reading back what matplotlib figures show. Nothing here draws."""
import re

import matplotlib
matplotlib.use("Agg")
import numpy as np
from matplotlib.collections import LineCollection, QuadMesh
from matplotlib.contour import ContourSet
from matplotlib.figure import Figure

NUMBER = re.compile(r"([-+]?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)(?:\s*\\times\s*10\^\{?([-+]?\d+)\}?)?")


def number(text):
    """The last number in a text, which may be in LaTeX scientific notation."""
    found = NUMBER.findall(text.replace("\u2212", "-"))
    base, exp = found[-1]
    return float(base) * 10.0 ** int(exp or 0)


def coarse(ctx, name, shown, want, digits=3, **info):
    """A number shown with a few significant digits."""
    ctx.close(name, float(shown), float(want), rtol=.501 * 10.0 ** (1 - digits) * 1.0001, scale=abs(float(want)), **info)


def mesh(ax):
    """The only pseudocolour mesh of an axes: (artist, cell boxes (n, 4): x0, x1, y0, y1, values), in order of the boxes."""
    found = [c for c in ax.collections if isinstance(c, QuadMesh)]
    assert len(found) == 1, "%d meshes in one axes" % len(found)
    q = found[0]
    xy = np.asarray(q.get_coordinates())
    v = np.ma.filled(np.ma.asarray(q.get_array(), dtype=float), np.nan).reshape(xy.shape[0] - 1, xy.shape[1] - 1)
    quad = np.stack([xy[:-1, :-1], xy[:-1, 1:], xy[1:, :-1], xy[1:, 1:]], -2)   # corners of the cells
    lo, hi = quad.min(-2).reshape(-1, 2), quad.max(-2).reshape(-1, 2)
    boxes = np.stack([lo[:, 0], hi[:, 0], lo[:, 1], hi[:, 1]], -1)
    i = order(boxes)
    return q, boxes[i], v.reshape(-1)[i]


def order(boxes):
    # Rounded, so that the order does not depend on the last digits.
    c = np.round(np.asarray(boxes), 7)
    return np.lexsort((c[:, 2] + c[:, 3], c[:, 0] + c[:, 1]))


def expected_cells(x_edges, y_edges, values):
    """values[i, j] belongs to the cell between x_edges[i], x_edges[i+1] and y_edges[j], y_edges[j+1]."""
    nx, ny = len(x_edges) - 1, len(y_edges) - 1
    X0, Y0 = np.meshgrid(x_edges[:-1], y_edges[:-1], indexing="ij")
    X1, Y1 = np.meshgrid(x_edges[1:], y_edges[1:], indexing="ij")
    b = np.stack([x.reshape(-1) for x in (X0, X1, Y0, Y1)], -1)
    i = order(b)
    return b[i], np.asarray(values).reshape(nx * ny)[i]


def points_labelled(ax, start):
    """Single markers whose label starts with the given word: [(x, y, label)]."""
    out = []
    for l in ax.lines:
        lab = str(l.get_label())
        if lab.lower().startswith(start.lower()):
            x, y = np.atleast_1d(l.get_xdata()), np.atleast_1d(l.get_ydata())
            out.append((np.asarray(x, float), np.asarray(y, float), lab))
    return out


def markers(ax):
    """Values (vertical positions) of all single markers in an axes, sorted."""
    return sorted(float(np.atleast_1d(l.get_ydata())[0]) for l in ax.lines
                  if np.size(l.get_ydata()) == 1 and l.get_marker() not in ("None", None, "", " "))


def marker_symbols(ax):
    """[(symbol, value)] of all single markers in an axes."""
    return [(str(l.get_marker()), float(np.atleast_1d(l.get_ydata())[0])) for l in ax.lines
            if np.size(l.get_ydata()) == 1 and l.get_marker() not in ("None", None, "", " ")]


def contour_lines(ax):
    """[(level, vertices (n, 2), dashed?)] of all contour lines in an axes."""
    out = []
    for c in ax.collections:
        if not isinstance(c, ContourSet):
            continue
        styles = list(c.get_linestyle())
        for i, (level, path) in enumerate(zip(c.levels, c.get_paths())):
            if len(path.vertices):
                style = styles[i % len(styles)] if styles else (0, None)
                out.append((float(level), np.asarray(path.vertices), style[1] is not None))
    return out


def interpolate(x, y, values, points):
    """Bilinear interpolation of values[ix, iy]."""
    px, py = points[:, 0], points[:, 1]
    i = np.clip(np.searchsorted(x, px) - 1, 0, len(x) - 2)
    j = np.clip(np.searchsorted(y, py) - 1, 0, len(y) - 2)
    u, v = (px - x[i]) / (x[i + 1] - x[i]), (py - y[j]) / (y[j + 1] - y[j])
    return (1 - u) * (1 - v) * values[i, j] + u * (1 - v) * values[i + 1, j] + (1 - u) * v * values[i, j + 1] + u * v * values[i + 1, j + 1]


def texts(ax):
    return [t.get_text() for t in ax.texts]


class Saved:
    """Records the figures that are saved or shown, while active."""

    def __enter__(self):
        self.figures = []
        self.old = Figure.savefig
        rec = self

        def savefig(fig, *a, **k):
            rec.figures.append((fig, a, k))
            return rec.old(fig, *a, **k)
        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        Figure.savefig = self.old
        return False
