"""Independent topology/geometry oracles for 2D and 1D meshes (built from cells' corner vertices only)."""
import numpy as np
from vmon import gens as G


def all_cells(mesh):
    out = []

    def walk(c):
        out.append(c)
        for i in range(c.n_children()):
            k = c.get_child(i)
            if k is not None:
                walk(k)
    for i in range(mesh.cells.n_children()):
        walk(mesh.cells.get_child(i))
    return out


def quant(v):
    """Bin of a coordinate; the irrational shift keeps dyadic and decimal values off the bin borders."""
    return int(np.floor((float(v) + 0.12345678910111213) * 1.0e6 / 1.0437219))


class Wrap(object):
    """Identification of points of a periodic box; identity for ordinary meshes."""

    def __init__(self, box=None, per=()):
        self.box, self.per = box, set(per)

    def key(self, p):
        p = [float(v) for v in np.atleast_1d(p)]
        for d in self.per:
            lo, hi = self.box[2 * d], self.box[2 * d + 1]
            if abs(p[d] - hi) < 1e-9 * (1 + abs(hi)):
                p[d] = lo
        return tuple(quant(v) for v in p)


def _edge(wrap, c, i):
    xy = G.cell_xy(c)
    a, b = xy[i], xy[(i + 1) % len(xy)]
    return wrap.key(0.5 * (a + b)), b - a


def _dirkey(d):
    return tuple(quant(v) for v in d)


def edge_table(cells, wrap):
    """(midpoint, direction vector) -> cells, over every cell of the forest (all levels)."""
    tab = {}
    for c in cells:
        for i in range(len(c.get_vertices())):
            m, d = _edge(wrap, c, i)
            tab.setdefault((m, _dirkey(d)), []).append(c)
    return tab


def across(tab, wrap, c, i):
    """Cells of the forest on the other side of the whole edge i of cell c."""
    m, d = _edge(wrap, c, i)
    return tab.get((m, _dirkey(-d)), [])


def around(tab, wrap, c, key):
    """All cells reachable from c through whole edges that end in the corner `key`."""
    seen = [c]
    todo = [c]
    while todo:
        d = todo.pop()
        ks = [wrap.key(v.coordinates()) for v in d.get_vertices()]
        for i in range(len(ks)):
            if key in (ks[i], ks[(i + 1) % len(ks)]):
                for e in across(tab, wrap, d, i):
                    if not any(e is s for s in seen):
                        seen.append(e)
                        todo.append(e)
    return seen[1:]


def fan(tab, wrap, c, i):
    """The cells around corner i of c (across whole edges) in counter-clockwise order, starting after c."""
    def walk(sense):
        out, d, k = [], c, i
        while True:
            n = len(d.get_vertices())
            e = (k - 1) % n if sense > 0 else k
            m, t = _edge(wrap, d, e)
            nb = across(tab, wrap, d, e)
            if len(nb) != 1 or nb[0] is c:
                return out, len(nb) == 1
            nb = nb[0]
            for j in range(len(nb.get_vertices())):
                mj, tj = _edge(wrap, nb, j)
                if mj == m and _dirkey(tj) == _dirkey(-t):
                    k = j if sense > 0 else (j + 1) % len(nb.get_vertices())
                    break
            d = nb
            out.append(nb)
    ccw, closed = walk(1)
    if closed:
        return ccw
    return ccw + walk(-1)[0][::-1]
