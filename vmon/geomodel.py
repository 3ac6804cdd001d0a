"""Independent model of a submesh of quad cells: leaf addresses + corner coordinates of the roots."""
import numpy as np
from vmon import gens as G

REF = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])


class GeoModel(object):
    def __init__(self, mesh, flag=None, box=None, per=()):
        self.roots = [G.cell_xy(mesh.cells.get_child(i)) for i in range(mesh.cells.n_children())]
        self.leaves = {G.address(c) for c in mesh.cells.get_leaves(subforest_flag=flag)}
        self.box, self.per = box, per
        self._xy = {}

    def xy(self, a):
        if a not in self._xy:
            if len(a) == 1:
                self._xy[a] = self.roots[a[0]]
            else:
                p = self.xy(a[:-1])
                self._xy[a] = G.bilinear(p, 0.5 * REF + 0.5 * REF[a[-1]])
        return self._xy[a]

    def wrap(self, p):
        p = np.array(p, dtype=float)
        for d in self.per:
            lo, hi = self.box[2 * d], self.box[2 * d + 1]
            if p[d] < lo:
                p[d] += hi - lo
            elif p[d] > hi:
                p[d] -= hi - lo
        return p

    def locate(self, p):
        """Leaf whose interior contains p, or None."""
        p = self.wrap(p)
        for i, r in enumerate(self.roots):
            if G.in_quad(r, p)[0] > 0:
                a = (i,)
                while a not in self.leaves:
                    for j in range(4):
                        if G.in_quad(self.xy(a + (j,)), p)[0] > -1e-14:
                            a = a + (j,)
                            break
                    else:
                        return None
                    if len(a) > 14:
                        return None
                return a
        return None

    def across(self, a, i):
        """Leaf on the other side of the midpoint of edge i of leaf a."""
        xy = self.xy(a)
        p, q = xy[i], xy[(i + 1) % 4]
        d = q - p
        n = np.array([d[1], -d[0]])
        return self.locate(0.5 * (p + q) + 1e-4 * n)

    def unbalanced(self):
        """Leaves that are two or more levels coarser than a leaf across an edge."""
        bad = set()
        for a in self.leaves:
            for i in range(4):
                b = self.across(a, i)
                if b is not None and len(b) < len(a) - 1:
                    bad.add(b)
        return bad

    def closure(self):
        n = 0
        while True:
            bad = self.unbalanced()
            if not bad:
                return n
            for b in bad:
                self.leaves.discard(b)
                for j in range(4):
                    self.leaves.add(b + (j,))
                n += 1
