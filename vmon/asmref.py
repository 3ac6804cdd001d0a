"""Independent assembly of (bi)linear and constant forms by direct summation over cells, edges and vertices."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from fem import QuadFE, DofHandler, Basis
from function import Explicit, Constant, Nodal
from assembler import Kernel, Form, Assembler

ORD = {'u': (), 'ux': (0,), 'uy': (1,), 'uxx': (0, 0), 'uxy': (0, 1), 'uyx': (1, 0), 'uyy': (1, 1)}


def ancestor(cell, flag):
    c = cell
    while c is not None and not (flag is None or c.is_marked(flag)):
        c = c.get_parent()
    return c


def ref_of(cell, x):
    if x.shape[1] == 1:
        a, b = cell.base().coordinates()[0], cell.head().coordinates()[0]
        return (x - a) / (b - a)
    return G.bilinear_inv(G.cell_xy(cell), x, it=12)


class Space(object):
    """A basis together with what is needed to evaluate it independently."""

    def __init__(self, dh, et, flag, der='u'):
        self.dh, self.et, self.deg, self.flag, self.der = dh, et, int(et[-1]), flag, der
        self.basis = Basis(dh, der, flag)
        self.dofs = [int(d) for d in self.basis.dofs()]
        self.pos = {d: i for i, d in enumerate(self.dofs)}

    def at(self, cell, x, order=None):
        """(values at physical points, positions in the basis) of the functions living on the cell."""
        e = ancestor(cell, self.flag)
        phi = F.shape_values(e, self.deg, ref_of(e, x), ORD[self.der] if order is None else order)
        return phi, [self.pos[int(d)] for d in self.dh.get_cell_dofs(e)]


class Fn(object):
    """A function and its independent evaluation."""

    def __init__(self, map_, val, text, m, symmetric=False):
        self.map, self.val, self.text, self.m = map_, val, text, m


def rnd_fn(rng, dim, m, spaces=None, names=('explicit', 'constant', 'nodal')):
    k = names[int(rng.integers(0, len(names)))]
    if k == 'nodal' and not spaces:
        k = 'explicit'
    if k == 'constant':
        c = rng.normal(size=m)
        f = Constant(c.copy() if m > 1 or rng.uniform() < 0.5 else float(c[0]))
        return Fn(f, lambda cell, x, o: np.tile(c, (len(x), 1)), 'constant', m)
    if k == 'explicit':
        co = rng.normal(size=(m, dim + 1))
        fs = [lambda x, c=c: np.sin(x @ c[:-1]) + c[-1] for c in co]
        f = Explicit(fs if m > 1 or rng.uniform() < 0.3 else fs[0], dim=dim)
        return Fn(f, lambda cell, x, o: np.column_stack([g(x) for g in fs]), 'explicit', m)
    sp = spaces[int(rng.integers(0, len(spaces)))]
    data = rng.normal(size=(len(sp.dofs), m))
    f = Nodal(data=data.copy(), basis=sp.basis)

    def val(cell, x, o):
        phi, idx = sp.at(cell, x, o)
        return phi @ data[idx]
    return Fn(f, val, 'nodal %s on %s' % (sp.et, sp.flag), m)


class Ker(object):
    """A kernel and its independent evaluation: value(region kind, cell, x) -> (points, samples)."""

    def __init__(self, rng, dim, m, spaces=None, derivatives=True, names=('explicit', 'constant', 'nodal')):
        n = int(rng.integers(1, 4))
        ms = [m if rng.uniform() < 0.6 else 1 for _ in range(n)]
        if m > 1 and max(ms) == 1:
            ms[int(rng.integers(0, n))] = m
        self.fns = [rnd_fn(rng, dim, k, spaces, names) for k in ms]
        self.m = m
        ders = [k for k in ORD if (dim == 2 or 'y' not in k)]
        self.ords = [()] * n
        arg = None
        if derivatives and rng.uniform() < 0.5:
            nm = [ders[int(rng.integers(0, len(ders)))] if f.text.startswith('nodal') else 'u' for f in self.fns]
            self.ords = [ORD[k] for k in nm]
            arg = [k if rng.uniform() < 0.5 else ((len(ORD[k]),) + ORD[k] if ORD[k] else (0,)) for k in nm]
            if rng.uniform() < 0.2 and len(set(nm)) == 1:
                arg = arg[0]
        self.text = '%s der %s' % ([f.text for f in self.fns], arg)
        maps = [f.map for f in self.fns]
        if n == 1:
            w = int(rng.integers(0, 4))
            if w == 0:
                self.F, FF = (lambda a, mid: a), None
            elif w == 1:
                self.F = lambda a, mid: a ** 2 + 1
                FF = lambda a: a ** 2 + 1
            elif w == 2:
                # uses the cell it is evaluated on
                self.F = lambda a, mid: a * (1 + mid[0])
                FF = lambda a, cell: a * (1 + centre(cell)[0])
            else:
                self.F = lambda a, mid: np.exp(0.3 * np.sin(a))
                FF = lambda f: np.exp(0.3 * np.sin(f))
            self.text += ' F%d' % w
            if FF is None and arg is None and rng.uniform() < 0.5:
                self.kernel = maps[0]
            else:
                self.kernel = Kernel(maps[0] if rng.uniform() < 0.5 else maps, derivatives=arg, F=FF)
        elif n == 2:
            self.F = lambda a, b, mid: a * b - 0.5 * a
            self.kernel = Kernel(maps, derivatives=arg, F=lambda a, b: a * b - 0.5 * a)
        else:
            self.F = lambda a, b, c, mid: a * (b + 1) - c ** 2 * mid[-1]
            self.kernel = Kernel(maps, derivatives=arg, F=lambda a, b, c, cell: a * (b + 1) - c ** 2 * centre(cell)[-1])
        if rng.uniform() < 0.2:
            # the caller goes on using the lists
            maps.reverse()
            if isinstance(arg, list):
                arg[0] = 'u'

    def value(self, cell, x):
        vals = []
        for f, o in zip(self.fns, self.ords):
            v = f.val(cell, x, o)
            vals.append(np.tile(v, (1, self.m)) if self.m > 1 and v.shape[1] == 1 else v)
        return self.F(*vals, centre(cell))


def centre(cell):
    if hasattr(cell, 'base'):
        return [0.5 * (cell.base().coordinates()[0] + cell.head().coordinates()[0])]
    return list(G.cell_xy(cell).mean(axis=0))


def regions(cell, dmu, flag):
    """[(object, points function)]: integration regions of a cell."""
    if dmu == 'dx':
        return [('c', None)] if flag is None or cell.is_marked(flag) else []
    if dmu == 'ds':
        return [('e', i) for i in range(4) if flag is None or cell.get_half_edge(i).is_marked(flag)]
    n = 2 if hasattr(cell, 'base') else 4
    v = [cell.base(), cell.head()] if n == 2 else [cell.get_half_edge(i).base() for i in range(4)]
    return [('v', i) for i in range(n) if flag is None or v[i].is_marked(flag)]


def quad(cell, reg, n1, n2):
    """Quadrature points and weights on a region."""
    kind, i = reg
    t, w = np.polynomial.legendre.leggauss(n1)
    t, w = (t + 1) / 2, w / 2
    if hasattr(cell, 'base'):
        a, b = cell.base().coordinates()[0], cell.head().coordinates()[0]
        if kind == 'v':
            return np.array([[a if i == 0 else b]]), np.ones(1)
        return (a + (b - a) * t)[:, None], w * (b - a)
    xy = G.cell_xy(cell)
    if kind == 'c':
        t, w = np.polynomial.legendre.leggauss(int(round(np.sqrt(n2))))
        t, w = (t + 1) / 2, w / 2
        r = np.array([(a, b) for a in t for b in t])
        ww = np.array([a * b for a in w for b in w])
        return G.bilinear(xy, r), ww * np.linalg.det(G.bilinear_jac(xy, r))
    if kind == 'e':
        p, q = xy[i], xy[(i + 1) % 4]
        return p + t[:, None] * (q - p), w * np.linalg.norm(q - p)
    return xy[i][None, :], np.ones(1)


class Spec(object):
    """One form: kernel, test and trial spaces, measure, region mark."""

    def __init__(self, ker, test=None, trial=None, dmu='dx', flag=None):
        self.ker, self.test, self.trial, self.dmu, self.flag = ker, test, trial, dmu, flag
        self.form = Form(ker.kernel, trial=trial.basis if trial else None, test=test.basis if test else None, dmu=dmu, flag=flag)
        self.dim = 0 if test is None else 1 if trial is None else 2
        self.text = '%s(%s%s) %s%s kernel %s' % (
            'constant linear bilinear'.split()[self.dim],
            '' if test is None else '%s/%s/%s' % (test.et, test.der, test.flag),
            '' if trial is None else ', %s/%s/%s' % (trial.et, trial.der, trial.flag),
            dmu, '' if flag is None else '(%s)' % flag, ker.text)


def assemble(specs, cells, m, n_gauss):
    """Sum of forms of equal dimension: (array (..., m), scale of the summands)."""
    d = specs[0].dim
    shape = (m,) if d == 0 else (len(specs[0].test.dofs), m) if d == 1 else (len(specs[0].test.dofs), len(specs[0].trial.dofs), m)
    A = np.zeros(shape)
    S = 0.0
    for c in cells:
        for sp in specs:
            for reg in regions(c, sp.dmu, sp.flag):
                x, w = quad(c, reg, *n_gauss)
                k = sp.ker.value(c, x) * w[:, None]
                if k.shape[1] == 1 and m > 1:
                    k = np.tile(k, (1, m))
                if d == 0:
                    v = k.sum(axis=0)
                    A += v
                elif d == 1:
                    p, i = sp.test.at(c, x)
                    v = np.einsum('pa,ps->as', p, k)
                    np.add.at(A, (i,), v)
                else:
                    p, i = sp.test.at(c, x)
                    q, j = sp.trial.at(c, x)
                    v = np.einsum('pa,pb,ps->abs', p, q, k)
                    np.add.at(A, np.ix_(i, j), v)
                S = max(S, float(np.abs(v).max()) if v.size else 0.0)
    return A, S


def spaces_for(rng, mesh, flags, asm_flag, n=2, names=None, only=None, known=None):
    """Spaces (dofhandler, element, submesh) whose submesh is not finer than the assembler's."""
    order = [f for f in ('s', 't', None) if f in flags]
    coarse = order[:order.index(asm_flag) + 1] if only is None else list(only)
    out = []
    known = [] if known is None else known
    for _ in range(n):
        el, et, nd = F.element(rng, mesh.dim(), names)
        dh = DofHandler(mesh, el)
        flag = coarse[int(rng.integers(0, len(coarse)))]
        shared = [d for d in known if d[1] in (names or [d[1]]) and mesh is d[0].mesh]
        if shared and rng.uniform() < 0.4:
            # a dofhandler in use already, perhaps on another submesh
            dh, et = shared[int(rng.integers(0, len(shared)))]
            dh.distribute_dofs(subforest_flag=flag)
        else:
            dh.distribute_dofs(subforest_flag=flag if rng.uniform() < 0.3 else None)
            known.append((dh, et))
        out.append((dh, et, flag))
    return out


def rnd_space(rng, sp, dim, maxorder=2):
    ders = [k for k in ORD if (dim == 2 or 'y' not in k) and len(k) - 1 <= maxorder]
    der = 'u' if rng.uniform() < 0.5 else ders[int(rng.integers(0, len(ders)))]
    return Space(sp[0], sp[1], sp[2], der)


GAUSS1 = [1, 2, 3, 4, 5, 6]
GAUSS2 = [1, 4, 9, 16, 25, 36]


def compare(ctx, monitor, A, i_problem, specs, cells, m, n_gauss, what, tol=2e-7, pick=None):
    """All arrays of one problem against the independent sums."""
    for d in (0, 1, 2):
        sp = [s for s in specs if s.dim == d]
        if not sp:
            continue
        md = max([s.ker.m for s in sp])
        want, S = assemble(sp, cells, md, n_gauss)
        o2 = max([len(ORD[x.der]) for s in sp for x in (s.test, s.trial) if x is not None] + [len(o) for s in sp for o in s.ker.ords])
        t = tol * (1, 5, 50)[o2] * max(1, len(cells)) ** 0.5
        sc = max(S, 1e-3)
        for j in range(md):
            if d == 0:
                got = A.get_scalar(i_problem, j)
                ctx.close(monitor, np.reshape(got, ()), want[j], t, 'scalar sample %d %s' % (j, what), scale=sc)
            elif d == 1:
                ctx.close(monitor, A.get_vector(i_problem, j), want[:, j], t, 'vector sample %d %s' % (j, what), scale=sc)
            else:
                got = A.get_matrix(i_problem, j)
                ctx.close(monitor, got.toarray(), want[:, :, j], t, 'matrix sample %d %s' % (j, what), scale=sc)
