"""A06: integral operators: interpolatory (IIForm) and projected (IPForm) bilinear forms with kernels of two points."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from vmon.props.a02 import make_mesh, gauss
from assembler import Assembler, Form, IIForm, IPForm, Kernel
from function import Explicit, Nodal, Constant

RULE = ('A case is one assembler with one or two problems holding interpolatory and projected integral operators (symmetric or not, sampled or not, over '
        'all or marked cells and edges, test and trial functions from equal or different spaces, possibly with an ordinary form added); matrices are '
        'compared with independent (double) sums. Distinct by forms, kernels, mesh and submesh.')
REQUIRED = {'interpolatory': 150, 'projected': 150, 'mixed': 100, 'symmetric': 40}
ASSUMPTIONS = ['nodal kernels are evaluated at points inside the cells of their submesh']


def cases(tier):
    k = 1 if tier == 'quick' else 16
    return [{'kind': d} for d in ('quad', 'quad', 'periodic', '1d', '1dper') for _ in range(34 * k)]


class Ker2(object):
    def __init__(self, rng, dim, m, sym, nodal=None):
        n = int(rng.integers(1, 3))
        fs, vals, text = [], [], []
        for i in range(n):
            mi = m if i == 0 else (m if rng.uniform() < 0.5 else 1)
            u = rng.uniform()
            if nodal is not None and u < 0.4 and len(nodal.dofs) <= 80:
                N = len(nodal.dofs)
                D = rng.normal(size=(N, N, mi))
                if sym:
                    D = D + D.transpose(1, 0, 2)
                fs.append(Nodal(data=D.copy(), basis=nodal.basis, dim=dim, n_variables=2, symmetric=sym))
                vals.append(lambda c, x, d, y, D=D: self.nodal(nodal, c, x, d, y, D))
                text.append('nodal')
            else:
                co = rng.normal(size=(mi, 2 * dim + 1))
                if sym:
                    gs = [lambda x, y, a=a: np.exp(-np.sum((x - y) ** 2, axis=1) * abs(a[0])) + a[1] * np.sin(x @ a[1:1 + dim]) * np.sin(y @ a[1:1 + dim]) for a in co]
                else:
                    gs = [lambda x, y, a=a: np.sin(x @ a[:dim] + 2 * (y @ a[dim:2 * dim])) + a[-1] * y[:, 0] for a in co]
                fs.append(Explicit(gs if mi > 1 or rng.uniform() < 0.3 else gs[0], dim=dim, n_variables=2, symmetric=sym))
                vals.append(lambda c, x, d, y, gs=gs: np.column_stack([g(x, y) for g in gs]))
                text.append('explicit')
        self.m, self.vals, self.sym = m, vals, sym
        if n == 1:
            w = int(rng.integers(0, 3))
            self.F = [lambda a: a, lambda a: a ** 2 - 1, lambda a: np.cos(a)][w]
            self.kernel = fs[0] if w == 0 and rng.uniform() < 0.5 else Kernel(fs if rng.uniform() < 0.5 else fs[0], F=None if w == 0 else self.F)
        else:
            self.F = lambda a, b: a * b - 0.5 * b
            self.kernel = Kernel(fs, F=self.F)
        self.text = '%s m=%d sym=%s' % (text, m, sym)

    def nodal(self, sp, cells, x, dells, y, D):
        out = np.zeros((len(x), D.shape[2]))
        for i in range(len(x)):
            p, a = sp.at(cells[i], x[i:i + 1], ())
            q, b = sp.at(dells[i], y[i:i + 1], ())
            out[i] = np.einsum('i,j,ijs->s', p[0], q[0], D[np.ix_(a, b)])
        return out

    def __call__(self, c, x, d, y):
        """Values at point pairs (x_i, y_i), cells c_i and d_i (assembler cells) given."""
        v = [f(c, x, d, y) for f in self.vals]
        v = [np.tile(a, (1, self.m)) if a.shape[1] < self.m else a for a in v]
        return self.F(*v)


def pairs(n, k):
    i, j = np.meshgrid(np.arange(n), np.arange(k), indexing='ij')
    return i.ravel(), j.ravel()


def run(case, ctx):
    rng = ctx.rng
    mesh, wrap, info, flags = make_mesh(rng, case['kind'], maxcells=6)
    dim = mesh.dim()
    while True:
        asm = flags[int(rng.integers(0, len(flags)))]
        cells = F.leaves(mesh, asm)
        if len(cells) <= 16:
            break
        mesh, wrap, info, flags = make_mesh(rng, case['kind'], maxcells=4)
    for c in cells:
        if rng.uniform() < 0.4:
            c.mark('cc')
        if dim == 2:
            for he in c.get_half_edges():
                if rng.uniform() < 0.2:
                    he.mark('ee')
    big = len(cells) > 8
    nmax = 2 if big else 3
    ng = (R.GAUSS1[int(rng.integers(0, nmax))], R.GAUSS2[int(rng.integers(0, nmax))])
    names = ['Q1', 'DQ0', 'DQ1', 'Q2'] if not big else ['Q1', 'DQ0']
    own = rng.uniform() < 0.6
    what = '%s sub=%s gauss %s' % (info, asm, ng)
    problems, texts, known = [], [], []
    for _ in range(int(rng.integers(1, 3))):
        pick = lambda: R.spaces_for(rng, mesh, flags, asm, 1, only=[asm] if own else None, names=names, known=known)[0]
        t0 = pick()
        r0 = t0 if rng.uniform() < 0.6 else pick()
        m = int(rng.integers(1, 4)) if rng.uniform() < 0.5 else 1
        specs = []
        allsym = rng.uniform() < 0.3
        for _ in range(int(rng.integers(1, 3))):
            kind = 'ip' if allsym else ['ii', 'ip'][int(rng.integers(0, 2))]
            # interpolation in the nodes of the test space; projected forms may take derivatives
            test = R.rnd_space(rng, t0, dim, 1 if kind == 'ip' else 0)
            trial = R.rnd_space(rng, r0, dim, 1)
            if r0 is t0 and (allsym or rng.uniform() < 0.5):
                trial = test
            mi = m if not specs or rng.uniform() < 0.6 else 1
            sym = allsym or bool(rng.uniform() < 0.5)
            dmu, fl = [('dx', None), ('dx', None), ('dx', 'cc')][int(rng.integers(0, 3))] if dim == 1 or rng.uniform() < 0.8 else ('ds', 'ee')
            nodal = None
            if dmu == 'dx' and (kind == 'ip' or t0[1] == 'DQ0'):
                if kind == 'ip' and rng.uniform() < 0.5:
                    nodal = R.Space(*pick())
                elif kind == 'ii' and t0[2] == asm:
                    nodal = R.Space(*t0)
            ker = Ker2(rng, dim, mi, sym, nodal)
            cls = IIForm if kind == 'ii' else IPForm
            form = cls(ker.kernel, test=test.basis, trial=trial.basis, dmu=dmu, flag=fl)
            specs.append((kind, form, ker, test, trial, dmu, fl))
        extra = []
        if not allsym and rng.uniform() < 0.3:
            extra = [R.Spec(R.Ker(rng, dim, 1, None, False, ('explicit', 'constant')), R.Space(*t0), R.Space(*r0))]
        problems.append((specs, extra, t0, r0))
        texts.append(' + '.join('%s %s %s(%s) test %s/%s/%s trial %s/%s/%s%s' % (
            k, ker.text, dmu, fl, a.et, a.der, a.flag, b.et, b.der, b.flag, ' same' if a is b else '') for k, f, ker, a, b, dmu, fl in specs) + ('+form' if extra else ''))
    arg = [[s[1] for s in specs] + [e.form for e in extra] for specs, extra, _, _ in problems]
    A = Assembler(arg, mesh, subforest_flag=asm, n_gauss=ng)
    A.assemble()
    for ip, (specs, extra, t0, r0) in enumerate(problems):
        M = max(s[2].m for s in specs)
        T0, R0 = R.Space(*t0), R.Space(*r0)
        want = np.zeros((len(T0.dofs), len(R0.dofs), M))
        S = 0.0
        for kind, form, ker, test, trial, dmu, fl in specs:
            rules = [(c, R.quad(c, reg, *ng)) for c in cells for reg in R.regions(c, dmu, fl)]
            if kind == 'ii':
                P = np.asarray(test.dh.get_dof_vertices(list(test.dofs)), dtype=float).reshape(-1, dim)
                own_cell = {}
                for c in cells:
                    for d in test.at(c, np.array([G.cell_xy(c).mean(axis=0)]) if dim == 2 else np.array([R.centre(c)]))[1]:
                        own_cell[d] = c
                own_cells = [own_cell[i] for i in range(len(P))]
                for c, (y, w) in rules:
                    i, j = pairs(len(P), len(y))
                    k = ker([own_cells[a] for a in i], P[i], [c] * len(j), y[j]).reshape(len(P), len(y), ker.m)
                    q, b = trial.at(c, y)
                    v = np.einsum('igs,g,gj->ijs', k, w, q)
                    S = max(S, np.abs(v).max() if v.size else 0)
                    for loc, gl in enumerate(b):
                        np.add.at(want, (slice(None), gl), v[:, loc, :])
            else:
                for c, (x, w) in rules:
                    p, a = test.at(c, x)
                    for d, (y, u) in rules:
                        i, j = pairs(len(x), len(y))
                        k = ker([c] * len(i), x[i], [d] * len(j), y[j]).reshape(len(x), len(y), ker.m)
                        q, b = trial.at(d, y)
                        v = np.einsum('gi,g,ghs,h,hj->ijs', p, w, k, u, q, optimize=True)
                        S = max(S, np.abs(v).max() if v.size else 0)
                        np.add.at(want, np.ix_(a, b), v)
        for e in extra:
            v, s = R.assemble([e], cells, 1, ng)
            want += v
            S = max(S, s)
        der = any(len(R.ORD[z.der]) for s in specs for z in s[3:5])
        mon = 'mixed' if len(specs) + len(extra) > 1 else {'ii': 'interpolatory', 'ip': 'projected'}[specs[0][0]]
        for s in range(M):
            got = A.get_matrix(ip, s).toarray()
            for mo in {mon} | {{'ii': 'interpolatory', 'ip': 'projected'}[q[0]] for q in specs}:
                ctx.close(mo, got, want[:, :, s], (1e-5 if der else 2e-7) * max(1, len(cells)) ** 0.5, 'problem %d sample %d %s %s' % (ip, s, texts[ip], what),
                          scale=max(S, 1e-3))
            if all(k == 'ip' and ker.sym and te is tr for k, _, ker, te, tr, _, _ in specs) and not extra:
                ctx.close('symmetric', got, got.T, 1e-9, 'symmetry %s %s' % (texts[ip], what), scale=max(S, 1e-3))
        ctx.ok('mixed', A.assembled_forms(ip)[2].n_samples() == M, 'samples ' + what)
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), texts)
    ctx.note(what + ' ' + texts[0])
