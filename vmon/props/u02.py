"""U02: nodal functions evaluate to the piecewise polynomial their data stand for, at any point, cell and sample."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from fem import DofHandler, Basis, QuadFE
from function import Nodal
from mesh import Vertex

RULE = ('A case is one nodal function (element, submesh, 1-4 samples, 1 or 2 variables, random data edited by a random history of '
        'set/modify/add operations) on one balanced mesh, evaluated with derivatives at interior points, on edges and at vertices; '
        'values are compared with an independent Lagrange basis on the finest cells of its submesh. '
        'Distinct by element, mesh, submesh, derivative and number of samples.')
REQUIRED = {'data': 400, 'eval': 1500, 'eval-boundary': 300, 'eval-cell': 600, 'eval-phi': 300, 'bivariate': 200, 'at-nodes': 300, 'later': 300}


def cases(tier):
    k = 1 if tier == 'quick' else 16
    return [{'kind': d} for d in ('quad', 'quad', 'periodic', '1d', '1dper') for _ in range(120 * k)]


ORD = {'u': (), 'ux': (0,), 'uy': (1,), 'uxx': (0, 0), 'uxy': (0, 1), 'uyx': (1, 0), 'uyy': (1, 1)}


def ref_of(cell, x):
    if x.shape[1] == 1:
        a, b = cell.base().coordinates()[0], cell.head().coordinates()[0]
        return (x - a) / (b - a)
    return np.array([np.ravel(G.bilinear_inv(G.cell_xy(cell), p)) for p in x])


def inside(cell, x):
    if x.shape[1] == 1:
        s = ref_of(cell, x)
        return bool(np.all(s > -1e-9) and np.all(s < 1 + 1e-9))
    v = G.cell_xy(cell)
    d = np.roll(v, -1, axis=0) - v
    w = x[0] - v
    return bool(np.all((d[:, 0] * w[:, 1] - d[:, 1] * w[:, 0]) / np.hypot(d[:, 0], d[:, 1]) > -1e-9))


def point_in(rng, cell, dim, where='interior'):
    if where == 'interior':
        r = rng.uniform(0.03, 0.97, (1, dim))
    elif where == 'vertex' or dim == 1:
        r = rng.integers(0, 2, (1, dim)).astype(float)
    else:
        r = rng.choice([0.25, 0.5, 0.3, 0.8], (1, dim))
        r[0, int(rng.integers(0, 2))] = float(rng.integers(0, 2))
    return F.cell_nodes(cell, r)[0]


def der_arg(rng, name):
    o = ORD[name]
    t = (len(o),) + o if o else (0,)
    return t if rng.uniform() < 0.6 else name


def run(case, ctx):
    rng = ctx.rng
    while True:
        mesh, wrap, info, flags = F.fem_mesh(rng, case['kind'])
        if True:
            break
    dim = mesh.dim()
    el, et, nd = F.element(rng, dim)
    deg = int(et[-1])
    dh = DofHandler(mesh, el)
    dist = flags[int(rng.integers(0, len(flags)))]
    dh.distribute_dofs(subforest_flag=dist)
    flag = dist if dist is not None else flags[int(rng.integers(0, len(flags)))]
    basis = Basis(dh, 'u', flag)
    dofs = [int(d) for d in basis.dofs()]
    n = len(dofs)
    lv = F.leaves(mesh, flag)
    what = '%s %s sub=%s' % (et, info, flag)
    names = [k for k in ORD if dim == 2 or 'y' not in k]
    cell_dofs = {c: list(dh.get_cell_dofs(c)) for c in lv}
    pos = {d: i for i, d in enumerate(dofs)}
    idx = {c: [pos[d] for d in cell_dofs[c]] for c in lv}

    # ---- construction and history of the data
    m = int(rng.integers(1, 4))
    if rng.uniform() < 0.3 and not et.startswith('D') and not case['kind'].endswith('per') and case['kind'] != 'periodic':
        co = rng.normal(size=(m, dim + 1))
        fs = [lambda x, c=c: np.sin(x @ c[:-1]) + c[-1] for c in co]
        f = Nodal(f=fs if m > 1 else fs[0], basis=basis, dim=dim)
        data = np.zeros((n, m))
        for c in lv:
            p = F.cell_nodes(c, nd)
            for j, g in enumerate(fs):
                data[idx[c], j] = g(p)
        ctx.close('data', f.data(), data, 1e-12, 'nodal values from rules ' + what)
    else:
        data = rng.normal(size=(n, m))
        if m == 1 and rng.uniform() < 0.5:
            f = Nodal(data=data[:, 0].copy(), basis=basis, dim=dim)
        else:
            f = Nodal(data=data.copy(), basis=basis, dim=dim)
    hist = []
    if rng.uniform() < 0.15:
        # no data at first
        f = Nodal(basis=basis, dim=dim)
        ctx.ok('data', f.data() is None, 'no data ' + what)
        f.add_samples(data.copy())
        hist.append('empty')
    for _ in range(int(rng.integers(0, 4))):
        op = int(rng.integers(0, 4))
        hist.append(op)
        if op == 0:
            j = int(rng.integers(0, m))
            ds = [dofs[i] for i in rng.permutation(n)[:int(rng.integers(1, min(n, 5) + 1))]]
            v = rng.normal(size=len(ds))
            f.modify_data(v if rng.uniform() < 0.5 else v[:, None], i_sample=j, dofs=ds)
            data[[pos[d] for d in ds], j] = v
        elif op == 1:
            j = int(rng.integers(0, m))
            v = rng.normal(size=n)
            f.modify_data(v, i_sample=j)
            data[:, j] = v
        elif op == 2:
            v = rng.normal(size=(n, int(rng.integers(1, 3))))
            f.add_samples(v[:, 0] if v.shape[1] == 1 and rng.uniform() < 0.5 else v)
            data = np.hstack([data, v])
            m = data.shape[1]
        else:
            m = int(rng.integers(1, 4))
            data = rng.normal(size=(n, m))
            f.set_data(data.copy())
    ctx.close('data', f.data(), data, 1e-12, 'data after %s %s' % (hist, what))
    ctx.ok('data', f.n_samples() == m and f.dim() == dim and f.n_variables() == 1 and f.basis() is basis and
           f.subforest_flag() == flag and f.mesh() is mesh, 'attributes ' + what)

    def value(c, x, order):
        return (F.shape_values(c, deg, ref_of(c, x), order) @ data[idx[c]])

    # ---- points located by the function
    name = names[int(rng.integers(0, len(names)))] if rng.uniform() < 0.5 else 'u'
    o = ORD[name]
    tol = {0: 1e-8, 1: 1e-6, 2: 1e-5}[len(o)]
    cs = [lv[int(rng.integers(0, len(lv)))] for _ in range(int(rng.integers(1, 8)))]
    x = np.array([point_in(rng, c, dim) for c in cs])
    want = np.vstack([value(c, p[None, :], o) for c, p in zip(cs, x)])
    sc = max(1, np.abs(want).max())
    da = der_arg(rng, name)
    kw = {} if name == 'u' and rng.uniform() < 0.5 else {'derivative': da}
    ctx.close('eval', f.eval(x, **kw), want, tol, 'derivative %s at interior points, %s' % (da, what), scale=sc)
    if dim == 2:
        ctx.close('eval', f.eval([tuple(float(v) for v in p) for p in x], **kw), want, tol, 'list of tuples ' + what, scale=sc)
    ctx.close('eval', f.eval([Vertex(tuple(float(v) for v in p)) for p in x], **kw), want, tol, 'vertices ' + what, scale=sc)
    p = tuple(float(v) for v in x[0])
    ctx.close('eval', f.eval(p, **kw), want[:1], tol, 'single point ' + what, scale=sc)
    # boundaries: the value from one of the cells that meet there
    xb = np.array([point_in(rng, lv[int(rng.integers(0, len(lv)))], dim, w) for w in ('edge', 'vertex', 'edge')])
    got = f.eval(xb, **kw)
    ctx.ok('eval-boundary', got.shape == (3, m), 'shape ' + what)
    for p, g in zip(xb, got):
        near = [value(c, p[None, :], o)[0] for c in lv if inside(c, p[None, :])]
        s = max(1, max(np.abs(v).max() for v in near))
        ctx.ok('eval-boundary', any(np.abs(g - v).max() <= (10 * tol + 1e-5) * s for v in near),
               lambda: '%s derivative %s at %s: %s, one-sided values %s' % (what, name, p, g, near))
    # dof positions
    c = lv[int(rng.integers(0, len(lv)))]
    if not et.startswith('D') and len({c.get_depth() for c in lv}) == 1:
        ctx.close('at-nodes', f.eval(F.cell_nodes(c, nd)), data[idx[c]], 1e-7, 'values at dof vertices ' + what)
    elif deg > 0:
        s = 0.5 + (nd - 0.5) * (1 - 1e-5)
        ctx.close('at-nodes', f.eval(F.cell_nodes(c, s)), data[idx[c]], 2e-3, 'values close to dof vertices ' + what)
    else:
        ctx.close('at-nodes', f.eval(F.cell_nodes(c, nd)), data[idx[c]], 1e-8, 'values at centers ' + what)
    # ---- points in a given cell: a leaf, one of its ancestors in the submesh or a cell below it
    for _ in range(4):
        e = lv[int(rng.integers(0, len(lv)))]
        c = e
        u = rng.uniform()
        if u < 0.3 and c.has_parent():
            c = c.get_parent()
        elif u < 0.6 and c.has_children():
            c = c.get_child(int(rng.integers(0, c.n_children())))
        elif u < 0.7:
            while c.has_parent():
                c = c.get_parent()
        x = np.array([point_in(rng, c, dim) for _ in range(int(rng.integers(1, 4)))])
        rows = []
        for p in x:
            rows.append([value(d, p[None, :], o)[0] for d in lv if inside(d, p[None, :])])
        got = f.eval(x, cell=c, **kw)
        ctx.ok('eval-cell', got.shape == (len(x), m) and all(any(np.abs(g - v).max() <= 10 * tol * sc * 10 for v in r) for g, r in zip(got, rows)),
               lambda: '%s derivative %s in cell %s: %s want %s' % (what, name, c.get_node_address(), got, rows))
    # ---- shape functions and dofs given
    c = lv[int(rng.integers(0, len(lv)))]
    phi = rng.normal(size=(int(rng.integers(1, 6)), len(idx[c])))
    before = phi.copy()
    ctx.close('eval-phi', f.eval(phi=phi, dofs=[int(d) for d in cell_dofs[c]]), phi @ data[idx[c]], 1e-12, 'shape functions given ' + what)
    ctx.close('eval-phi', f.eval(phi=phi, dofs=[cell_dofs[c]]), phi @ data[idx[c]], 1e-12, 'shape functions given ' + what)
    ctx.close('eval-phi', f.eval(phi=phi, dofs=np.array(cell_dofs[c])), phi @ data[idx[c]], 1e-12, 'shape functions given, array of dofs ' + what)
    ctx.close('eval-phi', f.eval(phi=phi, cell=c), phi @ data[idx[c]], 1e-12, 'shape functions and cell given ' + what)
    ctx.close('eval-phi', phi, before, 0, 'shape functions modified ' + what)
    # ---- two variables
    if n <= 60 and rng.uniform() < 0.6:
        m2 = int(rng.integers(1, 4))
        D = rng.normal(size=(n, n, m2))
        rules = rng.uniform() < 0.4 and not et.startswith('D') and 'per' not in case['kind']
        if rules:
            co = rng.normal(size=(m2, 2, dim))
            gs = [lambda x, y, a=a: np.sin(x @ a[0]) * (1 + y @ a[1]) + x[:, 0] for a in co]
            h = Nodal(f=gs if m2 > 1 else gs[0], basis=basis, dim=dim, n_variables=2)
            P = np.zeros((n, dim))
            for c in lv:
                P[idx[c]] = F.cell_nodes(c, nd)
            for j, g in enumerate(gs):
                for i in range(n):
                    D[i, :, j] = g(np.tile(P[i], (n, 1)), P)
            ctx.close('bivariate', h.data(), D, 1e-12, 'kernel values from rules ' + what)
        else:
            h = Nodal(data=D, basis=basis, dim=dim, n_variables=2)
        if rng.uniform() < 0.3:
            E = rng.normal(size=(n, n, int(rng.integers(1, 3))))
            h.add_samples(E[:, :, 0].copy() if E.shape[2] == 1 and rng.uniform() < 0.5 else E.copy())
            D = np.concatenate([D, E], axis=2)
            m2 = D.shape[2]
            ctx.close('bivariate', h.data(), D, 1e-12, 'samples added ' + what)
        ctx.ok('bivariate', h.n_samples() == m2 and h.n_variables() == 2, 'attributes')
        k = int(rng.integers(1, 5))
        c1 = [lv[int(rng.integers(0, len(lv)))] for _ in range(k)]
        c2 = [lv[int(rng.integers(0, len(lv)))] for _ in range(k)]
        x = np.array([point_in(rng, c, dim) for c in c1])
        y = np.array([point_in(rng, c, dim) for c in c2])
        n1 = names[int(rng.integers(0, len(names)))] if rng.uniform() < 0.5 else 'u'
        n2 = names[int(rng.integers(0, len(names)))] if rng.uniform() < 0.5 else 'u'
        want = np.zeros((k, m2))
        for i in range(k):
            a = F.shape_values(c1[i], deg, ref_of(c1[i], x[i:i + 1]), ORD[n1])[0]
            b = F.shape_values(c2[i], deg, ref_of(c2[i], y[i:i + 1]), ORD[n2])[0]
            want[i] = np.einsum('i,j,ijs->s', a, b, D[np.ix_(idx[c1[i]], idx[c2[i]])])
        sc = max(1, np.abs(want).max())
        kw2 = {} if n1 == n2 == 'u' else {'derivative': [der_arg(rng, n1), der_arg(rng, n2)]}
        ctx.close('bivariate', h.eval((x, y), **kw2), want, 1e-5 if kw2 else 1e-8, 'two variables %s %s %s' % (n1, n2, what), scale=sc)
        a, b = F.shape_values(c1[0], deg, ref_of(c1[0], x[:1]), ORD[n1]), F.shape_values(c2[0], deg, ref_of(c2[0], y[:1]), ORD[n2])
        ctx.close('bivariate', h.eval((x[:1], y[:1]), cell=(c1[0], c2[0]), **kw2), want[:1], 1e-5 if kw2 else 1e-8, 'cells given ' + what, scale=sc)
        ctx.close('bivariate', h.eval(phi=(a, b), dofs=(cell_dofs[c1[0]], cell_dofs[c2[0]])), want[:1], 1e-8, 'phi given ' + what, scale=sc)
        ctx.close('bivariate', h.eval(phi=(a, b), cell=(c1[0], c2[0])), want[:1], 1e-8, 'phi and cells given ' + what, scale=sc)
    # ---- the mesh is refined after the function was made; its submesh keeps its cells
    if flag is not None and rng.uniform() < 0.6:
        cs = [lv[int(rng.integers(0, len(lv)))] for _ in range(int(rng.integers(1, 6)))]
        x = np.array([point_in(rng, c, dim) for c in cs])
        want = np.vstack([value(c, p[None, :], o) for c, p in zip(cs, x)])
        G.random_refine(rng, mesh, int(rng.integers(1, 3)), 0.3, maxcells=60, balance=rng.uniform() < 0.7)
        ctx.close('later', f.eval(x, **kw), want, tol, 'derivative %s after the mesh was refined, %s' % (da, what), scale=max(1, np.abs(want).max()))
        c = lv[int(rng.integers(0, len(lv)))]
        e = c
        while e.has_children() and rng.uniform() < 0.7:
            e = e.get_child(int(rng.integers(0, e.n_children())))
        x = np.array([point_in(rng, e, dim) for _ in range(3)])
        want = value(c, x, o)
        ctx.close('later', f.eval(x, cell=e, **kw), want, 10 * tol, 'in a cell below the submesh, %s' % what, scale=10 * max(1, np.abs(want).max()))
        v = rng.normal(size=(n, m))
        f.set_data(v.copy())
        ctx.close('later', f.eval(x, cell=e), F.shape_values(c, deg, ref_of(c, x)) @ v[idx[c]], 1e-7, 'new data after the mesh was refined, %s' % what)
    ctx.sig(et, name, info['type'], G.mesh_sig(mesh, flag), m, hist)
    ctx.note('%s derivative %s samples %d' % (what, name, m))
