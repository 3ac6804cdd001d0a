"""G02: discretized covariance operators (Covariance)."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from vmon.props.a02 import make_mesh
from vmon.props.g01 import reference, tensor
from function import Explicit
from gmrf import Covariance
import gmrf

RULE = ('A case is one covariance function, by name with parameters, as a Python function or as a map, discretized by interpolation or projection on the finite element space of one (sub)mesh; '
        'its matrices are compared with independent double sums. Distinct by mesh, element, submesh, function and discretization.')
REQUIRED = {'covariance': 120, 'mass': 120, 'spectrum': 120, 'attributes': 120, 'quadratic': 100}
ASSUMPTIONS = ['the dofhandler has been distributed']


def cases(tier):
    k = 2 if tier == 'quick' else 16
    return [{'kind': d} for d in ('quad', 'quad', '1d', '1d') for _ in range(45 * k)]


def run(case, ctx):
    rng = ctx.rng
    disc = ['interpolation', 'galerkin'][int(rng.integers(0, 2))]
    while True:
        mesh, wrap, info, flags = make_mesh(rng, case['kind'], maxcells=6 if disc == 'galerkin' else 12)
        asm = flags[int(rng.integers(0, len(flags)))]
        cells = F.leaves(mesh, asm)
        if len(cells) > (12 if disc == 'galerkin' else 30):
            continue
        names = ['Q1', 'DQ0', 'DQ1', 'Q2'] if len(cells) < 8 else ['Q1', 'DQ0']
        dh, et, flag = R.spaces_for(rng, mesh, flags, asm, 1, only=[asm], names=names)[0]
        sp = R.Space(dh, et, flag)
        if len(sp.dofs) < 80:
            break
    dim = mesh.dim()
    name = ['constant', 'linear', 'gaussian', 'exponential', 'matern', 'rational'][int(rng.integers(0, 6))]
    p, M = {}, None
    if name != 'rational':
        p['sgm'] = float(rng.uniform(0.5, 2))
    if name in ('gaussian', 'exponential', 'matern'):
        p['l'] = float(rng.uniform(0.1, 1))
    if name == 'matern':
        p['nu'] = [0.5, 1.5, 2.5][int(rng.integers(0, 3))]
    if name == 'rational':
        p['a'] = float(rng.uniform(0.5, 2))
    if name != 'constant' and rng.uniform() < 0.3:
        M = tensor(rng, dim)
    how = ['name', 'function', 'map'][int(rng.integers(0, 3))] if rng.uniform() < 0.4 else 'name'
    par = dict(p) if M is None else dict(p, M=M)
    kw = {}
    if how == 'name':
        kw = dict(name=name, parameters=par)
        k = lambda x, y: reference(name, x, y, p, M, None)
    else:
        wave = rng.normal(size=dim)
        sg = float(rng.uniform(0.5, 2))
        fn = lambda x, y, sgm=1.0: sgm * (np.exp(-np.sum((x - y) ** 2, axis=1)) + np.sin(x @ wave) * np.sin(y @ wave))
        if how == 'function':
            kw = dict(cov_fn=fn, parameters={'sgm': sg})
        else:
            kw = dict(cov_fn=Explicit(fn, parameters={'sgm': sg}, n_variables=2, dim=dim, symmetric=bool(rng.uniform() < 0.5)))
        k = lambda x, y: fn(x, y, sg)
        name = 'own'
    if disc != 'interpolation' or rng.uniform() < 0.5:
        kw['discretization'] = disc
    if flag is not None or rng.uniform() < 0.3:
        kw['subforest_flag'] = flag
    what = '%s %s sub=%s %s by %s %s %s' % (info, et, flag, name, how, par, disc)
    cov = Covariance(dh, **kw)
    # ---- independent matrices
    n = len(sp.dofs)
    MM = np.zeros((n, n))
    rules = [(c, R.quad(c, ('c', None), 4, 16)) for c in cells]
    for c, (x, w) in rules:
        f, i = sp.at(c, x)
        np.add.at(MM, np.ix_(i, i), f.T @ (w[:, None] * f))
    if disc == 'interpolation':
        X = np.full((n, dim), np.nan)
        nd = F.nodes(dim, sp.deg) if hasattr(F, 'nodes') else None
        for c in cells:
            pos = F.cell_nodes(c, nd)
            f, i = sp.at(c, pos)
            for q in range(len(pos)):
                X[i[int(np.argmax(np.abs(f[q])))]] = pos[q]
        I, J = [a.ravel() for a in np.meshgrid(np.arange(n), np.arange(n), indexing='ij')]
        K = k(X[I], X[J]).reshape(n, n)
        C = MM @ K @ MM.T
    else:
        C = np.zeros((n, n))
        for c, (x, w) in rules:
            f, i = sp.at(c, x)
            for d, (y, u) in rules:
                g, j = sp.at(d, y)
                a, b = [v.ravel() for v in np.meshgrid(np.arange(len(x)), np.arange(len(y)), indexing='ij')]
                kk = k(x[a], y[b]).reshape(len(x), len(y))
                np.add.at(C, np.ix_(i, j), (f * w[:, None]).T @ kk @ (g * u[:, None]))
    sc = max(np.abs(C).max(), 1e-9)
    ctx.close('covariance', cov.get_matrix(), C, 1e-6, 'covariance: ' + what, scale=sc)
    ctx.close('covariance', cov.get_matrix(), np.asarray(cov.get_matrix()).T, 1e-10, 'symmetry: ' + what, scale=sc)
    ctx.close('mass', cov.get_mass_matrix(), MM, 1e-8, 'mass: ' + what, scale=np.abs(MM).max())
    ctx.ok('attributes', cov.get_size() == n and cov.dim() == dim and cov.discretization() == disc and cov.dofhandler() is dh and cov.subforest_flag() == flag,
           lambda: '%s: %s %s %s %s' % (what, cov.get_size(), cov.dim(), cov.discretization(), cov.subforest_flag()))
    # ---- spectrum
    Li = np.linalg.inv(np.linalg.cholesky(MM))
    ev = np.linalg.eigvalsh(Li @ C @ Li.T)[::-1]
    low = np.sqrt(np.finfo(float).eps) * np.linalg.norm(C)
    kM = np.linalg.cond(MM)
    d, V = cov.get_factors()
    top = max(ev[0], low)
    ctx.close('spectrum', d, np.maximum(ev, low), 1e-7 * max(1, kM ** 0.5), 'eigenvalues: ' + what, scale=top)
    ctx.close('spectrum', V.T @ MM @ V, np.eye(n), 1e-7 * kM ** 0.5, 'orthonormal in L2: ' + what)
    # trace = sum of eigenvalues, the mean variance; semidefinite kernels
    ctx.ok('spectrum', ev[-1] > -1e-5 * top, lambda: '%s: not semidefinite %s' % (what, ev))
    keep = d > max(low * 10, 1e-6 * top)
    res = C @ V[:, keep] - MM @ V[:, keep] * d[keep]
    ctx.close('spectrum', res, 0 * res, 1e-6 * max(1, kM ** 0.5), 'C v = d M v: ' + what, scale=np.abs(MM).max() * top * max(1, np.abs(V).max()))
    # quadratic form of a function of the space: variance of its integral against the field
    b = rng.normal(size=n)
    q = b @ C @ b
    ctx.close('quadratic', b @ np.asarray(cov.get_matrix()) @ b, q, 1e-6, 'quadratic form: ' + what, scale=sc * n * n)
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), et, name, how, disc)
    ctx.note(what)


def _collocation(ctx):
    from mesh import Mesh1D
    from fem import QuadFE, DofHandler
    dh = DofHandler(Mesh1D(resolution=(3,)), QuadFE(1, 'Q1'))
    dh.distribute_dofs()
    try:
        Covariance(dh, name='gaussian', parameters={'sgm': 1, 'l': 0.3}, discretization='collocation')
    except AttributeError:
        ctx.ok('collocation', False, lambda: 'Covariance by collocation cannot be constructed')


KNOWN = {'collocation': _collocation}
