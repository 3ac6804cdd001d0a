"""S01: constrained linear systems (LinearSystem)."""
import contextlib
import io
import numpy as np
from scipy import sparse
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from vmon.props.a02 import make_mesh
from vmon.props.s02 import conditions, Coef
from fem import Basis
from function import Explicit, Nodal, Constant
from solver import LinearSystem

RULE = ('A case is one or two linear systems on (sub)meshes of one balanced mesh, with hanging-node constraints and up to three Dirichlet conditions, whose matrix '
        'is a random sparse one (symmetric or not, definite or not) or an assembled stiffness matrix, solved step by step or at once, with or without '
        'factorization, for one or several right hand sides. Distinct by mesh, element, conditions, matrix and solution path.')
REQUIRED = {'constraints': 300, 'solution': 300, 'hanging': 60, 'dirichlet': 150, 'residual': 250, 'function': 100, 'inputs': 200, 'own': 40, 'nofree': 5}
ASSUMPTIONS = ['hanging dofs are not prescribed by a Dirichlet condition at the same time', 'the reduced system is regular']


def cases(tier):
    k = 1 if tier == 'quick' else 20
    return [{'kind': d} for d in ('quad', 'quad', 'quad', 'quad', 'periodic', '1d', '1dper') for _ in range(40 * k)] + \
        [{'kind': d, 'whole': True} for d in ('quad', '1d') for _ in range(10 * k)]


def matrix(rng, n, sp, cells, kind, dim, dh, et, flag):
    """(dense matrix, name)"""
    if kind == 'fem':
        D = lambda o: R.Space(dh, et, flag, o)
        bil = [R.Spec(Coef(rng, dim, 1, True), D(o), D(o)) for o in (['ux', 'uy', 'u'] if dim == 2 else ['ux', 'u'])]
        return R.assemble(bil, cells, 1, (4, 16))[0][:, :, 0]
    A = rng.normal(size=(n, n)) * (rng.uniform(size=(n, n)) < min(1, 6 / n))
    if kind == 'zerodiag':
        A = A + rng.normal(size=(n, n)) * (rng.uniform(size=(n, n)) < min(1, 6 / n))
        A += np.diag(rng.uniform(1, 2, n - 1), 1) - np.diag(rng.uniform(1, 2, n - 1), -1)
        A[np.arange(n), np.arange(n)] = 0.0
    elif kind == 'advection':
        # skew part with a diagonal that averages to zero
        A = A - A.T
        k = n // 2
        d = rng.uniform(1, 2, k)
        A[np.arange(k), np.arange(k)] += d
        A[np.arange(n - k, n), np.arange(n - k, n)] -= d
    elif kind == 'general':
        A += np.diag(rng.normal(size=n) * 3 + 4)
    elif kind == 'indefinite':
        A = A + A.T + np.diag(rng.choice([-6.0, 5.0], size=n))
    elif kind == 'spd':
        A = A @ A.T + np.diag(rng.uniform(0.5, 2, n))
    elif kind == 'negative':
        A = -(A @ A.T + np.diag(rng.uniform(0.5, 2, n)))
    return A


def reduction(sp, hang, g):
    """P, K, C: dofs = P free + K dirichlet."""
    n = len(sp.dofs)
    inter = [d for d in sp.dofs if d not in g and d not in hang]
    dl = sorted(g)
    P, K, C = np.zeros((n, len(inter))), np.zeros((n, len(dl))), np.zeros((n, n))
    for j, d in enumerate(inter):
        P[sp.pos[d], j] = 1
    for j, d in enumerate(dl):
        K[sp.pos[d], j] = 1
    for h, (sup, co) in hang.items():
        for s, c in zip(sup, co):
            C[sp.pos[h], sp.pos[s]] += c
    return P + C @ P, K + C @ K, C, inter, dl


def setup(rng, mesh, wrap, dh, et, sp, flag, system, hang, whole=False):
    """Adds Dirichlet conditions; returns {dof: value}, description."""
    dim, deg = mesh.dim(), int(et[-1])
    nd = F.nodes(dim, deg)
    own = F.leaves(mesh, flag)
    g, txt = {}, []
    for _ in range(1 if whole else int(rng.integers(0, 4))):
        name, onb, got = conditions(rng, mesh, own, dim, nd, deg, dh, hang, flag, edges_only=True, whole=whole)
        pos = np.array([got[d] for d in sorted(got)]).reshape(-1, dim)
        kind = ['none', 'number', 'explicit', 'nodal', 'constant'][int(rng.integers(0, 5))]
        if not got and kind != 'number':
            continue
        if len(set(sp.dofs) - set(hang) - set(g) - set(got)) < 1 and not whole:
            continue
        if kind == 'nodal':
            data = rng.normal(size=(len(sp.dofs), 1))
            # hanging values must be continuous for point evaluation to be unambiguous
            for h, (sup, co) in hang.items():
                data[sp.pos[h], 0] = sum(c * data[sp.pos[s], 0] for s, c in zip(sup, co))
            fn = Nodal(data=data, basis=sp.basis)
            vals = [data[sp.pos[d], 0] for d in sorted(got)]
            if wrap.per:
                kind = 'number'
        if kind in ('none', 'number', 'constant'):
            v = 0.0 if kind == 'none' else float(rng.normal())
            fn = Constant(v) if kind == 'constant' else v
            vals = [v] * len(got)
        elif kind == 'explicit':
            a = rng.normal(size=dim + 1)
            f = lambda x, a=a: (np.sin(x @ a[:-1]) if not wrap.per else 0 * x[:, 0]) + a[-1]
            fn = Explicit(f, dim=dim)
            vals = f(pos) if len(got) else []
        if kind == 'none':
            system.add_dirichlet_constraint(name, on_boundary=onb)
        else:
            system.add_dirichlet_constraint(name, fn, on_boundary=onb)
        txt.append('%s on_bnd=%s %d' % (kind, onb, len(got)))
        for d, v in zip(sorted(got), vals):
            g[d] = float(v)
    return g, txt


def space(rng, mesh, flags, asm, cells, whole=False):
    names = ['Q1'] if whole else ['Q1', 'Q2', 'Q3'] if len(cells) < 12 else ['Q1', 'Q2'] if len(cells) < 30 else ['Q1']
    return R.spaces_for(rng, mesh, flags, asm, 1, only=[asm], names=names)[0]


def run(case, ctx):
    rng = ctx.rng
    while True:
        mesh, wrap, info, flags = make_mesh(rng, case['kind'], maxcells=16)
        asm = flags[int(rng.integers(0, len(flags)))]
        dh, et, flag = space(rng, mesh, flags, asm, F.leaves(mesh, asm), case.get('whole'))
        todo = [flag] + ([flags[int(rng.integers(0, len(flags)))]] if rng.uniform() < 0.4 else [])
        if todo[-1] != flag:
            dh.distribute_dofs(subforest_flag=todo[-1])
        if all(2 < len(R.Space(dh, et, f).dofs) <= 250 for f in todo):
            break
    dim = mesh.dim()
    ready = []
    for ip, f in enumerate(todo):
        sp = R.Space(dh, et, f)
        cells, n = F.leaves(mesh, f), len(sp.dofs)
        hang = dh.get_hanging_nodes(subforest_flag=f)
        hang = {int(d): ([int(s) for s in sup], [float(c) for c in co]) for d, (sup, co) in hang.items()}
        if len(hang) >= n - 1:
            continue
        what = '%s %s sub=%s' % (info, et, f)
        for _ in range(40):
            kind = ['fem', 'general', 'indefinite', 'spd', 'negative', 'advection', 'zerodiag'][int(rng.integers(0, 7))]
            A = matrix(rng, n, sp, cells, kind, dim, dh, et, f)
            As = [sparse.csr_matrix, sparse.csc_matrix, sparse.coo_matrix][int(rng.integers(0, 3))](A)
            nb = int(rng.integers(1, 4))
            b = rng.normal(size=(n, nb))
            bb = b[:, 0].copy() if nb == 1 and rng.uniform() < 0.5 else sparse.csc_matrix(b) if rng.uniform() < 0.2 else b.copy()
            when = int(rng.integers(0, 3))
            S = LinearSystem(sp.basis, A=As if when else None, b=bb if when == 1 else None)
            g, txt = setup(rng, mesh, wrap, dh, et, sp, f, S, hang, case.get('whole'))
            P, K, C, inter, dl = reduction(sp, hang, g)
            M = P.T @ A @ P
            if (not M.size or np.linalg.cond(M) < 1e6) and np.abs(A).max() < 1e6:
                break
        else:
            continue
        ready.append((S, sp, A, As, b, bb, when, g, hang, kind, '%s %s matrix, %d rhs (given %d), dirichlet %s, %d hanging' % (
            what, kind, nb, when, txt, len(hang))))
    for S, sp, A, As, b, bb, when, g, hang, kind, what in ready:
        if len(ready) > 1:
            ctx.tick('own')
        solve(ctx, rng, S, sp, A, As, b, bb, when, g, hang, what)
        ctx.sig(info['type'], G.mesh_sig(mesh, flag), what)
    ctx.note(ready[0][-1] if ready else 'none')


def solve(ctx, rng, S, sp, A, As, b, bb, when, g, hang, what):
    P, K, C, inter, dl = reduction(sp, hang, g)
    n, gv = len(sp.dofs), np.array([g[d] for d in dl])
    ctx.tick('nofree', 0 if inter else 1)
    if when == 0:
        S.set_matrix(As)
    factor = bool(rng.uniform() < 0.5)
    path = int(rng.integers(0, 3))
    vtol = 1e-5 if 'nodal' in what else 1e-10      # accuracy of the inverse reference map
    what += ' path %d factor %s' % (path, factor)
    if path == 0:
        verbose = bool(rng.uniform() < 0.2)
        with contextlib.redirect_stdout(io.StringIO()):
            S.solve_system(None if when == 1 else bb, factor=factor, verbose=verbose)
    elif path == 1:
        if when != 1:
            S.set_rhs(bb)
        S.set_constraint_relation()
        Cw = C.copy()
        for d in inter:
            Cw[sp.pos[d], sp.pos[d]] = 1
        dw = np.zeros(n)
        for d in dl:
            dw[sp.pos[d]] = g[d]
        ctx.close('constraints', S.get_C().toarray(), Cw, 1e-10, 'constraint matrix ' + what)
        ctx.close('constraints', S.get_d(), dw, vtol, 'affine terms ' + what)
        S.constrain_matrix()
        S.constrain_rhs()
        S.invert_matrix(factor=factor)
        S.resolve_constraints()
    else:
        S.set_constraint_relation()
        S.constrain_matrix()
        if factor and rng.uniform() < 0.5:
            S.factor_matrix()
        S.invert_matrix(None if False else bb, factor=factor)
        S.resolve_constraints()
    ctx.ok('constraints', bool(S.matrix_is_constrained()) and S.rhs_is_constrained() and S.n_rhs() == b.shape[1], 'state ' + what)
    u = S.get_solution(as_function=False)
    u = u.toarray() if sparse.issparse(u) else np.asarray(u)
    M = P.T @ A @ P
    want = P @ np.linalg.solve(M, P.T @ (b - A @ (K @ gv)[:, None])) + (K @ gv)[:, None]
    sc = max(1, np.abs(want).max())
    tol = 1e-12 * max(np.linalg.cond(M) if M.size else 1, 1e3) * max(1, np.abs(A).max())
    tol = max(tol, vtol * np.abs(A).max() * np.linalg.norm(np.linalg.inv(M)) if 'nodal' in what else 0)
    if not ctx.close('solution', u, want, tol, 'solution ' + what, scale=sc):
        return
    rest = P.T @ (A @ u - b)
    ctx.close('residual', rest, 0 * rest, tol, 'reduced equations ' + what, scale=max(1, np.abs(A).max()) * sc)
    if dl:
        i = [sp.pos[d] for d in dl]
        ctx.close('dirichlet', u[i], np.tile(gv[:, None], (1, b.shape[1])), vtol, 'prescribed values ' + what)
    if hang:
        i = [sp.pos[d] for d in hang]
        ctx.close('hanging', u[i], (C @ u)[i], 1e-9, 'hanging values ' + what, scale=sc)
    if rng.uniform() < 0.5:
        f = S.get_solution()
        ctx.close('function', np.array(f.data()), u, 1e-12, 'solution function ' + what)
        ctx.ok('function', f.basis().same_dofs(sp.basis) and f.n_samples() == b.shape[1], 'basis of solution function ' + what)
    x = rng.normal(size=(n, b.shape[1]))
    full = P @ x[[sp.pos[d] for d in inter]] + (K @ gv)[:, None]
    got = S.resolve_constraints(x=sparse.csc_matrix(x) if rng.uniform() < 0.3 else x.copy())
    ctx.close('constraints', np.asarray(got), full, vtol, 'resolve_constraints of given free values ' + what)
    ctx.close('constraints', np.asarray(S.get_solution(as_function=False)), u, 1e-15, 'solution after resolving other values ' + what)
    ctx.close('inputs', As.toarray(), A, 1e-15, 'matrix changed ' + what)
    ctx.close('inputs', bb.toarray() if sparse.issparse(bb) else bb.reshape(b.shape), b, 1e-15, 'right hand side changed ' + what)
