"""S03: results do not depend on what was assembled or solved before."""
import numpy as np
from scipy import sparse
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from vmon.props.a02 import make_mesh
from vmon.props.s01 import matrix, setup, reduction, space
from vmon.props.s02 import Coef
from fem import DofHandler, Basis
from assembler import Assembler, Form, Kernel
from function import Nodal, Explicit
from solver import LinearSystem

RULE = ('A case is a history: a linear system solved again for other right hand sides and matrices, with and without factorization; or one or two assemblers sharing '
        'forms, assembled and solved repeatedly, with cellwise data kept or not, with conditions added and nodal coefficients changed in between. Every result is compared '
        'with a direct or freshly assembled one; or an adaptive loop (solve, refine, number again, the last solution as coefficient), compared in'
        'each step with a dofhandler that never saw the earlier meshes. Distinct by mesh, element and history.')
REQUIRED = {'resolve': 300, 'reassemble': 250, 'conditions': 20, 'data': 20, 'cellwise': 40, 'solve': 100, 'shared': 30, 'adaptive': 400}
ASSUMPTIONS = ['conditions are added to a linear system before it is solved for the first time',
               'a new right hand side is given after the matrix of a linear system was replaced']


def cases(tier):
    k = 1 if tier == 'quick' else 13
    return ([{'kind': d, 'what': 'adaptive'} for d in ('quad', 'quad', 'quad', 'periodic', '1d', '1dper') for _ in range(20 * k)] +
            [{'kind': d, 'what': 'system'} for d in ('quad', 'quad', 'quad', 'periodic', '1d', '1dper') for _ in range(32 * k)] +
            [{'kind': d, 'what': 'assembler'} for d in ('quad', 'quad', 'quad', 'periodic', '1d', '1dper') for _ in range(32 * k)])


def prepare(case, rng, maxdofs=200):
    while True:
        mesh, wrap, info, flags = make_mesh(rng, case['kind'], maxcells=12)
        asm = flags[int(rng.integers(0, len(flags)))]
        cells = F.leaves(mesh, asm)
        dh, et, flag = space(rng, mesh, flags, asm, cells)
        sp = R.Space(dh, et, flag)
        hang = dh.get_hanging_nodes(subforest_flag=flag)
        hang = {int(d): ([int(s) for s in sup], [float(c) for c in co]) for d, (sup, co) in hang.items()}
        if 3 < len(sp.dofs) <= maxdofs and len(hang) < len(sp.dofs) - 2:
            return mesh, wrap, info, flags, asm, cells, dh, et, sp, hang


def run(case, ctx):
    {'system': system, 'assembler': assemblers, 'adaptive': adaptive}[case['what']](case, ctx)


def system(case, ctx):
    rng = ctx.rng
    mesh, wrap, info, flags, asm, cells, dh, et, sp, hang = prepare(case, rng)
    n, dim = len(sp.dofs), mesh.dim()
    what = '%s %s sub=%s' % (info, et, asm)
    S = LinearSystem(sp.basis)
    g, txt = setup(rng, mesh, wrap, dh, et, sp, asm, S, hang)
    P, K, C, inter, dl = reduction(sp, hang, g)
    kg = (K @ np.array([g[d] for d in dl]))[:, None] if dl else np.zeros((n, 1))
    vtol = 1e-5 if 'nodal' in str(txt) else 0

    def fresh():
        while True:
            kind = ['fem', 'general', 'spd', 'spd', 'negative'][int(rng.integers(0, 5))]
            A = matrix(rng, n, sp, cells, kind, dim, dh, et, asm)
            if np.linalg.cond(P.T @ A @ P) < 1e6:
                return A, kind
    A, kind = fresh()
    S.set_matrix(sparse.csr_matrix(A))
    hist = [kind]
    isnew = True
    for step in range(int(rng.integers(3, 7))):
        op = int(rng.integers(0, 6))
        if op == 0 and step:
            A, kind = fresh()
            S.set_matrix(sparse.csc_matrix(A) if rng.uniform() < 0.5 else sparse.csr_matrix(A))
            hist.append('set ' + kind)
            isnew = True
        nb = int(rng.integers(1, 4))
        b = rng.normal(size=(n, nb))
        bb = b[:, 0].copy() if nb == 1 and rng.uniform() < 0.5 else b.copy()
        factor = bool(rng.uniform() < 0.6)
        M = P.T @ A @ P
        if op == 1 and not isnew:
            S.invert_matrix(bb, factor=factor)
            S.resolve_constraints()
            hist.append('invert %d %s' % (nb, factor))
        elif op == 2:
            S.set_rhs(bb)
            S.solve_system(factor=factor)
            hist.append('set_rhs, solve %d %s' % (nb, factor))
        elif op == 3 and not isnew and step:
            S.solve_system(bb, factor=factor)
            S.solve_system(factor=bool(rng.uniform() < 0.5))     # once more, same right hand side
            hist.append('solve twice %d %s' % (nb, factor))
        else:
            S.solve_system(bb, factor=factor)
            hist.append('solve %d %s' % (nb, factor))
        isnew = False
        u = S.get_solution(as_function=False)
        u = u.toarray() if sparse.issparse(u) else np.asarray(u)
        want = P @ np.linalg.solve(M, P.T @ (b - A @ kg)) + kg
        tol = 1e-12 * max(np.linalg.cond(M), 1e3) * max(1, np.abs(A).max())
        tol = max(tol, vtol * np.abs(A).max() * np.linalg.norm(np.linalg.inv(M)))
        if not ctx.close('resolve', u, want, tol, '%s dirichlet %s hanging %d history %s' % (what, txt, len(hang), hist), scale=max(1, np.abs(want).max())):
            return
        if rng.uniform() < 0.3:
            ctx.close('resolve', np.array(S.get_solution().data()), u, 1e-13, 'solution function ' + what)
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), txt, hist)
    ctx.note('%s %s %s' % (what, txt, hist))


def arrays(A, nprob, ms, mls):
    out = []
    for ip in range(nprob):
        out.append([A.get_matrix(ip, i).toarray() for i in range(ms[ip])] + [np.array(A.get_vector(ip, j)) for j in range(mls[ip])] +
                   [np.array(A.assembled_bnd(ip, i)) for i in range(ms[ip])] + [np.array(A.get_scalar(ip))])
    return out


def same(a, b):
    for x, y in zip(a, b):
        for v, w in zip(x, y):
            if v.shape != w.shape or not np.allclose(v, w, rtol=0, atol=1e-10 * max(1, np.abs(w).max() if w.size else 1)):
                return False
    return True


def assemblers(case, ctx):
    rng = ctx.rng
    mesh, wrap, info, flags, asm, cells, dh, et, sp, hang = prepare(case, rng, 120)
    n, dim, own = len(sp.dofs), mesh.dim(), F.leaves(mesh, asm)
    what = '%s %s sub=%s' % (info, et, asm)
    D = lambda o: R.Space(dh, et, asm, o)
    smooth = lambda k: np.column_stack([1 + 0.5 * np.abs(rng.normal(size=n)) for _ in range(k)])
    nprob = int(rng.integers(1, 3))
    m = [int(rng.integers(2, 4)) if rng.uniform() < 0.3 else 1 for _ in range(nprob)]
    ml = [int(rng.integers(2, 4)) if rng.uniform() < 0.3 else 1 for _ in range(nprob)]
    q = [Nodal(data=smooth(m[i]), basis=sp.basis) for i in range(nprob)]
    f = [Nodal(data=rng.normal(size=(n, ml[i])), basis=sp.basis) for i in range(nprob)]
    ex = [Coef(rng, dim, 1, True) for _ in range(nprob)]
    ders = ['ux', 'uy', 'u'] if dim == 2 else ['ux', 'u']

    def forms(qs, fs, i):
        kq = Kernel(qs[i])
        return ([Form(kq if o != 'u' else ex[i].kernel, trial=D(o).basis, test=D(o).basis) for o in ders] +
                [Form(Kernel(fs[i]), test=sp.basis)] + [Form(kernel=Kernel(fs[i]))])
    probs = [forms(q, f, i) for i in range(nprob)]
    ng = (3, 9)
    A = Assembler(probs, mesh, subforest_flag=asm, n_gauss=ng)
    B = Assembler(probs, mesh, subforest_flag=asm, n_gauss=ng) if rng.uniform() < 0.5 else None
    conds = {}
    markers = []
    for k in range(4):
        a = rng.normal(size=dim + 1)
        name = 'bnd%d' % k
        if dim == 1:
            c = own[int(rng.integers(0, len(own)))]
            (c.base() if rng.uniform() < 0.5 else c.head()).mark(name)
        else:
            for c in own:
                for h in c.get_half_edges():
                    if h.twin() is None and h.get_parent() is None and rng.uniform() < 0.4:
                        h.mark(name)
            if rng.uniform() < 0.3:
                v = own[int(rng.integers(0, len(own)))].get_vertices()[int(rng.integers(0, 4))]
                dofs = [int(d) for c in own for d, w in zip(dh.get_cell_dofs(c), c.get_vertices()) if w is v]
                if not any(d in hang for d in dofs):
                    v.mark(name)
        markers.append(name)
    hist = []

    def apply(X, c):
        if c[0] == 'hang':
            X.add_hanging_nodes(i_problem=c[1])
        else:
            X.add_dirichlet(c[2], c[3], on_bnd=c[4], i_problem=c[1])
    conds = []

    def fresh():
        X = Assembler([forms([Nodal(data=np.array(v.data()), basis=sp.basis) for v in q], [Nodal(data=np.array(v.data()), basis=sp.basis) for v in f], i)
                       for i in range(nprob)], mesh, subforest_flag=asm, n_gauss=ng)
        for c in conds:
            apply(X, c)
        X.assemble()
        return X, arrays(X, nprob, m, ml)
    Y, ref = fresh()
    done = {id(A): False}
    changed = None
    for step in range(int(rng.integers(3, 6))):
        op = int(rng.integers(0, 5)) if step else 0
        if op == 1:
            ip = int(rng.integers(0, nprob))
            c = ('hang', ip) if rng.uniform() < 0.3 else ('dir', ip, markers[int(rng.integers(0, 4))], float(rng.normal()), bool(rng.uniform() < 0.5))
            before = list(conds)
            conds.append(c)
            X = Assembler(probs, mesh, subforest_flag=asm, n_gauss=ng)
            for d in conds:
                apply(X, d)
            gd, hd = X.get_dirichlet(ip), X.get_hanging_nodes(ip)
            free = [d for d in sp.dofs if d not in gd and d not in hd]
            if not free or any(d in hang for d in gd):
                conds = before
                continue
            apply(A, c)
            if B is not None:
                apply(B, c)
            hist.append('add %s' % (c,))
            changed = 'conditions'
            Y, ref = fresh()
        elif op == 2:
            ip = int(rng.integers(0, nprob))
            if rng.uniform() < 0.5:
                data = smooth(m[ip])
                q[ip].set_data(data) if rng.uniform() < 0.5 or m[ip] > 1 else q[ip].modify_data(data)
            else:
                data = rng.normal(size=(n, ml[ip]))
                f[ip].set_data(data) if rng.uniform() < 0.5 or ml[ip] > 1 else f[ip].modify_data(data)
            hist.append('change data of problem %d' % ip)
            changed = 'data'
            Y, ref = fresh()
        keep = bool(rng.uniform() < 0.4)
        X, name = (B, 'shared') if B is not None and rng.uniform() < 0.4 else (A, changed or 'reassemble')
        X.assemble(keep_cellwise_data=keep)
        hist.append('assemble%s%s' % (' B' if X is B else '', ' keep' if keep else ''))
        changed = None if X is A else changed
        w = '%s m=%s,%s history %s' % (what, m, ml, hist)
        got = arrays(X, nprob, m, ml)
        ctx.ok(name, same(got, ref), 'arrays differ from a fresh assembly ' + w)
        ctx.tick('reassemble')
        for ip in range(nprob):
            for t in ('interior', 'dirichlet', 'hanging_nodes'):
                ctx.ok('reassemble', sorted(X.get_dofs(t, ip)) == sorted(Y.get_dofs(t, ip)), t + ' dofs ' + w)
        for _ in range(2):
            ip = int(rng.integers(0, nprob))
            i, j = int(rng.integers(0, m[ip])), int(rng.integers(0, ml[ip]))
            if ref[ip][i].size and np.linalg.cond(ref[ip][i]) < 1e6:
                ctx.close('solve', X.solve(ip, i, j), Y.solve(ip, i, j), 1e-7, 'solution %d %d %d %s' % (ip, i, j, w))
        if same(arrays(X, nprob, m, ml), ref) is False and same(got, ref):
            ctx.ok('solve', False, 'solving changed the assembled arrays ' + w)
        if keep:
            cellwise(ctx, X, nprob, m, ml, sp, own, conds, probs, mesh, asm, ng, w)
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), hist)
    ctx.note('%s %s' % (what, hist))


def cellwise(ctx, X, nprob, m, ml, sp, own, conds, probs, mesh, asm, ng, w):
    """The kept cellwise data adds up to the unconstrained forms."""
    Z = Assembler(probs, mesh, subforest_flag=asm, n_gauss=ng)
    Z.assemble()
    n = len(sp.dofs)
    for ip in range(nprob):
        af = X.assembled_forms(ip)
        ctx.ok('cellwise', set(af[2].cellwise_data()) == set(own), 'cells with data ' + w)
        T, v = np.zeros((n, n, m[ip])), np.zeros((n, ml[ip]))
        for cell in af[2].cellwise_data():
            d = af[2].cellwise_data()[cell]
            for r, c, x in zip(d['dofs'][0], d['dofs'][1], d['vals']):
                T[sp.pos[int(r)], sp.pos[int(c)], :] += x
        for cell in af[1].cellwise_data():
            d = af[1].cellwise_data()[cell]
            for r, x in zip(d['dofs'][0], d['vals']):
                v[sp.pos[int(r)]] += x
        for i in range(m[ip]):
            ctx.close('cellwise', T[:, :, i], Z.get_matrix(ip, i).toarray(), 1e-11, 'cellwise matrix ' + w)
        for j in range(ml[ip]):
            ctx.close('cellwise', v[:, j], Z.get_vector(ip, j), 1e-11, 'cellwise vector ' + w)


def adaptive(case, ctx):
    """Solve, refine, number the dofs again, solve again: as on a dofhandler that never saw the coarser meshes."""
    rng = ctx.rng
    mesh, wrap, info, _ = F.fem_mesh(rng, case['kind'], labels=False, maxcells=8, rmax=2)
    dim = mesh.dim()
    el, et, nd = F.element(rng, dim, ['Q1', 'Q1', 'Q2', 'Q3'] if dim == 1 else ['Q1', 'Q1', 'Q2'])
    dh = DofHandler(mesh, el)
    last = last0 = None
    hist = []
    m = 2 if rng.uniform() < 0.3 else 1
    for step in range(int(rng.integers(2, 5))):
        if rng.uniform() < 0.2:
            dh.clear_dofs()
            hist.append('clear')
            last = last0        # its dofs are gone
        dh.distribute_dofs()
        lv = F.leaves(mesh)
        fresh = DofHandler(mesh, el)
        fresh.distribute_dofs()
        what = '%s %s %s leaves %d' % (info, et, hist, len(lv))
        to = {}
        for c in lv:
            for a, b in zip(dh.get_cell_dofs(c), fresh.get_cell_dofs(c)):
                to.setdefault(int(a), set()).add(int(b))
        if not ctx.ok('adaptive', all(len(v) == 1 for v in to.values()) and len({min(v) for v in to.values()}) == len(to),
                      'dofs are not those of a fresh numbering ' + what):
            return
        to = {a: min(b) for a, b in to.items()}
        co = rng.normal(size=dim + 1)
        src = Explicit(lambda x: np.sin(x @ co[:-1]) + co[-1], dim=dim)
        coef = Coef(rng, dim, m, True)
        mark = None
        if dim == 2:
            mark = 'dir%d' % step
            root = mesh.cells.get_child(int(rng.integers(0, mesh.cells.n_children())))
            free = wrap.key(np.array(root.get_vertices()[int(rng.integers(0, 4))].coordinates()))
            for c in lv:
                for h in c.get_half_edges():
                    ends = [wrap.key(np.array(v.coordinates())) for v in (h.base(), h.head())]
                    if h.twin() is None and free not in ends and rng.uniform() < 0.5:
                        h.mark(mark)
        elif not mesh.is_periodic():
            mark = 'dir%d' % step
            lv[0].base().mark(mark)
        seen = []
        for D, old in ((dh, last), (fresh, last0)):
            b = {o: Basis(D, o) for o in (('u', 'ux', 'uy') if dim == 2 else ('u', 'ux'))}
            forms = [Form(coef.kernel, trial=b[o], test=b[o]) for o in b if o != 'u']
            forms.append(Form(1 if old is None else Kernel(old, F=lambda v: 1 + v ** 2), trial=b['u'], test=b['u']))
            forms.append(Form(Kernel(src), test=b['u']))
            if old is not None:
                forms.append(Form(Kernel(old, derivatives='ux'), test=b['u']))
            A = Assembler(forms, mesh, n_gauss=(3, 9))
            if mark is not None:
                A.add_dirichlet(mark, dir_fn=float(np.round(co[0], 3)))
            A.add_hanging_nodes()
            A.assemble()
            ds = [int(d) for d in b['u'].dofs()]
            sols = [np.ravel(A.solve(0, i, 0)) for i in range(m)]
            seen.append((A, ds, sols))
        (A, ds, u), (B, es, v) = seen
        key = lambda d: to[int(d)]
        ctx.ok('adaptive', sorted(map(key, ds)) == sorted(es), 'dofs ' + what)
        at = {e: i for i, e in enumerate(es)}
        perm = [at[to[d]] for d in ds]
        for kind in ('interior', 'dirichlet', 'hanging_nodes'):
            ctx.ok('adaptive', sorted(map(key, A.get_dofs(kind))) == sorted(map(int, B.get_dofs(kind))), lambda: '%s dofs differ %s' % (kind, what))
        ctx.ok('adaptive', {key(d): float(w) for d, w in A.get_dirichlet().items()} == {int(d): float(w) for d, w in B.get_dirichlet().items()},
               'Dirichlet values ' + what)
        sc = max(1, max(np.abs(w).max() for w in v))
        for i in range(m):
            ctx.close('adaptive', u[i], v[i][perm], 1e-7, 'solution differs from that of a fresh dofhandler, ' + what, scale=sc)
        # refine, keeping the cells of this step
        name = 'step%d' % step
        mesh.cells.record(name)
        j = int(rng.integers(0, m))
        last = Nodal(data=u[j], basis=Basis(dh, 'u', name))
        last0 = Nodal(data=v[j], basis=Basis(fresh, 'u', name))
        if len(lv) > 40:
            break
        if rng.uniform() < 0.3:
            parents = {c.get_parent() for c in lv if c.has_parent()}
            for c in sorted(parents, key=lambda c: str(c.get_node_address())):
                if rng.uniform() < 0.5:
                    c.mark('__c')
                    last = last0 = None
            mesh.cells.coarsen(coarsening_flag='__c')
            if dim == 2:
                mesh.balance()
            hist.append('coarsen')
        if hist[-1:] != ['coarsen'] or rng.uniform() < 0.5:
            G.random_refine(rng, mesh, 1, 0.25, balance=True)
            hist.append('refine')
    ctx.sig(info['type'], et, G.mesh_sig(mesh), hist)
    ctx.note('adaptive %s %s %s' % (info, et, hist))
