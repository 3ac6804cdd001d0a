"""S02: elimination of Dirichlet and hanging dofs in the assembler, and its solver."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from vmon import asmref as R
from vmon.props.a02 import make_mesh
from assembler import Assembler, Form, Kernel
from fem import DofHandler, Basis
from function import Explicit, Nodal, Constant

RULE = ('A case is one assembler with 1-2 elliptic problems (sampled or not) on one balanced mesh or submesh, with random Dirichlet conditions (marked vertices and '
        'half-edges, on the boundary or inside; constant, explicit, nodal or sampled values) and hanging-node constraints; reduced matrices, vectors, corrections '
        'and solutions are compared with those of the independently assembled and reduced system. Distinct by mesh, element, conditions.')
REQUIRED = {'dofs': 300, 'values': 200, 'matrix': 200, 'vector': 200, 'correction': 200, 'solution': 200, 'continuity': 30, 'linear': 8, 'many': 40, 'nofree': 10}
ASSUMPTIONS = ['hanging dofs are not prescribed by a Dirichlet condition at the same time']


class Coef(object):
    """A (sampled) coefficient, bounded away from zero or of any sign."""

    def __init__(self, rng, dim, m, positive):
        co = rng.normal(size=(m, dim + 1))
        if positive:
            self.fs = [lambda x, a=a: 1.5 + np.sin(x @ a[:-1] + a[-1]) for a in co]
        else:
            self.fs = [lambda x, a=a: np.cos(x @ a[:-1]) * a[-1] + a[0] for a in co]
        self.kernel = Kernel(Explicit(self.fs if m > 1 else self.fs[0], dim=dim))
        self.m, self.ords, self.text = m, [()], 'coef m=%d' % m

    def value(self, cell, x):
        return np.column_stack([f(x) for f in self.fs])


def cases(tier):
    k = 1 if tier == 'quick' else 16
    return [{'kind': d} for d in ('quad', 'quad', 'quad', 'periodic', '1d', '1dper') for _ in range(36 * k)] + \
        [{'kind': d, 'whole': True} for d in ('quad', 'quad', '1d') for _ in range(10 * k)]


def conditions(rng, mesh, cells, dim, nd, deg, dh, hang, flag, full=False, edges_only=False, whole=False):
    """Marks a Dirichlet set: (marker, on_bnd, {dof: position})."""
    name = 'dir%d' % int(rng.integers(0, 10 ** 6))
    onb = bool(rng.uniform() < 0.75) or full
    if whole:
        full, onb = True, False
    got = {}

    def take(c, k):
        ids = [int(d) for d in dh.get_cell_dofs(c)]
        pos = F.cell_nodes(c, nd)
        for i in k:
            got[ids[i]] = pos[i]
    if dim == 1:
        for c in cells:
            for v, w in ((c.base(), 0), (c.head(), 1)):
                bnd = v in [b for b in mesh.get_boundary_vertices() or []]
                if (bnd or not onb) and (full and (bnd or whole) or rng.uniform() < (0.6 if bnd else 0.1)):
                    v.mark(name)
        bv = [id(b) for b in mesh.get_boundary_vertices() or []]
        for c in cells:
            for v, w in ((c.base(), 0), (c.head(), 1)):
                if v.is_marked(name) and (not onb or id(v) in bv):
                    take(c, [w])
        return name, onb, got
    edges = [(c, i, c.get_half_edge(i)) for c in cells for i in range(4)]
    def outer(h):
        while h.twin() is None and h.get_parent() is not None:
            h = h.get_parent()
        return h.twin() is None
    bnd = {id(h): outer(h) for _, _, h in edges}
    a, b = rng.normal(size=2)
    side = lambda h: full or a * np.sum(h.base().coordinates()) + b * h.head().coordinates()[0] > 0
    usevert = not full and not edges_only and rng.uniform() < 0.5
    useedge = full or not usevert or rng.uniform() < 0.4
    hangpos = set()
    for c in cells:
        ids = dh.get_cell_dofs(c)
        for i in range(len(nd)):
            if int(ids[i]) in hang:
                hangpos.add((id(c), i))
    edge_nodes = lambda i: [j for j in range(len(nd)) if abs([nd[j][1], nd[j][0] - 1, nd[j][1] - 1, nd[j][0]][i]) < 1e-9]
    for c, i, h in edges:
        if useedge and (whole or bnd[id(h)] and side(h) or not onb and rng.uniform() < 0.05):
            if not any((id(c), j) in hangpos for j in edge_nodes(i)):
                h.mark(name)
        if usevert:
            for v, j in ((h.base(), i), (h.head(), (i + 1) % 4)):
                if (bnd[id(h)] and side(h)) or (not onb and rng.uniform() < 0.05):
                    if not any(d is v and (id(e), k) in hangpos for e in cells for k, d in enumerate(e.get_vertices())):
                        v.mark(name)
    vb = {id(v) for c, i, h in edges if bnd[id(h)] for v in (h.base(), h.head())}
    for c, i, h in edges:
        if h.is_marked(name) and (not onb or bnd[id(h)]):
            take(c, edge_nodes(i))
        if h.base().is_marked(name) and (not onb or id(h.base()) in vb):
            take(c, [i] if deg > 0 else [])
    return name, onb, got


def run(case, ctx):
    rng = ctx.rng
    while True:
        mesh, wrap, info, flags = make_mesh(rng, case['kind'], maxcells=12)
        asm = flags[int(rng.integers(0, len(flags)))]
        cells = F.leaves(mesh, asm)
        dim = mesh.dim()
        names = ['Q1'] if case.get('whole') else ['Q1', 'Q2', 'Q3'] if len(cells) < 12 else ['Q1', 'Q2'] if len(cells) < 30 else ['Q1']
        dh, et, flag = R.spaces_for(rng, mesh, flags, asm, 1, only=None if rng.uniform() < 0.2 else [asm], names=names)[0]
        sp = R.Space(dh, et, flag)
        own = F.leaves(mesh, flag)
        hang = dh.get_hanging_nodes(subforest_flag=flag)
        if len(sp.dofs) - len(hang) > 1 and len(sp.dofs) <= 250:
            break
    nd, deg = F.nodes(dim, int(et[-1])), int(et[-1])
    n = len(sp.dofs)
    what = '%s sub=%s %s on %s' % (info, asm, et, flag)
    nprob = int(rng.integers(1, 3))
    probs = []
    for ip in range(nprob):
        m = int(rng.integers(2, 4)) if rng.uniform() < 0.35 else 1
        ml = int(rng.integers(2, 4)) if rng.uniform() < 0.35 else 1
        D = lambda o: R.Space(dh, et, flag, o)
        linear = ip == 0 and case['kind'] == 'quad' and rng.uniform() < 0.35
        pick = lambda: m if rng.uniform() < 0.7 else 1
        if linear:
            ones = Coef(rng, dim, m, True)
            ones.fs = [lambda x, a=a: np.full(len(x), a) for a in rng.uniform(0.5, 2, m)]
            ones.kernel = Kernel(Explicit(ones.fs if m > 1 else ones.fs[0], dim=dim))
            bil = [R.Spec(ones, D('ux'), D('ux')), R.Spec(ones, D('uy'), D('uy'))]
            zero = Coef(rng, dim, 1, False)
            zero.fs = [lambda x: np.zeros(len(x))]
            zero.kernel = Kernel(Explicit(zero.fs[0], dim=dim))
            lin, ml = [R.Spec(zero, D('u'))], 1
        else:
            bil = [R.Spec(Coef(rng, dim, pick(), True), D(o), D(o)) for o in
                   (['u'] if rng.uniform() < 0.15 else ['ux', 'uy', 'u'] if dim == 2 else ['ux', 'u'])]
            if rng.uniform() < 0.3:
                bil.append(R.Spec(Coef(rng, dim, 1, False), D('u'), D('ux')))
            lin = [R.Spec(Coef(rng, dim, ml, False), D('u'))]
            if rng.uniform() < 0.3:
                lin.append(R.Spec(Coef(rng, dim, 1, False), D('ux')))
        m, ml = max(s.ker.m for s in bil), max(s.ker.m for s in lin)
        order = [bil, lin] if rng.uniform() < 0.5 else [lin, bil]
        probs.append((order[0] + order[1], bil, lin, m, ml, linear))
    ng = (4, 16)
    A = Assembler([[s.form for s in p[0]] for p in probs], mesh, subforest_flag=asm, n_gauss=ng)
    setup, texts = [], []
    for ip, (specs, bil, lin, m, ml, linear) in enumerate(probs):
        g = {}
        txt = []
        lc = rng.normal(size=3)
        whole = bool(case.get('whole'))
        for i_dir in range(1 if linear or whole else int(rng.integers(0, 3))):
            name, onb, got = conditions(rng, mesh, own, dim, nd, deg, dh, hang, flag, full=linear, whole=whole)
            kind = 'linear' if linear else ['constant', 'explicit', 'nodal', 'sampled', 'none', 'other'][int(rng.integers(0, 6))]
            pos = np.array([got[d] for d in sorted(got)]).reshape(-1, dim)
            if kind == 'none':
                fn, vals = None, np.zeros((len(got), 1))
            elif kind == 'constant':
                fn = float(rng.normal())
                vals = np.full((len(got), 1), fn)
            elif kind == 'other' and not wrap.per:
                # a linear function, interpolated in another space (possibly with as many dofs)
                a = rng.normal(size=dim + 1)
                oh = DofHandler(mesh, type(dh.element)(dim, ['Q1', 'Q2', et, et, et, et][int(rng.integers(0, 6))]))
                of = flag if rng.uniform() < 0.7 else flags[int(rng.integers(0, len(flags)))]
                first = [f for f in flags if f != of] or flags
                oh.distribute_dofs(subforest_flag=first[int(rng.integers(0, len(first)))])
                oh.distribute_dofs(subforest_flag=of)
                fn = Nodal(f=lambda x, a=a: x @ a[:-1] + a[-1], basis=Basis(oh, 'u', of))
                vals = (pos @ a[:-1] + a[-1])[:, None]
            elif kind in ('explicit', 'linear', 'other') or kind == 'sampled':
                mm = m if kind == 'sampled' else 1
                co = rng.normal(size=(mm, dim + 1))
                if kind == 'linear':
                    fs = [lambda x: x @ lc[:2] + lc[2]]
                else:
                    # periodic meshes: values must not depend on the copy of a point
                    fs = [lambda x, a=a: (np.sin(x @ a[:-1]) if not wrap.per else 1.0 + 0 * x[:, 0]) + a[-1] for a in co]
                fn = Explicit(fs if mm > 1 else fs[0], dim=dim)
                vals = np.column_stack([f(pos) for f in fs]) if len(pos) else np.zeros((0, mm))
            else:
                data = rng.normal(size=(n, 1))
                fn = Nodal(data=data, basis=sp.basis)
                vals = data[[sp.pos[d] for d in sorted(got)]] if got else np.zeros((0, 1))
            if len(set(sp.dofs) - set(hang) - set(g) - set(got)) < 1 and not whole:
                continue
            if vals.shape[1] > 1 and any(len(v) == 1 for v in g.values()) or vals.shape[1] == 1 and any(len(v) > 1 for v in g.values()):
                continue
            args = dict(on_bnd=onb, i_problem=ip)
            if fn is None:
                A.add_dirichlet(name, **args)
            else:
                A.add_dirichlet(name, fn, **args)
            txt.append('%s on_bnd=%s %d dofs' % (kind, onb, len(got)))
            for d, v in zip(sorted(got), vals):
                g[d] = v
        usehang = bool(hang) and (linear or whole or rng.uniform() < 0.8)
        if usehang or rng.uniform() < 0.2:
            A.add_hanging_nodes(i_problem=ip)
            usehang = True
        setup.append((g, dict(hang) if usehang else {}, lc))
        texts.append('%d+%d forms m=%d,%d dirichlet %s hanging %d%s' % (len(bil), len(lin), m, ml, txt, len(setup[-1][1]), ' linear' if linear else ''))
    A.assemble()
    for ip, (specs, bil, lin, m, ml, linear) in enumerate(probs):
        g, hg, lc = setup[ip]
        w = '%s problem %d: %s' % (what, ip, texts[ip])
        inter = [d for d in sp.dofs if d not in g and d not in hg]
        ctx.tick('nofree', 0 if inter else 1)
        ctx.ok('dofs', [int(d) for d in A.get_dofs('interior', ip)] == inter, lambda: 'free dofs %s, expected %s %s' % (A.get_dofs('interior', ip), inter, w))
        ctx.ok('dofs', sorted(int(d) for d in A.get_dofs('dirichlet', ip)) == sorted(g), lambda: 'Dirichlet dofs %s, expected %s %s' % (
            sorted(A.get_dofs('dirichlet', ip)), sorted(g), w))
        ctx.ok('dofs', sorted(int(d) for d in A.get_dofs('hanging_nodes', ip)) == sorted(hg), 'hanging dofs ' + w)
        dd, dv = A.get_dirichlet(ip, asdict=False)
        if g:
            ctx.close('values', np.array(dv), np.array([g[int(d)] for d in dd]), 1e-10, 'Dirichlet values ' + w)
            ctx.ok('values', all(np.allclose(np.ravel(v), np.ravel(g[int(k)])) for k, v in A.get_dirichlet(ip).items()), 'as dictionary ' + w)
        P = np.zeros((n, len(inter)))
        K = np.zeros((n, len(g)))
        dl = sorted(g)
        for j, d in enumerate(inter):
            P[sp.pos[d], j] = 1
        for j, d in enumerate(dl):
            K[sp.pos[d], j] = 1
        C = np.zeros((n, n))
        for h, (sup, co) in hg.items():
            for s, c in zip(sup, co):
                C[sp.pos[h], sp.pos[s]] += c
        if hg:
            ctx.close('dofs', A.hanging_node_matrix(ip).toarray(), C, 1e-12, 'hanging node matrix ' + w)
        P, K = P + C @ P, K + C @ K
        full, S = R.assemble(bil, cells, m, ng)
        rhs, Sb = R.assemble(lin, cells, ml, ng)
        ng_ = max([len(v) for v in g.values()] or [1])
        G_ = np.array([g[d] for d in dl]).reshape(len(dl), ng_)
        tol = 5e-6 * max(1, len(cells)) ** 0.5
        for i in range(m):
            Ai = full[:, :, i]
            gi = G_[:, i if ng_ > 1 else 0]
            ctx.close('matrix', A.get_matrix(ip, i).toarray(), P.T @ Ai @ P, tol, 'matrix sample %d %s' % (i, w), scale=max(S, 1e-3))
            ctx.close('correction', A.assembled_bnd(ip, i), P.T @ Ai @ (K @ gi), tol * 5, 'Dirichlet correction sample %d %s' % (i, w),
                      scale=max(S, 1e-3) * max(1, np.abs(gi).max() if len(gi) else 1))
        for j in range(ml):
            ctx.close('vector', A.get_vector(ip, j), P.T @ rhs[:, j], tol, 'vector sample %d %s' % (j, w), scale=max(Sb, 1e-3))
        if ml > 1:
            js = [int(v) for v in rng.permutation(ml)[:int(rng.integers(1, ml + 1))]]
            ctx.close('vector', A.get_vector(ip, js), (P.T @ rhs[:, js]).T, tol, 'list of samples ' + w, scale=max(Sb, 1e-3))
        for i, j in {(0, 0), (int(rng.integers(0, m)), int(rng.integers(0, ml)))}:
            M = P.T @ full[:, :, i] @ P
            if M.size and np.linalg.cond(M) > 1e8:
                continue
            gi = G_[:, i if ng_ > 1 else 0]
            u = P @ np.linalg.solve(M, P.T @ (rhs[:, j] - full[:, :, i] @ (K @ gi))) + K @ gi
            got = A.solve(ip, i, j) if (i, j) != (0, 0) or rng.uniform() < 0.5 else A.solve(i_problem=ip)
            ctx.close('solution', got, u, 2e-4, 'solution (%d,%d) %s' % (i, j, w), scale=max(1, np.abs(u).max()))
            if ml > 1 and (i, j) == (0, 0):
                U = A.solve(ip, 0, js)
                for k, jj in enumerate(js):
                    ctx.close('many', U[:, k], P @ np.linalg.solve(M, P.T @ (rhs[:, jj] - full[:, :, 0] @ (K @ gi))) + K @ gi, 2e-4,
                              'solutions of several vectors ' + w, scale=max(1, np.abs(u).max()))
            if hg:
                h = np.array([sp.pos[d] for d in hg])
                ctx.close('continuity', got[h], (C @ got)[h], 1e-9, 'hanging values ' + w, scale=max(1, np.abs(u).max()))
            if linear and g:
                pos = np.zeros((n, dim))
                for c in own:
                    for d, x in zip(dh.get_cell_dofs(c), F.cell_nodes(c, nd)):
                        pos[sp.pos[int(d)]] = x
                ctx.close('linear', got, pos @ lc[:2] + lc[2], 1e-6 if info['type'] == 'rect' else 1e-4, 'linear solution ' + w, scale=max(1, np.abs(got).max()))
    ctx.sig(info['type'], G.mesh_sig(mesh, asm), texts)
    ctx.note(what + ' ' + texts[0])
