"""F03: hanging nodes: which dofs are constrained, by what, and the continuity that results."""
import numpy as np
from vmon import gens as G, topo
from vmon import femgen as F
from vmon.props.f01 import ref_value, lagrange1
from fem import DofHandler

RULE = ('A case is one element on one balanced quad mesh (structured, unstructured or periodic) with up to two submeshes; the '
        'constraints of the mesh and of each submesh are compared with those derived from coinciding edges, and random constrained '
        'functions are compared across every shared edge. Non-trivial: at least one hanging node; distinct by element, mesh, submesh.')
REQUIRED = {'constrained-set': 150, 'support': 500, 'coefficients': 500, 'none': 30, 'continuity': 1500, 'reproduction': 400,
            'unity': 500, 'again': 100}
ASSUMPTIONS = ['meshes are 2:1 balanced across edges']
TS = np.array([0.0, 0.21, 0.5, 0.77, 1.0])
CORNERS = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])


def cases(tier):
    k = 2 if tier == 'quick' else 14
    return ([{'kind': 'quad'} for _ in range(150 * k)] + [{'kind': 'periodic'} for _ in range(50 * k)] +
            [{'kind': 'deep'} for _ in range(30 * k)] + [{'kind': '1d'} for _ in range(10 * k)])


def edge_pairs(leaves, wrap):
    """(c, i, d, j, rel): edge j of leaf d is edge i of leaf c (rel 0), or its first/second half (rel 1/2) seen along i."""
    by = {}
    ends = {}
    for c in leaves:
        xy = G.cell_xy(c)
        for i in range(4):
            a, b = xy[i], xy[(i + 1) % 4]
            ends[c, i] = (a, b)
            by.setdefault((wrap.key((a + b) / 2), topo._dirkey(b - a)), []).append((c, i))
    out = []
    for (c, i), (a, b) in ends.items():
        m = (a + b) / 2
        for rel, (p, q) in enumerate(((a, b), (a, m), (m, b))):
            for d, j in by.get((wrap.key((p + q) / 2), topo._dirkey(p - q)), []):
                out.append((c, i, d, j, rel))
    return out


def run(case, ctx):
    rng = ctx.rng
    if case['kind'] == '1d':
        mesh, wrap, info, flags = F.fem_mesh(rng, '1d')
        el, et, nd = F.element(rng, 1)
        dh = DofHandler(mesh, el)
        dh.distribute_dofs()
        ctx.ok('none', not dh.get_hanging_nodes(), 'hanging nodes in 1D ' + et)
        dh.set_hanging_nodes()
        ctx.ok('none', not dh.has_hanging_nodes(), '1D meshes have no hanging nodes')
        return
    if case['kind'] == 'deep':
        mesh, wrap, info, flags = F.fem_mesh(rng, 'quad', labels=False, rmax=1, kinds=('rect', 'jitter', 'para', 'star'))
        G.corner_refine(mesh, int(rng.integers(2, 4)), int(rng.integers(0, 4)))
        mesh.balance()
    else:
        mesh, wrap, info, flags = F.fem_mesh(rng, case['kind'])
    el, et, nd = F.element(rng, 2, F.CONT if rng.uniform() < 0.9 else F.TORN)
    deg = int(et[-1])
    small = 1 in (info.get('nx'), info.get('ny'))
    dh = DofHandler(mesh, el)
    dh.distribute_dofs()
    check_all(ctx, rng, mesh, wrap, info, flags, dh, el, et, deg, nd, small, '')
    if rng.uniform() < 0.4:
        # the mesh is refined further (perhaps one of its submeshes too) and numbered again
        late = ''
        for flag in flags[1:]:
            if rng.uniform() < 0.4:
                G.refine_label(rng, mesh, flag, None, 0.3)
                mesh.balance(subforest_flag=flag)
                late += ' and ' + flag
        G.random_refine(rng, mesh, 1, 0.3, maxcells=60, balance=True)
        if rng.uniform() < 0.3:
            dh.clear_dofs()
        dh.distribute_dofs()
        check_all(ctx, rng, mesh, wrap, info, flags, dh, el, et, deg, nd, small, ' after refining the mesh' + late, 'again')
    ctx.note('%s %s leaves %d' % (et, info, len(mesh.cells.get_leaves())))


def check_all(ctx, rng, mesh, wrap, info, flags, dh, el, et, deg, nd, small, when, again=None):
    order = [flags[i] for i in rng.permutation(len(flags))]
    for flag in order:
        what = '%s %s sub=%s (order %s)%s' % (et, info, flag, order, when)
        if rng.uniform() < 0.3:
            dh.set_hanging_nodes(subforest_flag=flag)
        got = dh.get_hanging_nodes(subforest_flag=flag)
        lv = F.leaves(mesh, flag)
        if et in F.TORN:
            ctx.ok('none', got == {}, 'hanging nodes of a discontinuous element ' + what)
            continue
        pairs = edge_pairs(lv, wrap)
        want = {}
        L = lagrange1(deg)
        for c, i, d, j, rel in pairs:
            if rel == 0:
                continue
            cd, dd = dh.get_cell_dofs(c), dh.get_cell_dofs(d)
            a, b = CORNERS[i], CORNERS[(i + 1) % 4]
            sup = []
            for x, q in zip(cd, nd):
                t = np.dot(q - a, b - a)
                if np.abs(a + t * (b - a) - q).max() < 1e-9:
                    sup.append((x, round(float(t), 6)))
            p, q2 = CORNERS[j], CORNERS[(j + 1) % 4]
            for x, q in zip(dd, nd):
                s = np.dot(q - p, q2 - p)
                if np.abs(p + s * (q2 - p) - q).max() < 1e-9:
                    t = 0.5 * (1 - s) + 0.5 * (rel - 1)
                    if min(abs(t - v) for _, v in sup) > 1e-6:
                        want[x] = {}
                        for y, v in sup:    # one dof may sit at both ends of an edge that closes on itself
                            want[x][y] = want[x].get(y, 0) + float(L[v](t))
        ctx.ok('constrained-set', set(got) == set(want), lambda: '%s: constrained dofs %s, expected %s' %
               (what, sorted(set(got) - set(want))[:5], sorted(set(want) - set(got))[:5]))
        for x in want:
            if x in got:
                sup, co = got[x]
                ctx.ok('support', set(sup) == set(want[x]) and len(sup) == len(co) and len(sup) == (len(set(sup)) if not small else len(sup)),
                       lambda: '%s: dof %s supported by %s, expected %s' % (what, x, sup, sorted(want[x])))
                got_co = {}
                for y, k in zip(sup, co):
                    got_co[y] = got_co.get(y, 0) + k
                ctx.close('coefficients', [got_co[y] for y in sorted(got_co)], [want[x].get(y, np.nan) for y in sorted(got_co)], 1e-9, 'dof %s %s' % (x, what))
                ctx.close('unity', np.sum(co), 1.0, 1e-9, 'sum of coefficients ' + what)
        if again:
            ctx.ok(again, True, what)
        if want:
            ctx.sig(et, info['type'], G.mesh_sig(mesh, flag))
        functions(ctx, rng, mesh, dh, et, deg, nd, lv, pairs, got, what)


def functions(ctx, rng, mesh, dh, et, deg, nd, lv, pairs, got, what):
    u = {}
    for c in lv:
        for x in dh.get_cell_dofs(c):
            u.setdefault(x, float(rng.normal()))
    for x, (sup, co) in got.items():
        ctx.ok('support', not any(s in got for s in sup), 'constrained supporting dof ' + what)
        u[x] = float(sum(u[s] * k for s, k in zip(sup, co)))
    if pairs:
        for k in rng.permutation(len(pairs))[:30]:
            c, i, d, j, rel = pairs[k]
            lo, hi = {0: (0, 1), 1: (0, .5), 2: (.5, 1)}[rel]
            a, b = CORNERS[i], CORNERS[(i + 1) % 4]
            p, q = CORNERS[j], CORNERS[(j + 1) % 4]
            xc = a + (lo + (hi - lo) * TS)[:, None] * (b - a)
            xd = q + TS[:, None] * (p - q)
            uc = sum(u[x] * ref_value(2, deg, n, xc) for n, x in enumerate(dh.get_cell_dofs(c)))
            ud = sum(u[x] * ref_value(2, deg, n, xd) for n, x in enumerate(dh.get_cell_dofs(d)))
            ctx.close('continuity', uc, ud, 1e-8, lambda: 'jump across edge %d of %s, %s' % (i, c.get_node_address(), what))
    # linear functions of position satisfy the constraints
    if not mesh.is_periodic():
        g = rng.normal(size=3)
        val = {}
        for c in lv:
            for x, p in zip(dh.get_cell_dofs(c), F.cell_nodes(c, nd)):
                val[x] = g[0] + g[1] * p[0] + g[2] * p[1]
        for x, (sup, co) in got.items():
            ctx.close('reproduction', val[x], sum(val[s] * k for s, k in zip(sup, co)), 1e-9, 'linear function ' + what)
