"""F02: enumeration of degrees of freedom."""
import numpy as np
from vmon import gens as G, topo
from vmon import femgen as F
from vmon.geomodel import GeoModel
from vmon.props.m05 import graded
from fem import QuadFE, DofHandler

RULE = ('A case is one element on one balanced mesh (interval, periodic, structured and unstructured quads) with up to two '
        'submeshes, numbered once or incrementally; dofs of all cells are compared with the coincidence of node positions. '
        'Non-trivial: at least two leaves; distinct by element, mesh and submesh.')
REQUIRED = {'same-position-same-dof': 3000, 'same-dof-same-position': 3000, 'torn-unique': 2000, 'count': 300, 'contiguous': 150,
            'vertices': 300, 'entity': 2000, 'region': 800, 'incremental': 50, 'sorted': 300, 'unbalanced': 20}
ASSUMPTIONS = ['meshes are 2:1 balanced, as the numbering demands']


def cases(tier):
    k = 2 if tier == 'quick' else 12
    return ([{'kind': 'quad'} for _ in range(130 * k)] + [{'kind': 'periodic'} for _ in range(40 * k)] +
            [{'kind': '1d'} for _ in range(60 * k)] + [{'kind': '1dper'} for _ in range(25 * k)] +
            [{'kind': 'unbalanced'} for _ in range(20 * k)])


def unbalanced(rng, ctx):
    """Dofs of unbalanced meshes are refused, and given out once the mesh is balanced."""
    box, per = None, ()
    if rng.uniform() < 0.3:
        mesh, info = G.mesh_periodic(rng, nmax=3)
        box, per = info['box'], info['per']
    else:
        mesh, info = G.mesh2d(rng)
    graded(rng, mesh, None, int(rng.integers(1, 4)))
    bad = GeoModel(mesh, None, box, per).unbalanced()
    el, et, nd = F.element(rng, 2)
    dh = DofHandler(mesh, el)
    if bad:
        ctx.raises('unbalanced', dh.distribute_dofs, Exception, 'numbering of an unbalanced mesh %s' % info)
        ctx.ok('unbalanced', all(dh.get_cell_dofs(c) is None for c in mesh.cells.get_leaves()), 'dofs on an unbalanced mesh %s' % info)
        mesh.balance()
    dh.distribute_dofs()
    wrap = topo.Wrap(box, per) if box is not None else topo.Wrap()
    lv = F.leaves(mesh)
    want = len(lv) * len(nd) if el.torn_element() else len({wrap.key(p) for c in lv for p in F.cell_nodes(c, nd)})
    ctx.ok('count', dh.n_dofs() == want, lambda: '%s %s: %d dofs, expected %d' % (et, info, dh.n_dofs(), want))
    ctx.sig('unbalanced', et, sorted(G.address(c) for c in lv))


def run(case, ctx):
    rng = ctx.rng
    if case['kind'] == 'unbalanced':
        return unbalanced(rng, ctx)
    while True:
        mesh, wrap, info, flags = F.fem_mesh(rng, case['kind'])
        if True:
            break
    dim = mesh.dim()
    el, et, nd = F.element(rng, dim)
    dh = DofHandler(mesh, el)
    order = list(flags)
    if rng.uniform() < 0.5:
        order = [order[i] for i in rng.permutation(len(order))]
    order = order[:int(rng.integers(1, len(order) + 1))]
    what = '%s %s numbering %s' % (et, info, order)
    done = []
    before = {}
    if rng.uniform() < 0.35:
        # numbered once before the mesh is refined further
        first = flags[int(rng.integers(0, len(flags)))]
        dh.distribute_dofs(subforest_flag=first)
        for c in mesh.cells.traverse(flag=first):
            before[c] = list(dh.get_cell_dofs(c))
        if rng.uniform() < 0.3:
            dh.clear_dofs()
            before = {}
            what += ' cleared'
        else:
            what += ' after ' + str(first)
        G.random_refine(rng, mesh, 1, 0.4, maxcells=60, balance=dim == 2)
        if rng.uniform() < 0.4:
            G.refine_label(rng, mesh, None, 'u', 0.3)
            if dim == 2:
                mesh.balance(subforest_flag='u')
                mesh.balance()
            order.insert(int(rng.integers(0, len(order) + 1)), 'u')
    fresh = not before
    for flag in order:
        dh.distribute_dofs(subforest_flag=flag)
        done.append(flag)
        for c, d in before.items():
            ctx.ok('incremental', list(dh.get_cell_dofs(c)) == d, lambda: '%s: dofs of cell %s changed from %s to %s' %
                   (what, c.get_node_address(), d, dh.get_cell_dofs(c)))
        for fl in done:
            for c in mesh.cells.traverse(flag=fl):
                if c not in before:
                    before[c] = list(dh.get_cell_dofs(c))
    # every pair of cells that was numbered, all levels for continuous elements, leaves for torn ones
    pos = {}
    for c, d in before.items():
        pos[c] = [wrap.key(p) for p in F.cell_nodes(c, nd)]
        ctx.ok('count', len(d) == el.n_dofs() and None not in d and len(set(d)) == (len(d) if el.torn_element() else len(set(pos[c]))),
               lambda: '%s cell %s: %s' % (what, c.get_node_address(), d))
    allv = {x for d in before.values() for x in d}
    if order == [None] and fresh:
        ctx.ok('contiguous', allv == set(range(len(allv))), lambda: '%s: dofs %s' % (what, sorted(allv)[-5:]))
        ctx.ok('contiguous', dh.n_dofs(all_dofs=True) == len(allv), 'total number of dofs ' + what)
    if not el.torn_element():
        at, of = {}, {}
        for c, d in before.items():
            for x, p in zip(d, pos[c]):
                ctx.ok('same-position-same-dof', at.setdefault(p, x) == x, lambda: '%s: two dofs %s, %s in one point; cell %s' %
                       (what, at[p], x, c.get_node_address()))
                ctx.ok('same-dof-same-position', of.setdefault(x, p) == p, lambda: '%s: dof %s in two points; cell %s' %
                       (what, x, c.get_node_address()))
    for flag in done:
        lv = F.leaves(mesh, flag)
        used = {}
        for c in lv:
            for x, p in zip(before[c], pos[c]):
                used.setdefault(x, []).append((c, p))
        if el.torn_element():
            for x, l in used.items():
                ctx.ok('torn-unique', len(l) == 1, lambda: '%s: dof %s used by %d finest cells' % (what, x, len(l)))
        n = len(used)
        ctx.ok('count', dh.n_dofs(subforest_flag=flag) == n, lambda: '%s: n_dofs %s, expected %d' % (what, dh.n_dofs(subforest_flag=flag), n))
        if not el.torn_element():
            ctx.ok('count', n == len({p for l in used.values() for _, p in l}), 'number of distinct nodes ' + what)
        dofs = dh.get_region_dofs(subforest_flag=flag)
        ctx.ok('sorted', dofs == sorted(used), lambda: '%s: region dofs sub=%s %s..., expected %s...' % (what, flag, dofs[:9], sorted(used)[:9]))
        xv = dh.get_dof_vertices(subforest_flag=flag)
        got = [wrap.key(p) for p in np.atleast_2d(xv)]
        ctx.ok('vertices', got == [used[x][0][1] for x in dofs], lambda: '%s sub=%s: dof vertices %s' % (what, flag, xv[:3]))
        sub = [int(x) for x in rng.permutation(dofs)[:3]]
        ctx.ok('vertices', [wrap.key(p) for p in np.atleast_2d(dh.get_dof_vertices(sub))] == [used[x][0][1] for x in sub],
               lambda: '%s: vertices of dofs %s' % (what, sub))
        # single dofs, lists of points, and positions as seen from a given cell (they differ across periodic boundaries)
        ctx.ok('vertices', wrap.key(np.ravel(dh.get_dof_vertices(sub[0]))) == used[sub[0]][0][1], 'vertex of a single dof ' + what)
        ctx.ok('vertices', [wrap.key(np.ravel(p)) for p in dh.get_dof_vertices(sub, as_array=False)] == [used[x][0][1] for x in sub],
               'list of vertices ' + what)
        c = lv[int(rng.integers(0, len(lv)))]
        part = [int(i) for i in rng.permutation(len(before[c]))[:4]]
        part = [i for i in part if before[c].count(before[c][i]) == 1]     # a cell that spans the period has dofs in two places
        rest = [x for x in sub if x not in before[c]]
        if part or rest:
            xv = np.atleast_2d(dh.get_dof_vertices([before[c][i] for i in part] + rest, cells={before[c][i]: c for i in part}))
            ctx.close('vertices', xv[:len(part)].reshape(len(part), dim), F.cell_nodes(c, nd)[part].reshape(len(part), dim), 1e-9, 'vertices seen from cell %s %s' %
                      (c.get_node_address(), what))
            ctx.ok('vertices', [wrap.key(np.ravel(p)) for p in xv[len(part):]] == [used[x][0][1] for x in rest], 'vertices of other dofs ' + what)
        if len(lv) > 1:
            ctx.sig(et, info['type'], G.mesh_sig(mesh, flag))
    entities(ctx, rng, mesh, dh, el, nd, before, done, what)
    ctx.note(what + ' leaves %d dofs %d' % (len(mesh.cells.get_leaves()), len(allv)))


def on_segment(p, a, b):
    return G.dist_segment(p, a, b) < 1e-9


def entities(ctx, rng, mesh, dh, el, nd, before, done, what):
    dim = mesh.dim()
    deg = el.polynomial_degree()
    dpv = el.n_dofs('vertex')
    cells = list(before)
    for c in [cells[int(rng.integers(0, len(cells)))] for _ in range(3)]:
        d = before[c]
        for typ in ('global', 'local'):
            ref = d if typ == 'global' else list(range(len(d)))
            ctx.ok('entity', list(dh.get_cell_dofs(c, c, doftype=typ)) == ref and list(dh.get_cell_dofs(c, doftype=typ)) == ref, what)
            inner = [x for x, q in zip(ref, nd) if all(0 < v < 1 for v in q)]
            ctx.ok('entity', list(dh.get_cell_dofs(c, c, interior=True, doftype=typ)) == inner, lambda: 'interior dofs %s: %s, expected %s' %
                   (what, dh.get_cell_dofs(c, c, interior=True, doftype=typ), inner))
            for i, v in enumerate(c.get_vertices()):
                ctx.ok('entity', list(dh.get_cell_dofs(c, v, doftype=typ)) == ([ref[i]] if dpv else []), 'vertex dofs ' + what)
            if dim == 2 and deg > 0:
                corners = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])
                for i, he in enumerate(c.get_half_edges()):
                    a, b = corners[i], corners[(i + 1) % 4]
                    on = [x for x, q in zip(ref, nd) if on_segment(q, a, b)[0]]
                    ins = [x for x, q in zip(ref, nd) if on_segment(q, a, b)[0] and np.abs(q - a).max() > 0 and np.abs(q - b).max() > 0]
                    # order along the edge
                    ins.sort(key=lambda x: np.abs(nd[ref.index(x)] - a).sum())
                    g1 = list(dh.get_cell_dofs(c, he, doftype=typ))
                    g2 = list(dh.get_cell_dofs(c, he, interior=True, doftype=typ))
                    ctx.ok('entity', sorted(g1) == sorted(on), lambda: 'edge %d dofs %s, expected %s %s' % (i, g1, on, what))
                    ctx.ok('entity', g2 == ins, lambda: 'edge %d interior dofs %s, expected %s %s' % (i, g2, ins, what))
    # regions
    types = ['vertex', 'cell'] + (['half_edge'] if dim == 2 and deg > 0 else [])
    lookup = {c: dict(zip(map(tuple, nd), d)) for c, d in before.items()}
    for flag in done:
        for typ in types:
            for onb in ((False, True) if not mesh.is_periodic() else (False,)):
                mk = None
                if rng.uniform() < 0.6:
                    mk = ('m', typ, str(flag), onb)
                    if dim == 2:
                        x0, x1, y0, y1 = mesh.bounding_box()
                        c0 = rng.uniform(x0, x1)
                        f = lambda x, y: x < c0
                    else:
                        x0, x1 = mesh.bounding_box()
                        c0 = rng.uniform(x0, x1)
                        f = lambda x: x < c0
                    mesh.mark_region(mk, f, entity_type=typ, on_boundary=onb, subforest_flag=flag,
                                     strict_containment=bool(rng.uniform() < 0.5))
                for inter in (False, True):
                    want = set()
                    for e, c in mesh.get_region(mk, typ, on_boundary=onb, subforest_flag=flag, return_cells=True):
                        want |= set(expected(c, e, typ, inter, nd, before[c], dpv))
                    got = dh.get_region_dofs(entity_type=typ, entity_flag=mk, interior=inter, on_boundary=onb, subforest_flag=flag)
                    ctx.ok('region', got == sorted(want), lambda: 'region dofs %s flag=%s interior=%s boundary=%s sub=%s: %s, expected %s %s' %
                           (typ, mk, inter, onb, flag, got[:12], sorted(want)[:12], what))


def expected(c, e, typ, inter, nd, d, dpv):
    if typ == 'cell':
        return [x for x, q in zip(d, nd) if not inter or all(0 < v < 1 for v in q)]
    vs = c.get_vertices()
    if typ == 'vertex':
        return [d[i] for i, v in enumerate(vs) if v is e] if dpv else []
    corners = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])
    i = [k for k, h in enumerate(c.get_half_edges()) if h is e][0]
    a, b = corners[i], corners[(i + 1) % 4]
    return [x for x, q in zip(d, nd) if on_segment(q, a, b)[0] and
            (not inter or (np.abs(q - a).max() > 0 and np.abs(q - b).max() > 0))]
