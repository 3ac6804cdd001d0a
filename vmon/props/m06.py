"""M06: neighbor queries."""
import numpy as np
from vmon import gens as G, topo

RULE = ('A case is one refined mesh (2D: rectangular, unstructured, periodic; 1D: interval, periodic); every edge and vertex '
        'neighbor query of sampled cells is compared with adjacency computed from coordinates, with and without a submesh '
        'marker. Non-trivial: two or more levels; distinct by mesh type and leaf addresses.')
REQUIRED = {'edge-neighbor': 5000, 'vertex-neighbor': 3000, 'flagged': 3000, 'symmetric': 2000, 'physical-1d': 1000,
            'periodic-vertex': 300, 'order': 3000, 'level-wise': 3000, 'interval': 1000}
ASSUMPTIONS = []


def cases(tier):
    k = 2 if tier == 'quick' else 12
    return [{'kind': 'quad'} for _ in range(110 * k)] + [{'kind': 'periodic'} for _ in range(50 * k)] + \
        [{'kind': '1d'} for _ in range(80 * k)] + [{'kind': 'interval'} for _ in range(25 * k)]


def run_interval(ctx):
    """Neighbors of the parts of a single interval with any number of children."""
    root, nodes, box, n = G.interval_tree(ctx.rng)
    lv = [c for k, c in sorted(((k, c) for k, c in nodes.items() if not c.has_children()), key=lambda p: p[0])]
    for j, c in enumerate(lv):
        for i, w in ((0, lv[j - 1] if j else None), (1, lv[j + 1] if j + 1 < len(lv) else None)):
            ctx.ok('interval', c.get_neighbor(i) is w and c.get_neighbor(c.get_vertex(i)) is w,
                   'neighbor %d of part %d of %d, %d children' % (i, j, len(lv), n))
    for (lo, hi), c in nodes.items():
        h = hi - lo
        for i, w in ((0, nodes.get((lo - h, lo))), (1, nodes.get((hi, hi + h)))):
            ctx.ok('interval', c.get_neighbor(i, mode='level-wise') is w, 'level-wise neighbor %d of part %s-%s, %d children' % (i, lo, hi, n))
    ctx.sig('interval', n, sorted(map(str, nodes)))
    ctx.note('interval %s, %d children, %d parts' % (box, n, len(lv)))


def same(a, b):
    return sorted(map(id, a)) == sorted(map(id, b))


def run(case, ctx):
    rng = ctx.rng
    if case['kind'] == 'interval':
        return run_interval(ctx)
    if case['kind'] == '1d':
        return run_1d(case, ctx)
    if case['kind'] == 'periodic':
        mesh, info = G.mesh_periodic(rng)
        wrap = topo.Wrap(info['box'], info['per'])
    else:
        mesh, info = G.mesh2d(rng)
        wrap = topo.Wrap()
    G.random_refine(rng, mesh, int(rng.integers(0, 4)), float(rng.uniform(0.2, 0.6)), maxcells=60)
    if rng.uniform() < 0.3:
        br = [c for c in topo.all_cells(mesh) if c.has_children()]
        if br:
            br[int(rng.integers(0, len(br)))].delete_children()
    cells = topo.all_cells(mesh)
    for c in cells:
        if rng.uniform() < 0.5:
            c.mark('f')
    tab = topo.edge_table(cells, wrap)
    pick = cells if len(cells) < 40 else [cells[i] for i in rng.permutation(len(cells))[:40]]
    for c in pick:
        for i in range(4):
            he = c.get_half_edge(i)
            w = topo.across(tab, wrap, c, i)
            nb = c.get_neighbors(he)
            ctx.ok('edge-neighbor', (nb is None and not w) or (len(w) == 1 and nb is w[0]),
                   lambda: 'cell %s edge %d: %s expected %s' % (c.get_node_address(), i, nb and nb.get_node_address(),
                                                                [x.get_node_address() for x in w]))
            nf = c.get_neighbors(he, flag='f')
            wf = [x for x in w if x.is_marked('f')]
            ctx.ok('flagged', (nf is None and not wf) or (len(wf) == 1 and nf is wf[0]), 'flagged edge neighbor')
            if nb is not None and len(w) == 1:
                back = [nb.get_neighbors(h) for h in nb.get_half_edges()]
                ctx.ok('symmetric', any(b is c for b in back), 'edge neighbor is not symmetric')
            v = c.get_vertex(i)
            want = topo.around(tab, wrap, c, wrap.key(v.coordinates()))
            got = c.get_neighbors(v)
            mon = 'periodic-vertex' if v.is_periodic() else 'vertex-neighbor'
            ctx.ok(mon, got is not None and same(got, want), lambda: 'cell %s vertex %d: %s expected %s' % (
                c.get_node_address(), i, [x.get_node_address() for x in got or []],
                [x.get_node_address() for x in want]))
            fan = topo.fan(tab, wrap, c, i)
            if same(fan, want):
                ctx.ok('order', got is not None and len(got) == len(fan) and all(x is y for x, y in zip(got, fan)),
                       lambda: 'cell %s vertex %d: %s, counter-clockwise %s' % (
                           c.get_node_address(), i, [x.get_node_address() for x in got or []],
                           [x.get_node_address() for x in fan]))
            gotf = c.get_neighbors(v, flag='f')
            ctx.ok('flagged', gotf is not None and same(gotf, [x for x in want if x.is_marked('f')]) and
                   gotf == [x for x in got if x in gotf],
                   lambda: 'cell %s vertex %d flagged: %s of %s' % (
                       c.get_node_address(), i, [x.get_node_address() for x in gotf or []],
                       [x.get_node_address() for x in want]))
            if not v.is_periodic() and want:
                k = want[int(rng.integers(0, len(want)))]
                ctx.ok('symmetric', any(x is c for x in k.get_neighbors(v)), 'vertex neighbor is not symmetric')
    if mesh.cells.depth() > 0:
        ctx.sig(case['kind'], info['type'], G.mesh_sig(mesh))
    ctx.note('%s cells=%d' % (info, len(cells)))


def level_key(c):
    """Depth in the forest of trees, and position among the cells of that depth."""
    a = c.get_node_address()
    k = a[0]
    for b in a[1:]:
        k = 2 * k + b
    return len(a) - 1, k


def run_1d(case, ctx):
    rng = ctx.rng
    per = rng.uniform() < 0.4
    mesh, info = G.mesh1d(rng, periodic=per)
    mesh.record('s0')
    labels = [None, 's0']
    for i in range(int(rng.integers(1, 4))):
        G.refine_label(rng, mesh, labels[-1], 's%d' % (i + 1), 0.5)
        labels.append('s%d' % (i + 1))
    if rng.uniform() < 0.5:
        G.random_refine(rng, mesh, 1, 0.5)
    for lab in labels:
        leaves = sorted(mesh.cells.get_leaves(subforest_flag=lab), key=lambda c: c.base().coordinates()[0])
        n = len(leaves)
        for j, c in enumerate(leaves):
            left = leaves[j - 1] if j > 0 else (leaves[-1] if per else None)
            right = leaves[j + 1] if j < n - 1 else (leaves[0] if per else None)
            ctx.ok('physical-1d', c.get_neighbor(0, subforest_flag=lab) is left, 'left neighbor of %s in %s' % (
                c.get_node_address(), lab))
            ctx.ok('physical-1d', c.get_neighbor(1, subforest_flag=lab) is right, 'right neighbor of %s in %s' % (
                c.get_node_address(), lab))
            ctx.ok('physical-1d', c.get_neighbor(c.base(), subforest_flag=lab) is left and
                   c.get_neighbor(c.head(), subforest_flag=lab) is right, 'neighbor about a vertex')
        if not per:
            a, b = mesh.get_boundary_cells(subforest_flag=lab)
            ctx.ok('physical-1d', a is leaves[0] and b is leaves[-1], 'boundary cells of %s' % lab)
        else:
            ctx.ok('physical-1d', mesh.get_boundary_cells(subforest_flag=lab) is None, 'periodic: no boundary')
        # level-wise neighbors: the adjacent cell of the same depth, if the submesh has it
        ctx.ok('level-wise', all(c.n_children() == 2 for r in mesh.cells.get_children()
                                 for c in r.traverse() if c.has_children()), 'intervals have two children')
        nodes = {}
        for r in mesh.cells.get_children():
            for c in r.traverse(flag=lab):
                if lab is None or c.is_marked(lab):
                    nodes[level_key(c)] = c
        for (d, k), c in nodes.items():
            for i, kk in ((0, k - 1), (1, k + 1)):
                if per:
                    kk = kk % (info['n'] * 2**d)
                want = nodes.get((d, kk))
                got = c.get_neighbor(i, subforest_flag=lab, mode='level-wise')
                ctx.ok('level-wise', got is want, 'level-wise neighbor %d of %s in %s: %s instead of %s' % (
                    i, c.get_node_address(), lab, got and got.get_node_address(), want and want.get_node_address()))
    if not per:
        a, b = mesh.get_boundary_vertices()
        ctx.ok('physical-1d', a is mesh.cells.get_child(0).base() and b is mesh.cells.get_child(info['n'] - 1).head(),
               'boundary vertices')
    ctx.sig('1d', per, [G.mesh_sig(mesh, l) for l in labels])
    ctx.note('%s leaves=%s' % (info, [len(mesh.cells.get_leaves(subforest_flag=l)) for l in labels]))
