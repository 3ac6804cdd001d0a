"""M04: half-edge topology and vertex sharing under any refinement/coarsening history (2D), links in 1D."""
import numpy as np
from vmon import gens as G, topo
from mesh import HalfEdge, Vertex

RULE = ('A case is one mesh (rectangle, affine or jittered grid, L-shape, 3-6 quads about a point, ring, periodic box, '
        'interval mesh) with a history of refinements in random order and deletions; the complete half-edge structure is '
        'compared with adjacency computed from corner coordinates after every step. Non-trivial: two or more levels; '
        'distinct by mesh type and leaf addresses.')
REQUIRED = {'cycle': 5000, 'twin': 5000, 'twin-none': 1000, 'subedges': 1000, 'vertex-identity': 300, 'interval-links': 300,
            'periodic-twin': 300, 'free-edge': 300, 'after-deletion': 120}
ASSUMPTIONS = []


def cases(tier):
    k = 2 if tier == 'quick' else 12
    return ([{'kind': 'quad'} for _ in range(150 * k)] + [{'kind': 'coarsen'} for _ in range(200 * k)] +
            [{'kind': 'periodic'} for _ in range(60 * k)] + [{'kind': 'interval'} for _ in range(60 * k)] + [{'kind': 'free'} for _ in range(30 * k)])


def check_quads(ctx, mesh, wrap, tag=None):
    cells = topo.all_cells(mesh)
    ids = {id(c) for c in cells}
    tab = topo.edge_table(cells, wrap)
    verts = {}
    for c in cells:
        hes = c.get_half_edges()
        vs = c.get_vertices()
        ctx.ok('cycle', len(hes) == 4 and len(vs) == 4, 'four edges')
        for i in range(4):
            he, nx = hes[i], hes[(i + 1) % 4]
            good = (he.cell() is c and he.next() is nx and nx.previous() is he and he.head() is nx.base()
                    and he.base() is vs[i] and c.get_vertex(i) is vs[i] and c.get_half_edge(i) is he)
            ctx.ok('cycle', good, lambda: 'cell %s edge %d' % (c.get_node_address(), i))
            ctx.ok('cycle', c.incident_half_edge(vs[i], reverse=True) is he and
                   c.incident_half_edge(nx.base()) is he, 'incident edges')
            opp = topo.across(tab, wrap, c, i)
            t = he.twin()
            if len(opp) == 0:
                if t is not None:
                    tc = t.cell()
                    # a twin without a live cell on the other side is stale
                    ctx.ok('twin-none', tc is None, lambda: 'cell %s edge %d: twin belongs to %s, no cell there' % (
                        c.get_node_address(), i, None if tc is None else tc.get_node_address()))
                else:
                    ctx.ok('twin-none', True)
            elif len(opp) == 1:
                good = t is not None and t.cell() is opp[0] and t.twin() is he
                ctx.ok('twin', good, lambda: 'cell %s edge %d: twin %s expected cell %s' % (
                    c.get_node_address(), i, None if t is None or t.cell() is None else t.cell().get_node_address(),
                    opp[0].get_node_address()))
                if good:
                    if he.is_periodic():
                        ctx.tick('periodic-twin')
                        ctx.ok('periodic-twin', t.is_periodic(), 'twin of periodic edge is periodic')
                    else:
                        ctx.ok('twin', t.base() is he.head() and t.head() is he.base(), 'twin shares end vertices')
            if c.has_children():
                # sub-edges of the edge bound the children; their midpoint is the edge midpoint
                k0, k1 = he.get_child(0), he.get_child(1)
                mid = 0.5 * (np.array(he.base().coordinates()) + np.array(he.head().coordinates()))
                good = (k0 is not None and k1 is not None and k0.base() is he.base() and k1.head() is he.head()
                        and k0.head() is k1.base() and np.allclose(k0.head().coordinates(), mid, atol=1e-12, rtol=1e-12)
                        and k0.get_parent() is he and k1.get_parent() is he
                        and k0.cell() is c.get_child(i) and k1.cell() is c.get_child((i + 1) % 4))
                ctx.ok('subedges', good, lambda: 'cell %s edge %d sub-edges' % (c.get_node_address(), i))
                if t is not None and t.cell() is not None and id(t.cell()) in ids and t.cell().has_children() and good:
                    good = (k0.twin() is t.get_child(1) and k1.twin() is t.get_child(0))
                    ctx.ok('subedges', good, 'sub-edge twins of %s edge %d' % (c.get_node_address(), i))
        for v in vs:
            verts.setdefault(tuple(topo.quant(x) for x in v.coordinates()), set()).add(id(v))
    bad = [p for p, s in verts.items() if len(s) > 1]
    ctx.ok('vertex-identity', not bad, lambda: 'several vertices at %s' % bad[:3])
    # number of distinct half-edges = 4 * cells: no half-edge is shared between cells
    hs = [id(h) for c in cells for h in c.get_half_edges()]
    ctx.ok('cycle', len(set(hs)) == len(hs), 'a half-edge bounds two cells')
    if tag:
        ctx.tick(tag)
    return cells


def run(case, ctx):
    rng = ctx.rng
    kind = case['kind']
    if kind == 'interval':
        return run_interval(case, ctx)
    if kind == 'free':
        return run_free(case, ctx)
    wrap = topo.Wrap()
    if kind == 'periodic':
        mesh, info = G.mesh_periodic(rng, nmax=3)
        wrap = topo.Wrap(info['box'], info['per'])
    else:
        mesh, info = G.mesh2d(rng)
    check_quads(ctx, mesh, wrap)
    hist = []
    for s in range(int(rng.integers(2, 7))):
        leaves = mesh.cells.get_leaves()
        if len(leaves) > 110:
            break
        r = rng.uniform()
        if kind == "coarsen" and mesh.cells.depth() > 0 and r < 0.5:
            br = [c for c in topo.all_cells(mesh) if c.has_children()]
            c = br[int(rng.integers(0, len(br)))]
            if rng.uniform() < 0.5:
                c.delete_children()
                hist.append('delete%s' % c.get_node_address())
            else:
                c.mark('__c')
                mesh.cells.coarsen(coarsening_flag='__c')
                hist.append('coarsen%s' % c.get_node_address())
            check_quads(ctx, mesh, wrap, 'after-deletion')
        elif r < 0.5:
            # split single cells in random order
            for _ in range(int(rng.integers(1, 6))):
                leaves = mesh.cells.get_leaves()
                c = leaves[int(rng.integers(0, len(leaves)))]
                c.split()
                hist.append('split%s' % c.get_node_address())
            check_quads(ctx, mesh, wrap)
        else:
            G.random_refine(rng, mesh, 1, float(rng.uniform(0.1, 0.8)))
            hist.append('refine')
            check_quads(ctx, mesh, wrap)
        if ctx.violations:
            break
    if mesh.cells.depth() >= 1:
        ctx.sig(kind, info['type'], G.mesh_sig(mesh))
    ctx.stat('cells', len(topo.all_cells(mesh)))
    ctx.note('%s %s' % (info, hist[:8]))


def run_interval(case, ctx):
    rng = ctx.rng
    per = rng.uniform() < 0.3
    if per:
        mesh, info = G.mesh1d(rng, periodic=True)
    else:
        mesh, info = G.mesh1d(rng)
    for s in range(int(rng.integers(1, 6))):
        G.random_refine(rng, mesh, 1, float(rng.uniform(0.1, 0.8)))
        cells = topo.all_cells(mesh)
        pts = {}
        for c in cells:
            a, b = c.get_vertices()
            ctx.ok('interval-links', c.base() is a and c.head() is b and c.get_vertex(0) is a and c.get_vertex(1) is b
                   and a.coordinates()[0] < b.coordinates()[0], 'end points')
            for v in (a, b):
                pts.setdefault(topo.quant(v.coordinates()[0]), set()).add(id(v))
            if c.has_children():
                k0, k1 = c.get_child(0), c.get_child(1)
                ctx.ok('interval-links', k0.base() is a and k1.head() is b and k0.head() is k1.base()
                       and k0.next() is k1 and k1.previous() is k0
                       and abs(k0.head().coordinates()[0] - 0.5 * (a.coordinates()[0] + b.coordinates()[0])) < 1e-12,
                       'children of %s' % c.get_node_address())
        n = mesh.cells.n_children()
        for i in range(n - 1):
            ctx.ok('interval-links', mesh.cells.get_child(i).next() is mesh.cells.get_child(i + 1)
                   and mesh.cells.get_child(i + 1).previous() is mesh.cells.get_child(i), 'roots linked')
        ctx.ok('vertex-identity', all(len(s) == 1 for s in pts.values()), 'interval vertices shared')
        if ctx.violations:
            break
    ctx.sig('interval', per, info['n'], G.mesh_sig(mesh))
    ctx.note('%s leaves=%d' % (info, len(mesh.cells.get_leaves())))


def run_free(case, ctx):
    """An edge outside any mesh: twins made at any level, splits on both sides in any order."""
    rng = ctx.rng
    pts = [tuple(float(v) for v in rng.normal(size=2)) for _ in range(2)]
    he = HalfEdge(Vertex(pts[0]), Vertex(pts[1]))
    one = {(): he}                       # position along the edge (sequence of halves) -> half-edge
    two = {}
    hist = []
    flip = lambda a: tuple(1 - i for i in a)
    for _ in range(int(rng.integers(3, 14))):
        side = one if not two or rng.uniform() < 0.6 else two
        a = list(side)[int(rng.integers(0, len(side)))]
        h = side[a]
        if side is one and rng.uniform() < 0.4:
            # a twin for an edge that has none, when its parent has one or it has no parent
            if h.twin() is None and (a == () or one[a[:-1]].twin() is not None) and not (a and two[a[:-1]].has_children()):
                t = h.make_twin()
                hist.append('twin %s' % (a,))
                ctx.ok('free-edge', t is h.twin() and t.twin() is h and t.base() is h.head() and t.head() is h.base(), 'made twin %s %s' % (a, hist))
                if a == ():
                    two[()] = t
                else:
                    p = two[a[:-1]]
                    ctx.ok('free-edge', t.get_parent() is p and t.get_node_position() == 1 - a[-1], lambda: 'twin of %s at position %s of the parent %s' % (
                        a, t.get_node_position(), hist))
                    h.delete_twin()
                    ctx.ok('free-edge', h.twin() is None and t.twin() is h, 'deleted twin ' + str(hist))
            continue
        if h.has_children():
            continue
        h.split()
        hist.append('split %d %s' % (1 if side is one else 2, a))
        k = [h.get_child(0), h.get_child(1)]
        m = (np.ravel(h.base().coordinates()) + np.ravel(h.head().coordinates())) / 2
        ctx.ok('free-edge', k[0].base() is h.base() and k[1].head() is h.head() and k[0].head() is k[1].base() and
               np.allclose(np.ravel(k[0].head().coordinates()), m, atol=1e-12), 'halves of %s %s' % (a, hist))
        ctx.ok('free-edge', all(c.get_parent() is h and c.get_node_position() == i for i, c in enumerate(k)), 'parents of halves ' + str(hist))
        t = h.twin()
        if t is not None and t.has_children():
            ctx.ok('free-edge', all(k[i].twin() is t.get_child(1 - i) and t.get_child(1 - i).twin() is k[i] for i in (0, 1)), 'twins of halves ' + str(hist))
            ctx.ok('free-edge', k[0].head() is t.get_child(0).head(), 'shared midpoint ' + str(hist))
        else:
            ctx.ok('free-edge', all(c.twin() is None for c in k), 'halves without counterparts ' + str(hist))
        for i in (0, 1):
            side[a + ((i if side is one else 1 - i),)] = k[i]
    ctx.sig('free', hist)
