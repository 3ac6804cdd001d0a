"""M03: leaves of every submesh tile the domain; refinement bisects geometrically."""
import numpy as np
from vmon import gens as G, topo

RULE = ('A case is one mesh and refinement history with up to three submeshes; monitors compare leaf areas, shapes and '
        'coverage of random points with an independent geometric model. Non-trivial: two or more levels; distinct by '
        'mesh type and leaf addresses.')
REQUIRED = {'measure': 500, 'children': 2000, 'cover': 10000, 'shape': 3000, 'box': 200, 'interval': 1000, 'relabel': 150}


def cases(tier):
    k = 2 if tier == 'quick' else 12
    return [{'kind': 'quad'} for _ in range(150 * k)] + [{'kind': '1d'} for _ in range(60 * k)] + \
        [{'kind': 'periodic'} for _ in range(40 * k)] + [{'kind': 'interval'} for _ in range(20 * k)]


def run_interval(ctx):
    """A single interval split into any number of equal parts."""
    rng = ctx.rng
    root, nodes, (a, b), n = G.interval_tree(rng)
    ctx.ok('interval', len(list(root.traverse(mode="breadth-first"))) == len(nodes) and
           {id(c) for c in root.traverse()} == {id(c) for c in nodes.values()}, 'nodes of the tree')
    for (lo, hi), c in nodes.items():
        ends = np.array([c.base().coordinates()[0], c.head().coordinates()[0]])
        ctx.close('interval', ends, [a + float(lo) * (b - a), a + float(hi) * (b - a)], 1e-12, 'part %s-%s of (%s, %s), %d children' % (lo, hi, a, b, n))
        ctx.ok('interval', c.n_children() == n and c.get_vertices() == [c.base(), c.head()], 'children of parts')
        for k in c.get_children():
            t, w = c.subcell_position(k)
            ctx.close('interval', [t, w], [(k.base().coordinates()[0] - ends[0]) / (ends[1] - ends[0]),
                                           (k.head().coordinates()[0] - k.base().coordinates()[0]) / (ends[1] - ends[0])], 1e-9, 'position in the parent')
    lv = sorted([(k, c) for k, c in nodes.items() if not c.has_children()], key=lambda p: p[0])
    ctx.ok('interval', all(lv[i][1].head() is lv[i + 1][1].base() for i in range(len(lv) - 1)), 'parts share their end points')
    x = rng.uniform(a, b, 12)
    inside = np.array([np.asarray(c.contains_points(x[:, None])).ravel() for _, c in lv])
    ctx.ok('interval', (inside.sum(axis=0) == 1).all(), lambda: 'points in %s parts' % inside.sum(axis=0))
    ctx.sig('interval', n, sorted(map(str, nodes)))
    ctx.note('interval (%s, %s), %d children, %d parts' % (a, b, n, len(lv)))


def run(case, ctx):
    rng = ctx.rng
    if case['kind'] == 'interval':
        return run_interval(ctx)
    if case['kind'] == 'quad':
        mesh, info = G.mesh2d(rng)
    elif case['kind'] == 'periodic':
        mesh, info = G.mesh_periodic(rng)
    else:
        mesh, info = G.mesh1d(rng, periodic=rng.uniform() < 0.2)
    dim = mesh.dim()
    roots = [mesh.cells.get_child(i) for i in range(mesh.cells.n_children())]
    if dim == 2:
        shapes = [G.cell_xy(c) for c in roots]
        total = sum(G.poly_area(s) for s in shapes)
        allp = np.vstack(shapes)
        want = (allp[:, 0].min(), allp[:, 0].max(), allp[:, 1].min(), allp[:, 1].max())
    else:
        shapes = [np.array([c.base().coordinates()[0], c.head().coordinates()[0]]) for c in roots]
        total = sum(s[1] - s[0] for s in shapes)
        want = (min(s[0] for s in shapes), max(s[1] for s in shapes))
        if 'box' in info:
            ctx.close('box', total, info['box'][1] - info['box'][0], 1e-12, 'interval length')
    if 'box' in info and dim == 2:
        b = info['box']
        ctx.close('measure', total, (b[1] - b[0]) * (b[3] - b[2]), 1e-12, 'area of the box')
        ctx.close('box', mesh.bounding_box(), b, 1e-12, 'bounding box')
        ctx.ok('shape', mesh.cells.n_children() == info['nx'] * info['ny'], 'number of cells')
    ctx.close('box', mesh.bounding_box(), want, 1e-12, 'bounding box')
    labels = [None]
    prev = None
    if rng.uniform() < 0.7:
        mesh.record('s0')
        labels.append('s0')
        prev = 's0'
    for i in range(int(rng.integers(1, 5))):
        if len(mesh.cells.get_leaves()) > 150:
            break
        u = rng.uniform()
        if u < 0.4 or prev is None:
            G.random_refine(rng, mesh, 1, float(rng.uniform(0.1, 0.6)))
        elif u < 0.6:
            new = 's%d' % (i + 1)
            G.refine_label(rng, mesh, prev, new, float(rng.uniform(0.1, 0.6)))
            labels.append(new)
            if rng.uniform() < 0.6:
                prev = new
        elif u < 0.8:
            # a submesh is refined or balanced itself, perhaps where the mesh is finer already
            lab = labels[int(rng.integers(1, len(labels)))]
            if rng.uniform() < 0.7:
                G.refine_label(rng, mesh, lab, None, float(rng.uniform(0.2, 0.8)))
            elif dim == 2:
                mesh.balance(subforest_flag=lab)
            else:
                mesh.cells.refine(subforest_flag=lab)
            ctx.tick('relabel')
        else:
            lab = labels[int(rng.integers(1, len(labels)))]
            br = [c for c in mesh.cells.traverse(flag=lab) if c.has_children(flag=lab)]
            if br:
                br[int(rng.integers(0, len(br)))].mark('__c')
                new = 'c%d' % (i + 1) if rng.uniform() < 0.5 else None
                mesh.cells.coarsen(subforest_flag=lab, coarsening_flag='__c', new_label=new)
                if new:
                    labels.append(new)
                ctx.tick('relabel')
        if rng.uniform() < 0.2:
            br = [c for c in topo.all_cells(mesh) if c.has_children()]
            if br:
                br[int(rng.integers(0, len(br)))].mark('__c')
                mesh.cells.coarsen(coarsening_flag='__c')
    # children geometry
    for c in topo.all_cells(mesh):
        if dim == 2:
            xy = G.cell_xy(c)
            ctx.close('measure', c.area(), G.poly_area(xy), 1e-11, 'cell area')
            ctx.ok('shape', G.poly_area(xy) > 0, 'orientation')
            bb = c.bounding_box()
            ctx.close('box', bb, (xy[:, 0].min(), xy[:, 0].max(), xy[:, 1].min(), xy[:, 1].max()), 1e-12, 'cell box')
            hes = c.get_half_edges()
            for i, he in enumerate(hes):
                d = xy[(i + 1) % 4] - xy[i]
                ctx.close('shape', he.length(), np.hypot(*d), 1e-12, 'edge length')
                ctx.close('shape', he.to_vector(), d, 1e-12, 'edge vector')
                ctx.close('shape', he.unit_normal(), np.array([d[1], -d[0]]) / np.hypot(*d), 1e-10, 'outward normal')
            if c.has_children():
                ref = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])
                for i in range(4):
                    k = G.cell_xy(c.get_child(i))
                    r = 0.5 * ref + 0.5 * ref[i]
                    ctx.close('children', k, G.bilinear(xy, r), 1e-11, 'child %d of %s' % (i, c.get_node_address()))
        else:
            a, b = c.base().coordinates()[0], c.head().coordinates()[0]
            ctx.close('measure', c.length(), b - a, 1e-12, 'interval length') if False else None
            if c.has_children():
                n = c.n_children()
                for i in range(n):
                    k = c.get_child(i)
                    ctx.close('children', [k.base().coordinates()[0], k.head().coordinates()[0]],
                              [a + i * (b - a) / n, a + (i + 1) * (b - a) / n], 1e-12, 'child interval')
    # random points of the domain
    pts, home = [], []
    for _ in range(25):
        j = int(rng.integers(0, len(roots)))
        if dim == 2:
            pts.append(G.bilinear(shapes[j], rng.uniform(0, 1, (1, 2)))[0])
        else:
            pts.append(shapes[j][0] + rng.uniform() * (shapes[j][1] - shapes[j][0]))
        home.append(j)
    for lab in labels:
        leaves = mesh.cells.get_leaves(subforest_flag=lab)
        if dim == 2:
            S = [G.cell_xy(c) for c in leaves]
            ctx.close('measure', sum(c.area() for c in leaves), total, 1e-10, 'sum of leaf areas of %s' % lab, scale=total)
            for p, j in zip(pts, home):
                d = np.array([G.in_quad(s, p)[0] for s in S])
                if np.min(np.abs(d)) < 1e-8:
                    continue
                inside = np.flatnonzero(d > 0)
                ctx.ok('cover', len(inside) == 1, 'point %s lies in %d leaves of %s' % (p, len(inside), lab))
                if len(inside) == 1:
                    ctx.ok('cover', leaves[inside[0]].get_root() is roots[j], 'leaf outside its root')
                    ctx.ok('cover', bool(leaves[inside[0]].contains_points(np.array([p]))[0]), 'contains_points')
                    o = int(rng.integers(0, len(leaves)))
                    if o != inside[0]:
                        ctx.ok('cover', not leaves[o].contains_points(np.array([p]))[0], 'foreign leaf contains point')
        else:
            S = [(c.base().coordinates()[0], c.head().coordinates()[0]) for c in leaves]
            ctx.close('measure', sum(b - a for a, b in S), total, 1e-11, 'sum of leaf lengths')
            for p in pts:
                d = np.array([min(p - a, b - p) for a, b in S])
                if np.min(np.abs(d)) < 1e-9:
                    continue
                ctx.ok('cover', np.sum(d > 0) == 1, 'point %s in %d leaves' % (p, np.sum(d > 0)))
    if mesh.cells.depth() > 0:
        ctx.sig(case['kind'], info['type'], [G.mesh_sig(mesh, l) for l in labels])
    ctx.note('%s labels=%s leaves=%s' % (info, labels, [len(mesh.cells.get_leaves(subforest_flag=l)) for l in labels]))
