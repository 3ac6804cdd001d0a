"""M10: meshes represent the grid they are built from (boxes, point lists, connectivity, gmsh files), periodic identification."""
import os
import numpy as np
from vmon import gens as G
from mesh import DCEL, Mesh1D, QuadMesh, Mesh2D, Cell, QuadCell, Vertex

RULE = ('A case is one grid given as a box with resolution (with or without periodic directions), a list of points, points with '
        'connectivity (quads, triangles or both) or a gmsh file written for the case; the edge tables and the mesh objects are '
        'compared with the input. Non-trivial: at least two cells; distinct by kind and sizes.')
REQUIRED = {'points': 300, 'cells': 1500, 'edges': 3000, 'twins': 3000, 'neighbors': 3000, 'boundary': 300, 'periodic': 300,
            'gmsh': 60, 'mesh': 300, 'line': 100}
ASSUMPTIONS = ['each edge belongs to at most two faces and faces are counter-clockwise', 'gmsh files in ASCII format 2.2 with '
               'consecutive node numbers and first-order elements']


def cases(tier):
    k = 6 if tier == 'quick' else 25
    return ([{'kind': 'box'} for _ in range(40 * k)] + [{'kind': 'periodic'} for _ in range(40 * k)] +
            [{'kind': 'quads'} for _ in range(50 * k)] + [{'kind': 'mixed'} for _ in range(40 * k)] +
            [{'kind': 'gmsh'} for _ in range(40 * k)] + [{'kind': 'line'} for _ in range(40 * k)])


def quad_input(rng):
    kind = ['rect', 'jitter', 'lshape', 'star', 'ring', 'two'][int(rng.integers(0, 6))]
    if kind in ('rect', 'jitter'):
        pts, con = G.quad_points_rect(int(rng.integers(1, 5)), int(rng.integers(1, 5)), rng, 0.2 if kind == 'jitter' else 0.0)
    elif kind == 'lshape':
        pts, con = G.quad_lshape(rng)
    elif kind == 'star':
        pts, con = G.quad_star(rng)
    elif kind == 'ring':
        pts, con = G.quad_ring(rng)
    else:                                   # two disconnected pieces
        p1, c1 = G.quad_points_rect(2, 1)
        p2, c2 = G.quad_ring(rng)
        pts = p1 + [(x + 5, y) for x, y in p2]
        con = c1 + [[i + len(p1) for i in c] for c in c2]
    con = G._orient_shuffle(rng, con)
    perm = [int(i) for i in rng.permutation(len(pts))]          # renumber the points
    new = [None] * len(pts)
    for i, p in enumerate(pts):
        new[perm[i]] = p
    con = [[perm[i] for i in c] for c in con]
    return kind, new, con


def check_tables(ctx, d, pts, con, extra_twin=None, what=''):
    """The edge tables against the face connectivity."""
    pts = [tuple(p) for p in pts]
    ctx.ok('points', d.dim() == 2 and d.points['n'] == len(pts), 'number of points ' + what)
    ctx.close('points', np.array(d.points['coordinates'], dtype=float), np.array(pts, dtype=float), 1e-13, 'points ' + what)
    ctx.ok('cells', d.faces['n'] == len(con) and [list(map(int, c)) for c in d.faces['connectivity']] == con,
           'faces ' + what)
    he = d.half_edges
    n = sum(len(c) for c in con)
    ctx.ok('edges', he['n'] == n == len(he['connectivity']), 'number of half-edges ' + what)
    table = {}
    for f, c in enumerate(con):
        i = int(d.faces['half_edge'][f])
        cyc = []
        for _ in range(len(c)):
            cyc.append(i)
            i = int(he['next'][i])
        ctx.ok('edges', i == cyc[0] and len(set(cyc)) == len(c), 'face %d: edges do not close after %d steps %s' % (f, len(c), what))
        ends = [tuple(int(v) for v in he['connectivity'][j]) for j in cyc]
        want = [(c[k], c[(k + 1) % len(c)]) for k in range(len(c))]
        ctx.ok('edges', ends == want, lambda: 'face %d: edges %s, expected %s %s' % (f, ends, want, what))
        for k, j in enumerate(cyc):
            ctx.ok('edges', int(he['face'][j]) == f and int(he['prev'][cyc[(k + 1) % len(c)]]) == j, 'face/prev of edge %d %s' % (j, what))
            table[want[k]] = j
    own = {j: e for e, j in table.items()}
    twin = {}
    for e, j in table.items():
        t = table.get((e[1], e[0]))
        if t is None and extra_twin is not None:
            t2 = extra_twin(e)
            t = table.get(t2) if t2 is not None else None
        twin[j] = t
        got = int(he['twin'][j])
        ctx.ok('twins', got == (-1 if t is None else t), lambda: 'edge %s: twin %s, expected %s %s' % (
            e, own.get(got), own.get(t), what))
        nb = d.get_neighbor(int(he['face'][j]), j)
        wnb = None if t is None else int(he['face'][t])
        ctx.ok('neighbors', nb == wnb, lambda: 'neighbor of face %d across %s: %s, expected %s %s' % (he['face'][j], e, nb, wnb, what))
    bnd = sorted(j for j, t in twin.items() if t is None)
    segs = d.get_boundary_half_edges()
    flat = sorted(int(j) for s in segs for j in s)
    ctx.ok('boundary', flat == bnd, lambda: 'boundary edges %s, expected %s %s' % (flat, bnd, what))
    for s in segs:
        ctx.ok('boundary', all(own[int(s[k])][1] == own[int(s[k + 1])][0] for k in range(len(s) - 1)),
               lambda: 'broken chain %s %s' % ([own[int(j)] for j in s], what))
    bases = [own[j][0] for j in bnd]
    if len(bases) == len(set(bases)):
        starts = sum(1 for s in segs if s and own[int(s[0])][0] != own[int(s[-1])][1])
        closed = len(segs) - starts
        # every chain is maximal
        heads = {own[int(s[-1])][1] for s in segs if s and own[int(s[0])][0] != own[int(s[-1])][1]}
        first = {own[int(s[0])][0] for s in segs if s and own[int(s[0])][0] != own[int(s[-1])][1]}
        ctx.ok('boundary', not (heads & first), lambda: 'chains %s could be joined (%d closed) %s' % (heads & first, closed, what))
        if extra_twin is None:
            bp = sorted(int(i) for i in d.get_boundary_points())
            ctx.ok('boundary', bp == sorted(bases), lambda: 'boundary points %s, expected %s %s' % (bp, sorted(bases), what))
    for i, p in enumerate(pts):
        j = int(d.points['half_edge'][i])
        used = any(i in c for c in con)
        ctx.ok('edges', (own[j][0] == i) if used else j == -1, 'edge of point %d %s' % (i, what))
    return twin, own


def check_mesh(ctx, m, pts, con, twin, own, quad, what):
    ctx.ok('mesh', m.dim() == 2 and m.is_quadmesh() == quad and len(m.vertices) == len(pts), 'mesh attributes ' + what)
    ctx.ok('mesh', [tuple(v.coordinates()) for v in m.vertices] == [tuple(p) for p in m.dcel.points['coordinates']],
           'vertex coordinates ' + what)
    ctx.ok('mesh', m.cells.n_children() == len(con) and m.half_edges.n_children() == sum(map(len, con)) and m.cells.depth() == 0,
           'numbers of cells/edges ' + what)
    a = np.array(pts, dtype=float)
    ctx.close('mesh', np.array(m.bounding_box(), dtype=float),
              np.array([a[:, 0].min(), a[:, 0].max(), a[:, 1].min(), a[:, 1].max()]), 1e-13, 'bounding box ' + what)
    for f, c in enumerate(con):
        cell = m.cells.get_child(f)
        ctx.ok('cells', isinstance(cell, QuadCell) == (len(c) == 4) and isinstance(cell, Cell), 'cell type ' + what)
        ctx.ok('cells', [id(v) for v in cell.get_vertices()] == [id(m.vertices[i]) for i in c],
               lambda: 'cell %d vertices %s' % (f, what))
        ctx.close('cells', cell.area(), G.poly_area(a[c]), 1e-11, 'area of cell %d %s' % (f, what))
    for j, t in twin.items():
        he = m.half_edges.get_child(j)
        ctx.ok('twins', he.twin() is (None if t is None else m.half_edges.get_child(t)), 'twin object of edge %d %s' % (j, what))
        ctx.ok('edges', he.base() is m.vertices[own[j][0]] and he.head() is m.vertices[own[j][1]], 'edge object %d %s' % (j, what))


def run(case, ctx):
    getattr(__import__('vmon.props.m10', fromlist=['x']), 'run_' + case['kind'])(ctx, ctx.rng)


def grid_spec(nx, ny, box):
    """Points and faces of a lexicographically numbered nx-by-ny grid."""
    X, Y = np.linspace(box[0], box[1], nx + 1), np.linspace(box[2], box[3], ny + 1)
    pts = [(X[i], Y[j]) for j in range(ny + 1) for i in range(nx + 1)]
    con = [[j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i]
           for j in range(ny) for i in range(nx)]
    return pts, con


def run_box(ctx, rng):
    nx, ny = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    if rng.uniform() < 0.2:
        nx, ny = [(int(rng.integers(6, 18)), ny), (nx, int(rng.integers(6, 18))), (8, 9)][int(rng.integers(0, 3))]
    box = G.rnd_box2(rng)
    form = int(rng.integers(0, 5))
    kw = dict(box=box, resolution=(nx, ny))
    if form == 0:
        kw = dict(resolution=(nx, ny))
        box = [0, 1, 0, 1]
    elif form == 1:
        kw = dict(box=box)
        nx = ny = 1
    pts, con = grid_spec(nx, ny, box)
    d = DCEL(dim=2, **kw) if form != 1 else DCEL(**kw)
    what = 'box %s %dx%d' % (box, nx, ny)
    twin, own = check_tables(ctx, d, pts, con, what=what)
    m = QuadMesh(dcel=d) if form == 2 else QuadMesh(**kw)
    check_mesh(ctx, m, pts, con, twin, own, True, what)
    ctx.ok('mesh', m.is_rectangular() and not m.is_periodic() and not any(v.is_periodic() for v in m.vertices), what)
    if nx * ny > 1:
        ctx.sig('box', nx, ny, box)
    ctx.note(what)


def run_periodic(ctx, rng):
    per = [{0}, {1}, {0, 1}][int(rng.integers(0, 3))]
    nx = int(rng.integers(1, 6))
    ny = int(rng.integers(1, 6))
    if rng.uniform() < 0.15:
        nx, ny = [(int(rng.integers(6, 14)), ny), (nx, int(rng.integers(6, 14)))][int(rng.integers(0, 2))]
    box = G.rnd_box2(rng)
    pts, con = grid_spec(nx, ny, box)
    d = DCEL(box=box, resolution=(nx, ny), periodic=per, dim=2)
    what = 'periodic %s %dx%d %s' % (sorted(per), nx, ny, box)

    def ij(p):
        return p % (nx + 1), p // (nx + 1)

    def extra(e):
        (i0, j0), (i1, j1) = ij(e[0]), ij(e[1])
        if 0 in per and i0 == i1 and i0 in (0, nx):
            i = nx - i0
            return (j1 * (nx + 1) + i, j0 * (nx + 1) + i)
        if 1 in per and j0 == j1 and j0 in (0, ny):
            j = ny - j0
            return (j * (nx + 1) + i1, j * (nx + 1) + i0)
        return None
    twin, own = check_tables(ctx, d, pts, con, extra, what)
    m = QuadMesh(box=box, resolution=(nx, ny), periodic=per)
    check_mesh(ctx, m, pts, con, twin, own, True, what)
    ctx.ok('periodic', m.is_periodic() and m.is_periodic({0}) == (0 in per) and m.is_periodic({1}) == (1 in per) and
           m.is_periodic({0, 1}) == (per == {0, 1}), 'periodicity query ' + what)
    for j, t in twin.items():
        he = m.half_edges.get_child(j)
        e = own[j]
        cross = t is not None and own[t] != (e[1], e[0])
        ctx.ok('periodic', he.is_periodic() == cross, lambda: 'edge %s periodic mark %s %s' % (e, he.is_periodic(), what))
    # identified vertices: every copy of a point, listed with every root cell that has it
    rep = {}
    for p in range(len(pts)):
        i, j = ij(p)
        rep[p] = (i % nx if 0 in per else i, j % ny if 1 in per else j)
    for p in range(len(pts)):
        v = m.vertices[p]
        i, j = ij(p)
        onp = (0 in per and i in (0, nx)) or (1 in per and j in (0, ny))
        ctx.ok('periodic', v.is_periodic() == onp, 'vertex %d %s' % (p, what))
        if onp:
            got = {(id(c), id(w)) for c, w in v.get_periodic_pair()}
            full = {(id(m.cells.get_child(f)), id(m.vertices[q])) for f, c in enumerate(con) for q in c if rep[q] == rep[p]}
            ctx.ok('periodic', got == full,
                   lambda: 'copies of vertex %s: %d of %d pairs %s' % (pts[p], len(got), len(full), what))
    ctx.sig('per', nx, ny, sorted(per), box)
    ctx.note(what)


def run_quads(ctx, rng):
    kind, pts, con = quad_input(rng)
    form = int(rng.integers(0, 3))
    x = pts if form == 0 else np.array(pts) if form == 1 else [list(p) for p in pts]
    what = '%s quads (%d), points as %s' % (kind, len(con), type(x).__name__)
    x = [tuple(p) for p in x] if form == 2 else x
    d = DCEL(x=x, connectivity=con)
    twin, own = check_tables(ctx, d, pts, con, what=what)
    m = QuadMesh(x=x, connectivity=con)
    check_mesh(ctx, m, pts, con, twin, own, True, what)
    ctx.ok('mesh', not m.is_rectangular() and not m.is_periodic(), what)
    if len(con) > 1:
        ctx.sig('quads', kind, con)
    ctx.note(what)


def run_mixed(ctx, rng):
    """Triangles and quads: split some quads of a grid along a diagonal."""
    kind, pts, con = quad_input(rng)
    out = []
    q = rng.choice([0.3, 1.0])
    for c in con:
        if rng.uniform() < q:
            out += [[c[0], c[1], c[2]], [c[0], c[2], c[3]]]
        else:
            out.append(c)
    what = '%s with %d faces, %d triangles' % (kind, len(out), sum(len(c) == 3 for c in out))
    d = DCEL(x=pts, connectivity=out)
    twin, own = check_tables(ctx, d, pts, out, what=what)
    m = Mesh2D(x=pts, connectivity=out)
    check_mesh(ctx, m, pts, out, twin, own, all(len(c) == 4 for c in out), what)
    ctx.sig('mixed', kind, out)
    ctx.note(what)


def run_gmsh(ctx, rng):
    kind, pts, con = quad_input(rng)
    tri = rng.uniform() < 0.3
    if tri:
        con = [t for c in con for t in ([c[0], c[1], c[2]], [c[0], c[2], c[3]])]
    lines = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat']
    names = []
    if rng.uniform() < 0.5:
        names = [(1, 1, 'rim'), (2, 7, 'bulk'), (1, 3, 'Left Side'), (2, 12, 'Zone 2 (inner)')]
        names = [names[i] for i in rng.permutation(4)[:int(rng.integers(1, 4))]]
        lines += ['$PhysicalNames', str(len(names))] + ['%d %d "%s"' % t for t in names] + ['$EndPhysicalNames']
    lines += ['$Nodes', str(len(pts))]
    lines += ['%d %r %r 0' % (i + 1, float(p[0]), float(p[1])) for i, p in enumerate(pts)] + ['$EndNodes']
    kinds = {'points': [], 'edges': [], 'faces': []}         # (element, tags, end points)
    ntags = {k: int(rng.integers(0, 4)) for k in kinds}

    def element(key, typ, ids):
        t = [int(v) for v in rng.integers(1, 40, ntags[key])]
        kinds[key].append((' '.join(map(str, [typ, len(t)] + t + [i + 1 for i in ids])), t, ids))
    for i in rng.permutation(len(pts))[:int(rng.integers(0, 3))]:
        element('points', 15, [int(i)])
    count = {}
    for c in con:
        for k in range(len(c)):
            e = frozenset((c[k], c[(k + 1) % len(c)]))
            count[e] = count.get(e, 0) + 1
    for e in [e for e, n in count.items() if n == 1][:int(rng.integers(0, 6))]:
        element('edges', 1, sorted(e)[::int(rng.choice([-1, 1]))])
    for c in con:
        element('faces', 2 if tri else 3, c)
    # kinds of elements one after another, or mixed
    els = [(k, i) for k in kinds for i in range(len(kinds[k]))]
    if rng.uniform() < 0.4:
        slots = [els[j][0] for j in rng.permutation(len(els))]
        seen = {k: 0 for k in kinds}
        els = []
        for k in slots:
            els.append((k, seen[k]))
            seen[k] += 1
    els = [kinds[k][i][0] for k, i in els]
    ntag = ntags['faces']
    lines += ['$Elements', str(len(els))] + ['%d %s' % (i + 1, e) for i, e in enumerate(els)] + ['$EndElements']
    path = os.path.join(os.environ.get('VMON_SCRATCH', '.'), 'grid-%d-%d.msh' % (os.getpid(), ctx.case['idx']))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    what = 'gmsh file: %s, %d faces, %d tags' % (kind, len(con), ntag)
    try:
        d = DCEL(file_path=path, file_format='gmsh')
        m = (Mesh2D if tri else QuadMesh)(file_path=path)
    finally:
        os.remove(path)
    twin, own = check_tables(ctx, d, pts, con, what=what)
    check_mesh(ctx, m, pts, con, twin, own, not tri, what)
    ctx.ok('gmsh', d.format == '2.2 0 8' and d.subregions['names'] == [t[2] for t in names] and
           d.subregions['tags'] == [t[1] for t in names] and d.subregions['dim'] == [t[0] for t in names], 'header ' + what)
    for ent, table in (('points', d.points), ('edges', d.edges), ('faces', d.faces)):
        for k, key in enumerate(('phys', 'geom', 'partition')):
            want = [t[k] for _, t, _ in kinds[ent]] if ntags[ent] > k else None
            if not kinds[ent]:
                want = []
            got = table['tags'].get(key)
            ctx.ok('gmsh', got == want, lambda: '%s tags %s: %s, expected %s %s' % (ent, key, got, want, what))
    got = [frozenset(e) for e in d.edges['connectivity']]
    ctx.ok('gmsh', got == [frozenset(e) for _, _, e in kinds['edges']], 'listed edges ' + what)
    ctx.ok('gmsh', d.faces['type'] == ['triangle' if tri else 'quadrilateral'] * len(con), 'face types ' + what)
    ctx.sig('gmsh', kind, con, ntag)
    ctx.note(what)


def run_line(ctx, rng):
    n = int(rng.integers(1, 8))
    per = bool(rng.uniform() < 0.3)
    if rng.uniform() < 0.5:
        box = G.rnd_box1(rng)
        kw = dict(box=box, resolution=(n,))
        x = np.linspace(box[0], box[1], n + 1)
        form = 'box'
    else:
        x = np.sort(np.round(rng.uniform(-2, 2, n + 1), 6))
        if np.min(np.diff(x)) < 1e-3:
            x = np.arange(n + 1) * 0.37
        y = x[rng.permutation(n + 1)]
        k = int(rng.integers(0, 3))
        form = 'points%d' % k
        kw = dict(x=y if k == 0 else [(float(v),) for v in y] if k == 1 else y[:, None])
    what = '%s n=%d periodic=%s' % (form, n, per)
    m = Mesh1D(periodic=per, **kw)
    d = m.dcel
    ctx.close('line', np.array(d.points['coordinates'], dtype=float).ravel(), x, 1e-13, 'points ' + what)
    ctx.ok('line', m.dim() == 1 and m.cells.n_children() == n and m.is_periodic() == per, what)
    ctx.close('line', np.array(m.bounding_box(), dtype=float), x[[0, -1]], 1e-13, 'bounding box ' + what)
    for i in range(n):
        c = m.cells.get_child(i)
        ctx.ok('line', c.base() is m.vertices[i] and c.head() is m.vertices[i + 1], 'cell %d %s' % (i, what))
        ctx.close('line', c.length(), x[i + 1] - x[i], 1e-12, 'length ' + what)
        lo = i - 1 if i > 0 else (n - 1 if per else None)
        hi = i + 1 if i < n - 1 else (0 if per else None)
        ctx.ok('line', d.get_neighbor(i, i) == lo and d.get_neighbor(i, i + 1) == hi,
               lambda: 'neighbors of %d: %s %s, %s' % (i, d.get_neighbor(i, i), d.get_neighbor(i, i + 1), what))
    ctx.ok('line', [v.is_periodic() for v in m.vertices] == [per and i in (0, n) for i in range(n + 1)], 'periodic ends ' + what)
    if per:
        ctx.ok('periodic', {w for _, w in m.vertices[0].get_periodic_pair()} - {m.vertices[0]} == {m.vertices[-1]} and
               {w for _, w in m.vertices[-1].get_periodic_pair()} - {m.vertices[-1]} == {m.vertices[0]}, 'pair ' + what)
    else:
        ctx.ok('boundary', [int(i) for i in d.get_boundary_points()] == [0, n], 'boundary points ' + what)
    if n > 1:
        ctx.sig('line', form, n, per, [round(float(v), 6) for v in x])
    ctx.note(what)
