"""M07: point location (binning, containment, smallest enclosing cell, sub-cell positions)."""
import numpy as np
from vmon import gens as G, topo
from mesh import HalfEdge, QuadCell, Vertex

RULE = ('A case is one refined mesh with submeshes and 1-60 query points (interior, on edges, on vertices, on the domain '
        'boundary, duplicates); monitors check every bin against geometry. Non-trivial: at least three cells hit; '
        'distinct by mesh and bin sizes.')
REQUIRED = {'binned-once': 3000, 'bin-leaf': 500, 'bin-geometry': 3000, 'outside': 50, 'locate': 500, 'subcell': 500,
            'contains': 2000, 'segment': 2000, 'segment-exact': 2000, 'edge-points': 1000}


def cases(tier):
    k = 3 if tier == 'quick' else 12
    return [{'kind': 'quad'} for _ in range(160 * k)] + [{'kind': '1d'} for _ in range(100 * k)] + \
        [{'kind': 'exact'} for _ in range(40 * k)]


def special_points(rng, mesh, n):
    cells = topo.all_cells(mesh)
    out = []
    for _ in range(n):
        c = cells[int(rng.integers(0, len(cells)))]
        r = rng.uniform()
        if mesh.dim() == 2:
            xy = G.cell_xy(c)
            i = int(rng.integers(0, 4))
            a, b = xy[i], xy[(i + 1) % 4]
            if r < 0.5:
                p = G.bilinear(xy, rng.uniform(0.02, 0.98, (1, 2)))[0]
            elif r < 0.65:
                p = a
            elif r < 0.8:
                p = 0.5 * (a + b)
            else:
                p = a + rng.uniform() * (b - a)
            out.append((float(p[0]), float(p[1])))
        else:
            a, b = c.base().coordinates()[0], c.head().coordinates()[0]
            p = a if r < 0.2 else b if r < 0.4 else min(b, a + rng.uniform() * (b - a))
            out.append(float(p))
    return out


def segment(rng, xy):
    """A segment near, in, on or beside the cell."""
    a = G.bilinear(xy, rng.uniform(-0.8, 1.8, (1, 2)))[0]
    b = G.bilinear(xy, rng.uniform(-0.8, 1.8, (1, 2)))[0]
    r = rng.uniform()
    if r < 0.1:
        # starts in a vertex
        a = xy[int(rng.integers(0, 4))]
    elif r < 0.35:
        # along (the line of) an edge, possibly beyond it
        i = int(rng.integers(0, 4))
        p, q = xy[i], xy[(i + 1) % 4]
        s, t = [(0.25, 0.75), (-0.5, 1.5), (1.5, 2), (-1, -0.5), (-0.5, 0.5), (0.75, -1)][int(rng.integers(0, 6))]
        a, b = p + s * (q - p), p + t * (q - p)
    elif r < 0.45:
        # parallel to an edge
        i = int(rng.integers(0, 4))
        d = xy[(i + 1) % 4] - xy[i]
        b = a + d
    elif r < 0.6:
        # short, outside or inside
        b = a + 0.05 * (b - a)
    return np.array([a, b])


def dist(p, a, b):
    t = np.clip((p - a) @ (b - a) / ((b - a) @ (b - a)), 0, 1)
    return np.linalg.norm(p - a - t * (b - a))


def crosses(seg, ends):
    """(do the segments meet?, is the answer clear?), from distances and signs."""
    (a, b), (p, q) = seg, ends
    L = np.linalg.norm(q - p)
    touch = min(dist(a, p, q), dist(b, p, q), dist(p, a, b), dist(q, a, b))
    side = lambda u, v, w: (v[0] - u[0]) * (w[1] - u[1]) - (v[1] - u[1]) * (w[0] - u[0])
    s = side(p, q, a) * side(p, q, b) < 0 and side(a, b, p) * side(a, b, q) < 0
    if touch > 1e-6 * L:
        return s, True
    # touching: exact only for collinear segments that overlap by more than a point
    d = (b - a) / np.linalg.norm(b - a)
    if abs(side(p, q, a)) < 1e-15 and abs(side(p, q, b)) < 1e-15:
        t = sorted([(a - p) @ (q - p) / L ** 2, (b - p) @ (q - p) / L ** 2])
        if t[0] < 1 - 1e-6 and t[1] > 1e-6:
            return True, True
    return None, False


def meets(seg, xy):
    r = [crosses(seg, xy[[i, (i + 1) % 4]]) for i in range(4)]
    if any(c and v for v, c in r):
        return True, True
    if not all(c for _, c in r):
        return None, False
    return bool(G.in_quad(xy, seg[:1])[0] > 0), True


def lattice(rng, k=4):
    return rng.integers(-k, k + 1, 2)


def exact_cross(p, q, a, b):
    """Do the closed segments pq and ab (points with integer coordinates) meet?"""
    side = lambda u, v, w: int(np.sign((v[0] - u[0]) * (w[1] - u[1]) - (v[1] - u[1]) * (w[0] - u[0])))
    on = lambda u, v, w: side(u, v, w) == 0 and np.all(np.minimum(u, v) <= w) and np.all(w <= np.maximum(u, v))
    if on(p, q, a) or on(p, q, b) or on(a, b, p) or on(a, b, q):
        return True
    return side(p, q, a) * side(p, q, b) < 0 and side(a, b, p) * side(a, b, q) < 0


def run_exact(case, ctx):
    """Edges, cells, points and segments on a coarse dyadic lattice: touching and collinear cases, decided in integers."""
    rng = ctx.rng
    unit = float(rng.choice([0.25, 0.5, 1]))
    pt = lambda p: (float(p[0]) * unit, float(p[1]) * unit)
    vertex = lambda p: Vertex(pt(p))
    for _ in range(12):
        p, q, a, b = (lattice(rng) for _ in range(4))
        if np.all(p == q) or np.all(a == b):
            continue
        he = HalfEdge(vertex(p), vertex(q))
        want = exact_cross(p, q, a, b)
        ctx.ok('segment-exact', bool(he.intersects_line_segment([pt(a), pt(b)])) == want,
               lambda: 'segment %s-%s and edge %s-%s: expected %s' % (a, b, p, q, want))
        pts = [lattice(rng) for _ in range(6)] + [p, q]
        on = [exact_cross(p, q, w, w) for w in pts]
        got = np.asarray(he.contains_points([pt(w) for w in pts])).ravel()
        ctx.ok('edge-points', list(got) == on, lambda: 'edge %s-%s: points %s on it: %s, expected %s' % (p, q, [w.tolist() for w in pts], got, on))
        ctx.ok('edge-points', [bool(np.ravel(he.contains_points(vertex(w)))[0]) for w in pts] == on, 'one by one, as vertices')
        # just beside the edge, also when it is nearly parallel to an axis
        u, v = np.array(pt(p)), np.array(pt(q))
        if rng.uniform() < 0.4:
            v = np.array([u[0] + unit, u[1] + unit * 10.0 ** -rng.uniform(2, 8)])[::int(rng.choice([-1, 1]))]
        if np.linalg.norm(v - u) == 0:
            continue
        he = HalfEdge(Vertex(tuple(u)), Vertex(tuple(v)))
        t = rng.uniform(0.02, 0.98, 5)
        line = u + t[:, None] * (v - u)
        nrm = np.array([-(v - u)[1], (v - u)[0]]) / np.linalg.norm(v - u)
        off = 10.0 ** -rng.uniform(1, 6) * rng.choice([-1, 1])
        ctx.ok('edge-points', np.all(he.contains_points(line)), lambda: 'points of the edge %s-%s' % (u, v))
        ctx.ok('edge-points', not np.any(he.contains_points(line + off * nrm)), lambda: 'points %g beside the edge %s-%s' % (off, u, v))
        e = abs(off) * (v - u)
        ctx.ok('edge-points', not np.any(he.contains_points(np.array([u - e, v + e]))), lambda: 'points beyond the edge %s-%s' % (u, v))
        # any edge inside this one
        s = np.sort(rng.integers(0, 65, 2)) / 64
        if s[0] < s[1] and rng.uniform() < 0.5:
            u, v = np.array(pt(p)), np.array(pt(q))
            sub = HalfEdge(Vertex(tuple(u + s[0] * (v - u))), Vertex(tuple(u + s[1] * (v - u))))
            pos, w = HalfEdge(Vertex(tuple(u)), Vertex(tuple(v))).subcell_position(sub)
            ctx.close('subcell', [pos, w], [s[0], s[1] - s[0]], 1e-12, 'position of an edge within an edge')
    for _ in range(6):
        while True:
            c = [lattice(rng) for _ in range(4)]
            e = [c[(i + 1) % 4] - c[i] for i in range(4)]
            if min(e[i][0] * e[(i + 1) % 4][1] - e[i][1] * e[(i + 1) % 4][0] for i in range(4)) > 0:
                break
        V = [vertex(w) for w in c]
        cell = QuadCell([HalfEdge(V[i], V[(i + 1) % 4]) for i in range(4)])
        inside = lambda w: all(e[i][0] * (w[1] - c[i][1]) - e[i][1] * (w[0] - c[i][0]) >= 0 for i in range(4))
        pts = [lattice(rng) for _ in range(12)] + c
        want = [inside(w) for w in pts]
        got = np.asarray(cell.contains_points([pt(w) for w in pts])).ravel()
        ctx.ok('segment-exact', list(got) == want, lambda: 'cell %s contains %s: %s' % (c, pts, got))
        for _ in range(6):
            a, b = lattice(rng), lattice(rng)
            if np.all(a == b):
                continue
            want = inside(a) or inside(b) or any(exact_cross(c[i], c[(i + 1) % 4], a, b) for i in range(4))
            ctx.ok('segment-exact', bool(cell.intersects_line_segment([pt(a), pt(b)])) == want,
                   lambda: 'segment %s-%s and cell %s: expected %s' % (a, b, [w.tolist() for w in c], want))
    ctx.sig('exact', tuple(map(tuple, c)), tuple(p), tuple(q))
    ctx.note('lattice unit %g, last cell %s' % (unit, [w.tolist() for w in c]))


def run(case, ctx):
    rng = ctx.rng
    if case['kind'] == 'exact':
        return run_exact(case, ctx)
    two = case['kind'] == 'quad'
    mesh, info = G.mesh2d(rng) if two else G.mesh1d(rng)
    labels = [None]
    mesh.record('m')
    labels.append('m')
    for i in range(int(rng.integers(1, 4))):
        if len(mesh.cells.get_leaves()) > 100:
            break
        if rng.uniform() < 0.5:
            G.random_refine(rng, mesh, 1, 0.35)
        else:
            G.refine_label(rng, mesh, labels[-1], 'f%d' % i, 0.35)
            labels.append('f%d' % i)
    n = int(rng.integers(1, 60))
    pts = special_points(rng, mesh, n)
    if rng.uniform() < 0.3 and n > 1:
        pts[-1] = pts[0]
    arr = np.array(pts, dtype=float).reshape(n, -1)
    form = int(rng.integers(0, 3))
    every = topo.all_cells(mesh)
    for lab in labels:
        leaves = mesh.cells.get_leaves(subforest_flag=lab)
        ids = {id(c): i for i, c in enumerate(leaves)}
        if two and form == 0:
            q = [tuple(p) for p in pts]
        else:
            q = arr
        bins = mesh.bin_points(q, subforest_flag=lab)
        hits = np.zeros(n, dtype=int)
        seen = []
        for c, idx in bins:
            idx = np.atleast_1d(idx)
            hits[idx] += 1
            ctx.ok('bin-leaf', id(c) in ids, lambda: 'bin cell %s is not a leaf of %s' % (c.get_node_address(), lab))
            ctx.ok('bin-leaf', len(idx) > 0, 'empty bin')
            seen.append(id(c))
            if two:
                d = G.in_quad(G.cell_xy(c), arr[idx])
                ctx.ok('bin-geometry', d.min() > -1e-8, 'point at distance %g outside its bin' % -d.min())
                ctx.tick('bin-geometry', len(idx))
            else:
                a, b = c.base().coordinates()[0], c.head().coordinates()[0]
                ctx.ok('bin-geometry', np.all(arr[idx, 0] >= a) and np.all(arr[idx, 0] <= b), 'point outside its bin')
                ctx.tick('bin-geometry', len(idx))
        ctx.ok('bin-leaf', len(set(seen)) == len(seen), 'a leaf is listed in two bins')
        ctx.ok('binned-once', np.all(hits == 1), 'points binned %s times' % hits.tolist())
        ctx.tick('binned-once', n)
        # subset of the points with own numbering
        sub = np.flatnonzero(rng.uniform(size=n) < 0.5)
        if len(sub):
            ids2 = 100 + sub
            got = np.sort(np.concatenate([np.atleast_1d(i) for _, i in
                                          mesh.bin_points(arr[sub], i_points=ids2, subforest_flag=lab)]))
            ctx.ok('binned-once', np.array_equal(got, ids2), 'numbered points')
        # binning from a cell that contains the points: coarser, on or finer than the submesh
        for _ in range(3):
            c = every[int(rng.integers(0, len(every)))]
            if two:
                inside = G.in_quad(G.cell_xy(c), arr) > 1e-7
            else:
                inside = (arr[:, 0] >= c.base().coordinates()[0]) & (arr[:, 0] <= c.head().coordinates()[0])
            own = G.bilinear(G.cell_xy(c), rng.uniform(0.05, 0.95, (2, 2))) if two else \
                c.base().coordinates()[0] + rng.uniform(0.05, 0.95, (2, 1)) * (c.head().coordinates()[0] - c.base().coordinates()[0])
            y = np.vstack([arr[inside], own])
            num = np.arange(len(y)) if rng.uniform() < 0.5 else rng.permutation(50 + len(y))[:len(y)]
            got = c.bin_points(y, subforest_flag=lab) if np.array_equal(num, np.arange(len(y))) else \
                c.bin_points(y, i_points=num, subforest_flag=lab)
            where = {}
            for d, idx in got:
                ctx.ok('bin-leaf', id(d) in ids, lambda: 'bin cell %s of cell %s is not a leaf of %s' % (d.get_node_address(), c.get_node_address(), lab))
                for i in np.atleast_1d(idx):
                    where.setdefault(int(i), []).append(d)
            ctx.ok('binned-once', sorted(where) == sorted(int(i) for i in num) and all(len(v) == 1 for v in where.values()),
                   lambda: 'cell %s in %s: numbers %s binned as %s' % (c.get_node_address(), lab, num, {k: len(v) for k, v in where.items()}))
            for i, q in zip(num, y):
                for d in where.get(int(i), []):
                    if two:
                        good = G.in_quad(G.cell_xy(d), q[None, :])[0] > -1e-8
                    else:
                        good = d.base().coordinates()[0] - 1e-12 <= q[0] <= d.head().coordinates()[0] + 1e-12
                    ctx.ok('bin-geometry', good, lambda: 'point %s of cell %s in bin %s' % (q, c.get_node_address(), d.get_node_address()))
        if two:
            for j in range(min(n, 6)):
                c = mesh.locate_point(pts[j], flag=lab)
                good = c is not None and id(c) in ids and G.in_quad(G.cell_xy(c), arr[j])[0] > -1e-8
                ctx.ok('locate', good, lambda: 'locate %s in %s -> %s' % (pts[j], lab, c and c.get_node_address()))
        if len(bins) >= 3:
            ctx.sig(case['kind'], G.mesh_sig(mesh, lab), sorted(len(np.atleast_1d(i)) for _, i in bins))
    # points outside the domain are refused
    bb = mesh.bounding_box()
    if two:
        far = (bb[1] + 1 + rng.uniform(), bb[3] + rng.uniform())
        ctx.raises('outside', lambda: mesh.bin_points(np.vstack([arr, [far]])), Exception, 'outside point accepted')
        ctx.ok('locate', mesh.locate_point(far) is None, 'outside point located')
    else:
        far = bb[1] + 0.1 + rng.uniform()
        ctx.raises('outside', lambda: mesh.bin_points(np.vstack([arr, [[far]]])), Exception, 'outside point accepted')
    # containment of each point in random cells
    cells = topo.all_cells(mesh)
    for _ in range(6):
        c = cells[int(rng.integers(0, len(cells)))]
        got = np.asarray(c.contains_points(arr)).ravel()
        if two:
            d = G.in_quad(G.cell_xy(c), arr)
            clear = np.abs(d) > 1e-7
        else:
            a, b = c.base().coordinates()[0], c.head().coordinates()[0]
            d = np.minimum(arr[:, 0] - a, b - arr[:, 0])
            clear = np.abs(d) > -1
            d = np.where(d >= 0, 1, -1)
        ctx.ok('contains', got.shape == (n,) and np.array_equal(got[clear], d[clear] > 0), 'contains_points')
        ctx.tick('contains', n)
    # relative position of a sub-cell
    for _ in range(6):
        c = cells[int(rng.integers(0, len(cells)))]
        s = c
        while s.has_children() and (s is c or rng.uniform() < 0.7):
            s = s.get_child(int(rng.integers(0, s.n_children())))
        pos, w = c.subcell_position(s)
        if two:
            ref = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])
            img = G.bilinear(G.cell_xy(c), np.asarray(pos) + w * ref)
            ctx.close('subcell', G.cell_xy(s), img, 1e-9, 'sub-cell position %s width %s' % (pos, w))
            for i in range(4):
                he = c.get_half_edge(i)
                sub = he
                while sub.has_children() and rng.uniform() < 0.7:
                    sub = sub.get_child(int(rng.integers(0, 2)))
                p, ww = he.subcell_position(sub)
                a, b = (np.array(v.coordinates()) for v in (he.base(), he.head()))
                got = np.array([a + p * (b - a), a + (p + ww) * (b - a)])
                want = np.array([sub.base().coordinates(), sub.head().coordinates()])
                ctx.close('subcell', got, want, 1e-9, 'sub-edge position')
                q = np.array([a + t * (b - a) for t in (0.25, 0.5, 0.75)])
                ctx.ok('contains', np.all(he.contains_points(q)), 'points of the edge %s-%s' % (a, b))
                nrm = np.array([(b - a)[1], -(b - a)[0]]) / np.hypot(*(b - a))
                ctx.ok('contains', not np.any(he.contains_points(q + 0.1 * nrm)), 'points beside the edge')
                ctx.ok('contains', not np.any(he.contains_points(np.array([a - 0.2 * (b - a), b + 0.2 * (b - a)]))),
                       'points beyond the edge')
        else:
            a, b = c.base().coordinates()[0], c.head().coordinates()[0]
            ctx.close('subcell', [a + pos * (b - a), a + (pos + w) * (b - a)],
                      [s.base().coordinates()[0], s.head().coordinates()[0]], 1e-10, 'sub-interval')
    # line segments
    if two:
        for _ in range(10):
            c = cells[int(rng.integers(0, len(cells)))]
            xy = G.cell_xy(c)
            seg = segment(rng, xy)
            want, clear = meets(seg, xy)
            if clear:
                ctx.ok('segment', bool(c.intersects_line_segment([tuple(v) for v in seg])) == want,
                       lambda: 'segment %s and cell %s: expected %s' % (seg.tolist(), xy.tolist(), want))
            for i in range(4):
                he = c.get_half_edge(i)
                ends = xy[[i, (i + 1) % 4]]
                want, clear = crosses(seg, ends)
                if clear:
                    ctx.ok('segment', bool(he.intersects_line_segment([tuple(v) for v in seg])) == want,
                           lambda: 'segment %s and edge %s: expected %s' % (seg.tolist(), ends.tolist(), want))
    ctx.note('%s points=%d labels=%s' % (info, n, labels))
