"""M09: marking and querying regions, boundary segments."""
import numpy as np
from vmon import gens as G, topo

RULE = ('A case is one refined mesh with up to two submeshes and a random region (half-plane, disc, strip, boundary part, '
        'interval, everything, nothing); all mark_region / get_region variants and boundary queries are compared with sets '
        'computed from geometry. Non-trivial: region contains some but not all vertices; distinct by mesh and region.')
REQUIRED = {'mark': 1500, 'query': 1500, 'segments': 150, 'segment-filter': 100, 'boundary-vertices': 100,
            'mark-1d': 400, 'query-1d': 400, 'periodic-empty': 20, 'vertex-marks': 500}
FLAGS = ['reg', 3, ('a', 1)]


def cases(tier):
    k = 3 if tier == 'quick' else 20
    return ([{'kind': 'quad'} for _ in range(120 * k)] + [{'kind': 'periodic'} for _ in range(25 * k)] +
            [{'kind': '1d'} for _ in range(60 * k)] + [{'kind': 'periodic1d'} for _ in range(15 * k)])


def root_boundary(mesh, wrap):
    roots = [mesh.cells.get_child(i) for i in range(mesh.cells.n_children())]
    tab = topo.edge_table(roots, wrap)
    out = {}
    for r in roots:
        xy = G.cell_xy(r)
        out[id(r)] = [(xy[i], xy[(i + 1) % 4]) for i in range(4) if len(topo.across(tab, wrap, r, i)) == 0]
    return out


def boundary_edges(mesh, wrap, flag):
    """Half-edges of leaves lying on the boundary."""
    rb = root_boundary(mesh, wrap)
    out = []
    for c in mesh.cells.get_leaves(subforest_flag=flag):
        segs = rb[id(c.get_root())]
        for he in c.get_half_edges():
            p = np.array([he.base().coordinates(), he.head().coordinates()], dtype=float)
            if any(G.dist_segment(p, a, b).max() < 1e-9 for a, b in segs):
                out.append(he)
    return out


def region(rng, mesh):
    """(description, f(x[,y]) -> bool)"""
    k = int(rng.integers(0, 7))
    if mesh.dim() == 1:
        lo, hi = mesh.bounding_box()
        a, b = sorted(rng.uniform(lo - 0.1, hi + 0.1, 2))
        if k < 3:
            return ('interval', a, b), lambda x: a <= x <= b
        if k < 4:
            return ('left',), lambda x: abs(x - lo) < 1e-9
        if k < 5:
            return ('right',), lambda x: abs(x - hi) < 1e-9
        if k == 5:
            return ('all',), lambda x: True
        return ('none',), lambda x: False
    x0, x1, y0, y1 = mesh.bounding_box()
    c = np.array([rng.uniform(x0, x1), rng.uniform(y0, y1)])
    if k < 2:
        th = rng.uniform(0, 2 * np.pi)
        return ('half', c.tolist(), th), lambda x, y: (x - c[0]) * np.cos(th) + (y - c[1]) * np.sin(th) <= 0
    if k < 4:
        r = rng.uniform(0.2, 0.6) * max(x1 - x0, y1 - y0)
        return ('disc', c.tolist(), r), lambda x, y: (x - c[0]) ** 2 + (y - c[1]) ** 2 <= r * r
    if k == 4:
        side = int(rng.integers(0, 4))
        v = (x0, x1, y0, y1)[side]
        return ('side', side), (lambda x, y: abs((x, y)[side // 2] - v) < 1e-9)
    if k == 5:
        return ('all',), lambda x, y: True
    return ('none',), lambda x, y: False


def entities(mesh, flag, typ, onb, bnd):
    """[(entity, containing cell)] the query ranges over, with multiplicity over cells."""
    out = []
    if mesh.dim() == 2:
        if onb:
            for he in bnd:
                c = he.cell()
                if typ == 'cell':
                    out.append((c, c))
                elif typ == 'half_edge':
                    out.append((he, c))
                else:
                    out.extend((v, c) for v in (he.base(), he.head()))
        else:
            for c in mesh.cells.get_leaves(subforest_flag=flag):
                if typ == 'cell':
                    out.append((c, c))
                elif typ == 'half_edge':
                    out.extend((he, c) for he in c.get_half_edges())
                else:
                    out.extend((v, c) for v in c.get_vertices())
    else:
        cells = mesh.cells.get_leaves(subforest_flag=flag)
        lo, hi = mesh.bounding_box()
        per = mesh.is_periodic()
        for c in cells:
            ends = [v for v in c.get_vertices()
                    if not per and min(abs(v.coordinates()[0] - lo), abs(v.coordinates()[0] - hi)) < 1e-12]
            if typ == 'cell':
                if not onb or ends:
                    out.append((c, c))
            else:
                out.extend((v, c) for v in (ends if onb else c.get_vertices()))
    return out


def points_of(e, typ):
    if typ == 'vertex':
        return [e.coordinates()]
    return [v.coordinates() for v in e.get_vertices()]


def everything(mesh):
    """id -> entity for all cells, edges, vertices."""
    out = {}
    for c in topo.all_cells(mesh):
        out[id(c)] = c
        for v in c.get_vertices():
            out[id(v)] = v
        if mesh.dim() == 2:
            for he in c.get_half_edges():
                out[id(he)] = he
                for ch in (he.get_children() if he.has_children() else []):
                    if ch is not None:
                        out[id(ch)] = ch
    return out


def run(case, ctx):
    rng = ctx.rng
    kind = case['kind']
    wrap = topo.Wrap()
    if kind == 'quad':
        mesh, info = G.mesh2d(rng)
    elif kind == 'periodic':
        mesh, info = G.mesh_periodic(rng)
        wrap = topo.Wrap(info['box'], info['per'])
    else:
        mesh, info = G.mesh1d(rng, periodic=kind == 'periodic1d')
    flags = [None]
    G.random_refine(rng, mesh, int(rng.integers(0, 3)), 0.4, maxcells=30)
    if rng.uniform() < 0.7:
        mesh.cells.record('s')
        flags.append('s')
        G.refine_label(rng, mesh, 's', 't', 0.3)
        flags.append('t')
        if rng.uniform() < 0.4:
            G.random_refine(rng, mesh, 1, 0.2, maxcells=60)
    dim = mesh.dim()
    sfx = '' if dim == 2 else '-1d'
    ents = everything(mesh)
    types = ('vertex', 'half_edge', 'cell') if dim == 2 else ('vertex', 'cell')
    for rep in range(4):
        desc, f = region(rng, mesh)
        sub = flags[int(rng.integers(0, len(flags)))]
        bnd = boundary_edges(mesh, wrap, sub) if dim == 2 else None
        flag = FLAGS[int(rng.integers(0, 3))]
        for typ in types:
            for onb in (False, True):
                strict = bool(rng.uniform() < 0.5)
                what = '%s %s strict=%s boundary=%s sub=%s %s' % (desc, typ, strict, onb, sub, info)
                flg = (flag, typ, onb, rep)
                pool = entities(mesh, sub, typ, onb, bnd)
                comb = all if strict else any
                want = {id(e) for e, _ in pool if comb(f(*p) for p in points_of(e, typ))}
                mesh.mark_region(flg, f, entity_type=typ, strict_containment=strict, on_boundary=onb, subforest_flag=sub)
                got = {i for i, e in ents.items() if e.is_marked(flg)}
                ctx.ok('mark' + sfx, got == want, lambda: '%s: %d marked, %d expected; wrong %s, missing %s' % (
                    what, len(got), len(want), [points_of(ents[i], 'vertex' if hasattr(ents[i], 'coordinates') else 'c')
                                                for i in list(got - want)[:2]],
                    [points_of(ents[i], typ) for i in list(want - got)[:2]]))
                if 0 < len(want) < len(pool):
                    ctx.sig(info['type'], G.mesh_sig(mesh, sub), desc, typ, onb)
                if kind.startswith('periodic') and onb and dim == 1:
                    ctx.ok('periodic-empty', not got, what)
                # the region as queried, over this and the other submeshes
                for sub2 in {sub, flags[int(rng.integers(0, len(flags)))]}:
                    b2 = bnd if sub2 == sub or dim == 1 else boundary_edges(mesh, wrap, sub2)
                    for onb2 in (False, True):
                        pool2 = entities(mesh, sub2, typ, onb2, b2)
                        for q in (flg, None):
                            for rc in (False, True):
                                r = list(mesh.get_region(flag=q, entity_type=typ, on_boundary=onb2, subforest_flag=sub2,
                                                         return_cells=rc))
                                if rc:
                                    g = [(id(e), id(c)) for e, c in r]
                                    w = {(id(e), id(c)) for e, c in pool2 if q is None or id(e) in want}
                                else:
                                    g = [id(e) for e in r]
                                    w = {id(e) for e, c in pool2 if q is None or id(e) in want}
                                ctx.ok('query' + sfx, len(g) == len(set(g)) and set(g) == w,
                                       lambda: 'get_region(%s,%s,boundary=%s,sub=%s,cells=%s) after %s: %d entities, '
                                       '%d expected' % (q, typ, onb2, sub2, rc, what, len(g), len(w)))
    vertex_marks(ctx, mesh, flags, rng, info)
    if dim == 2:
        segments(ctx, mesh, wrap, flags, info, ents, rng)
    else:
        ends(ctx, mesh, flags, info)
    ctx.note('%s leaves=%d region=%s' % (info, len(mesh.cells.get_leaves()), desc))


def vertex_marks(ctx, mesh, flags, rng, info):
    """Marks of single vertices, and the regions they make, after any sequence of marking and unmarking."""
    sub = flags[int(rng.integers(0, len(flags)))]
    verts = list({id(v): v for c in mesh.cells.get_leaves(subforest_flag=sub) for v in c.get_vertices()}.values())
    pick = [verts[int(i)] for i in rng.permutation(len(verts))[:5]]
    model = {}
    for v in pick:
        v.unmark()
        model[id(v)] = set()
    names = ['m1', 7, ('m', 2), True]
    for _ in range(int(rng.integers(3, 14))):
        v, f, u = pick[int(rng.integers(0, len(pick)))], names[int(rng.integers(0, 4))], rng.uniform()
        if u < 0.5:
            v.mark(f)
            model[id(v)].add(f)
        elif u < 0.6:
            v.mark()
            model[id(v)].add(True)
        elif u < 0.9:
            v.unmark(f)
            model[id(v)].discard(f)
        else:
            v.unmark()
            model[id(v)] = set()
    for v in pick:
        ctx.ok('vertex-marks', v.is_marked() == bool(model[id(v)]) and all(v.is_marked(f) == (f in model[id(v)]) for f in names),
               lambda: 'vertex %s: %s, expected %s %s' % (v.coordinates(), [f for f in names if v.is_marked(f)], model[id(v)], info))
    for f in names[:3]:
        got = [id(v) for v in mesh.get_region(flag=f, entity_type='vertex', subforest_flag=sub)]
        want = {i for i, m in model.items() if f in m}
        ctx.ok('vertex-marks', len(got) == len(set(got)) and set(got) == want,
               lambda: 'region %s of marked vertices: %d, expected %d, sub=%s %s' % (f, len(got), len(want), sub, info))


def segments(ctx, mesh, wrap, flags, info, ents, rng):
    for sub in flags:
        bnd = boundary_edges(mesh, wrap, sub)
        segs = mesh.get_boundary_segments(subforest_flag=sub)
        flat = [id(he) for s in segs for he in s]
        what = '%s sub=%s' % (info, sub)
        ctx.ok('segments', len(flat) == len(set(flat)) and set(flat) == {id(h) for h in bnd},
               lambda: '%s: %d boundary edges listed, %d expected' % (what, len(flat), len(bnd)))
        for s in segs:
            ctx.ok('segments', all(s[i].head() is s[i + 1].base() for i in range(len(s) - 1)), 'chain broken: ' + what)
        # connected components of the boundary
        comp = {id(h): id(h) for h in bnd}

        def find(a):
            while comp[a] != a:
                a = comp[a]
            return a
        bybase = {}
        for h in bnd:
            bybase.setdefault(id(h.base()), []).append(h)
        for h in bnd:
            for n in bybase.get(id(h.head()), []):
                comp[find(id(h))] = find(id(n))
        ncomp = len({find(id(h)) for h in bnd})
        if bnd:
            ctx.ok('segments', len(segs) == ncomp, lambda: '%s: %d segments, %d boundary components' % (what, len(segs), ncomp))
        bv = [id(v) for v in mesh.get_boundary_vertices(subforest_flag=sub)]
        want = {id(v) for h in bnd for v in (h.base(), h.head())}
        ctx.ok('boundary-vertices', len(bv) == len(set(bv)) and set(bv) == want,
               lambda: '%s: %d boundary vertices, expected %d' % (what, len(bv), len(want)))
        # filter by an edge flag
        flg = ('seg', str(sub))
        chosen = [h for h in bnd if rng.uniform() < rng.choice([0.2, 0.5, 0.9])]
        for h in chosen:
            h.mark(flg)
        flat = [id(he) for s in mesh.get_boundary_segments(subforest_flag=sub, flag=flg) for he in s]
        ctx.ok('segment-filter', sorted(flat) == sorted(id(h) for h in chosen),
               lambda: '%s: %d of %d boundary edges flagged, %d listed' % (what, len(chosen), len(bnd), len(flat)))
        bv = [id(v) for v in mesh.get_boundary_vertices(subforest_flag=sub, flag=flg)]
        want = {id(v) for h in chosen for v in (h.base(), h.head())}
        ctx.ok('boundary-vertices', len(bv) == len(set(bv)) and set(bv) == want,
               lambda: '%s flagged: %d boundary vertices, expected %d' % (what, len(bv), len(want)))


def ends(ctx, mesh, flags, info):
    if mesh.is_periodic():
        ctx.ok('periodic-empty', mesh.get_boundary_vertices() is None and mesh.get_boundary_cells() is None, str(info))
        return
    lo, hi = mesh.bounding_box()
    v0, v1 = mesh.get_boundary_vertices()
    ctx.ok('query-1d', v0.coordinates()[0] == lo and v1.coordinates()[0] == hi, 'end vertices %s' % info)
    for sub in flags:
        lv = mesh.cells.get_leaves(subforest_flag=sub)
        l, r = mesh.get_boundary_cells(subforest_flag=sub)
        ctx.ok('query-1d', l is min(lv, key=lambda c: c.base().coordinates()[0]) and
               r is max(lv, key=lambda c: c.base().coordinates()[0]), 'end cells %s sub=%s' % (info, sub))
