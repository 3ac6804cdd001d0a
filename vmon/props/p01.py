"""P01: plots draw exactly the mesh, its regions and dofs, and the values of functions."""
import io
import contextlib
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection, PolyCollection
from matplotlib.colors import to_rgba
from matplotlib.patches import Polygon
from mpl_toolkits.mplot3d.art3d import Poly3DCollection
from vmon import gens as G
from vmon import femgen as F
from fem import DofHandler, Basis
from function import Explicit, Constant, Nodal
from plot import Plot

RULE = ('A case is one mesh with submeshes, drawn with regions, dofs and labels, or one function (nodal, explicit, constant; samples; derivatives) '
        'drawn as line, contour, wire or surface plot; the polygons, lines, points, arrows, labels and values handed to the canvas are compared with the '
        'leaves, marked entities, dofs and values. Distinct by mesh, submesh, regions and function.')
REQUIRED = {'cells': 200, 'regions': 200, 'dofs': 100, 'line': 100, 'contour': 100, 'wire': 60, 'surface': 40, 'quickview': 20, 'limits': 300}
ASSUMPTIONS = ['contour and surface plots: the mesh fills its bounding box', 'surface plots: functions with one sample, shading without grid']
REG = ['r0', 4, ('z', 1)]
key = lambda p: tuple(np.round(np.asarray(p, dtype=float), 9) + 0.0)


def cases(tier):
    k = 1 if tier == 'quick' else 12
    return ([{'kind': d, 'what': 'mesh'} for d in ('quad', 'quad', 'periodic', '1d', '1dper') for _ in range(24 * k)] +
            [{'kind': d, 'what': 'function'} for d in ('quad', 'quad', 'periodic', '1d', '1d', '1dper') for _ in range(24 * k)])


# ---------------------------------------------------------------- what has been drawn
def drawn(ax):
    """Polygons, segments, points (each with a colour), arrows, labels."""
    polys, segs, pts, arrows, labels = [], [], [], [], []
    for p in ax.patches:
        if isinstance(p, Polygon):
            polys.append((p.get_facecolor(), frozenset(key(q) for q in p.get_xy())))
    for c in ax.collections:
        if isinstance(c, LineCollection):
            for s, col in zip(c.get_segments(), np.resize(c.get_colors(), (len(c.get_segments()), 4))):
                segs += [(tuple(col), (key(a), key(b))) for a, b in zip(s[:-1], s[1:])]
        elif isinstance(c, PathCollection):
            off = c.get_offsets()
            pts += [(tuple(col), key(q)) for q, col in zip(off, np.resize(c.get_facecolors(), (len(off), 4)))]
        elif isinstance(c, PolyCollection):
            fc = c.get_facecolors()
            for i, path in enumerate(c.get_paths()):
                polys.append((tuple(fc[i % len(fc)]), frozenset(key(q) for q in path.vertices)))
    for l in ax.lines:
        xy = np.column_stack([np.ravel(np.asarray(d, dtype=float)) for d in l.get_data()])
        col = to_rgba(l.get_color())
        if l.get_marker() in ('.', 'o') and (l.get_linestyle() in ('None', '', ' ') or len(xy) == 1):
            pts += [(col, key(q)) for q in xy if np.isfinite(q).all()]
        else:
            segs += [(col, (key(a), key(b))) for a, b in zip(xy[:-1], xy[1:]) if np.isfinite([a, b]).all()]
    for t in ax.texts:
        if getattr(t, 'arrow_patch', None) is not None:
            arrows.append((to_rgba(t.arrow_patch.get_edgecolor()), (key(t.xyann), key(t.xy))))
        elif t.get_text():
            labels.append((key([np.ravel(v)[0] for v in t.get_position()]), t.get_text()))
    return polys, segs, pts, arrows, labels


def count(items):
    out = {}
    for i in items:
        out[i] = out.get(i, 0) + 1
    return out


def groups(items):
    """Multisets of the items of each colour, without opacity."""
    out = {}
    for col, i in items:
        out.setdefault(tuple(np.round(col[:3], 6)), []).append(i)
    return out


def show_mesh(ctx, rng, mesh, info, flags):
    dim = mesh.dim()
    sub = flags[int(rng.integers(0, len(flags)))]
    lv = F.leaves(mesh, sub)
    what = '%s sub=%s' % (info, sub)
    xy = (lambda v: key(v.coordinates())) if dim == 2 else (lambda v: key([v.coordinates()[0], 0]))
    cell = (lambda c: frozenset(xy(v) for v in c.get_vertices())) if dim == 2 else (lambda c: (xy(c.base()), xy(c.head())))
    edge = lambda h: (xy(h.base()), xy(h.head()))
    kw, want, names = {}, {'cell': [], 'edge': [], 'half_edge': [], 'vertex': []}, []
    if rng.uniform() < 0.8:
        regions = []
        for flag in REG[:int(rng.integers(1, 4))]:
            et = ['cell', 'vertex', 'edge', 'half_edge'][int(rng.integers(0, 4 if dim == 2 else 2))]
            pool = lv if et == 'cell' else list({id(v): v for c in lv for v in c.get_vertices()}.values()) if et == 'vertex' else \
                [h for c in lv for h in c.get_half_edges()]
            frac = rng.uniform(0, 0.6)
            pick = [e for e in pool if rng.uniform() < frac]
            for e in pick:
                e.mark(flag)
            # the mark must not reach entities of other submeshes
            other = [c for f in flags for c in F.leaves(mesh, f) if c not in lv]
            for c in other[:1 + int(rng.integers(0, len(other)))] if other else []:
                for e in [c] if et == 'cell' else c.get_vertices() if et == 'vertex' else c.get_half_edges():
                    e.mark(flag)
            regions.append((flag, et))
            # everything in the leaves that carries the mark by now
            shape = {'cell': cell, 'vertex': xy, 'edge': edge, 'half_edge': edge}[et]
            want[et].append(lambda f=flag, pool=pool, shape=shape: [shape(e) for e in pool if e.is_marked(f)])
            names.append('%s %d' % (et, len(pick)))
        kw['regions'] = regions
    dofs = rng.uniform() < 0.6
    if dofs:
        el, et, nd = F.element(rng, dim)
        dh = DofHandler(mesh, el)
        dh.distribute_dofs(subforest_flag=sub if rng.uniform() < 0.5 else None)
        kw.update(dofs=True, dofhandler=dh, doflabels=bool(rng.uniform() < 0.5))
        names.append('%s labels %s' % (et, kw['doflabels']))
    if sub is not None or rng.uniform() < 0.3:
        kw['subforest_flag'] = sub
    on = bool(rng.uniform() < 0.3)
    if on:
        kw['show_axis'] = True
    what += ' ' + ', '.join(names)
    quick = rng.uniform() < 0.25
    seen = []
    if quick:
        with shown(seen):
            Plot(time=0.01).mesh(mesh, **kw)
        ctx.ok('quickview', len(seen) == 1 and not plt.get_fignums(), 'one figure shown, then closed: ' + what)
        ax = seen[0]
    else:
        ax = plt.figure().add_subplot(111)
        got = Plot(quickview=False).mesh(mesh, axis=ax, **kw)
        ctx.ok('cells', got is ax, 'axis returned ' + what)
    limits(ctx, ax, mesh, what)
    ctx.ok('cells', ax.axison == on, 'axis shown %s' % what)
    polys, segs, pts, arrows, labels = drawn(ax)
    want = {k: [f() for f in v] for k, v in want.items()}
    base = [cell(c) for c in lv]
    cells = polys if dim == 2 else segs
    if dim == 2:
        x0, x1, y0, y1 = mesh.bounding_box()
        base.append(frozenset(key(p) for p in ((x0, y0), (x1, y0), (x1, y1), (x0, y1))))
    allc = base + [c for r in want['cell'] for c in r]
    ctx.ok('cells', count(i for _, i in cells) == count(allc) if dim == 2 else count(i for _, i in segs) == count(allc),
           lambda: '%s: %d cells drawn, expected %d' % (what, len(cells), len(allc)))
    for name, items, exp in (('cell', cells, want['cell']), ('edge', segs if dim == 2 else [], want['edge']), ('half_edge', arrows, want['half_edge']),
                             ('vertex', pts, want['vertex'])):
        if name == 'vertex' and dofs and not kw['doflabels']:
            # dofs are drawn in black
            items = [i for i in items if max(i[0][:3]) > 0]
        if name != 'cell':
            ctx.ok('regions', count(i for _, i in items) == count(i for r in exp for i in r),
                   lambda: '%s: %s drawn %d, expected %d' % (what, name, len(items), sum(map(len, exp))))
        have = list(groups(items).values())
        for r in exp:
            if not r:
                continue
            # the entities of a region appear in one colour of their own
            ctx.ok('regions', any(count(h) == count(r) for h in have), lambda: '%s: %s region of %d not drawn in its own colour' % (what, name, len(r)))
    if dofs:
        exp = set()
        for c in lv:
            for p, d in zip(F.cell_nodes(c, nd), dh.get_cell_dofs(c)):
                exp.add((key(p) if dim == 2 else key([float(np.ravel(p)[0]), 0]), str(d)))
        if kw['doflabels']:
            ctx.ok('dofs', set(labels) == exp, lambda: '%s: labels %s..., expected %s...' % (what, sorted(set(labels) - exp)[:3], sorted(exp - set(labels))[:3]))
        else:
            black = {i for c, i in pts if max(c[:3]) == 0}
            ctx.ok('dofs', black == {p for p, _ in exp}, lambda: '%s: dofs drawn at %s..., missing %s...' % (
                what, sorted(black - {p for p, _ in exp})[:3], sorted({p for p, _ in exp} - black)[:3]))
    else:
        ctx.ok('dofs', not labels, 'labels without being asked ' + what)
    plt.close('all')
    ctx.sig(info['type'], G.mesh_sig(mesh, sub), what)
    ctx.note(what)


def limits(ctx, ax, mesh, what):
    b = mesh.bounding_box()
    lim = list(ax.get_xlim()) + (list(ax.get_ylim()) if mesh.dim() == 2 else [])
    ctx.ok('limits', all(lim[i] <= b[i] + 1e-12 and b[i + 1] <= lim[i + 1] + 1e-12 for i in range(0, len(b), 2)), 'mesh inside the axes limits ' + what)


@contextlib.contextmanager
def shown(seen):
    """Quick views, without waiting."""
    pause, show = plt.pause, plt.show
    plt.pause = lambda t: seen.append(plt.gcf().axes[0])
    plt.show = lambda *a, **k: None
    try:
        yield
    finally:
        plt.pause, plt.show = pause, show


# ---------------------------------------------------------------- functions
def inside(c, x, tol=1e-9):
    if x.shape[1] == 1:
        a, b = c.base().coordinates()[0], c.head().coordinates()[0]
        return (x[:, 0] >= a - tol) & (x[:, 0] <= b + tol)
    return G.in_quad(G.cell_xy(c), x) >= -tol


def make_function(rng, mesh, flags, most=3):
    """(function, one-sided values(cell, x, order, sample), samples, kind, submesh, element)"""
    dim = mesh.dim()
    kind = ['nodal', 'nodal', 'nodal', 'explicit', 'constant'][int(rng.integers(0, 5))]
    m = int(rng.integers(1, most + 1))
    if kind == 'constant':
        v = rng.normal(size=m)
        f = Constant(v) if m > 1 else Constant(float(v[0]))
        return f, lambda c, x, o, s: np.full(len(x), v[s]), m, kind, None, None
    if kind == 'explicit':
        a = rng.normal(size=(m, dim))
        fs = [lambda x, w=w: np.cos(x @ w) + w[0] for w in a]
        f = Explicit(fs if m > 1 else fs[0], dim=dim)
        return f, lambda c, x, o, s: fs[s](x), m, kind, None, None
    sub = flags[int(rng.integers(0, len(flags)))]
    el, et, nd = F.element(rng, dim)
    dh = DofHandler(mesh, el)
    dh.distribute_dofs(subforest_flag=sub)
    b = Basis(dh, 'u', sub)
    data = rng.normal(size=(b.n_dofs(), m))
    f = Nodal(data=data.copy(), basis=b)
    deg = int(et[-1])

    def value(c, x, o, s):
        r = G.bilinear_inv(G.cell_xy(c), x) if dim == 2 else (x - c.base().coordinates()[0]) / (c.head().coordinates()[0] - c.base().coordinates()[0])
        return F.shape_values(c, deg, r, o) @ data[[int(b.d2i(d)) for d in dh.get_cell_dofs(c)], s]
    return f, value, m, kind, sub, et


def one_sided(cells, value, x, o, s):
    """For each point the values from all cells that contain it: list of arrays."""
    out = [[] for _ in x]
    for c in cells:
        i = np.nonzero(inside(c, x))[0]
        if len(i):
            for k, v in zip(i, value(c, x[i], o, s)):
                out[k].append(v)
    return out


def agree(z, vals, tol):
    z = np.ravel(z)
    return len(z) == len(vals) and all(len(v) and min(abs(a - b) for b in v) <= tol for a, b_, v in zip(z, z, vals))


def show_function(ctx, rng, mesh, info, flags):
    dim = mesh.dim()
    how = 'line'
    if dim == 2:
        x0, x1, y0, y1 = mesh.bounding_box()
        full = abs(sum(G.poly_area(G.cell_xy(c)) for c in F.leaves(mesh, flags[-1])) - (x1 - x0) * (y1 - y0)) < 1e-9
        todo = (['contour', 'surface'] if full else []) + ['wire']
        how = todo[int(rng.integers(0, len(todo)))]
    f, value, m, kind, sub, et = make_function(rng, mesh, flags, 1 if how == 'surface' else 3)
    cells = F.leaves(mesh, sub)
    s = int(rng.integers(0, m))
    what = '%s %s %s sub=%s sample %d of %d' % (kind, et, info, sub, s, m)
    kw = {} if kind == 'nodal' and rng.uniform() < 0.7 else {'mesh': mesh}
    quick = rng.uniform() < 0.25
    P = Plot(time=0.01) if quick else Plot(quickview=False)
    seen = []

    def call(method, d3=False, **k):
        if quick and method != 'surface':
            with shown(seen):
                getattr(P, method)(f, **k, **kw)
            ctx.ok('quickview', len(seen) == 1 and not plt.get_fignums(), 'one figure shown, then closed: ' + what)
            return seen.pop()
        ax = plt.figure().add_subplot(111, **({'projection': '3d'} if d3 else {}))
        ctx.ok('line' if dim == 1 else 'contour', getattr(P, method)(f, axis=ax, **k, **kw) is ax, 'axis returned by %s %s' % (method, what))
        return ax
    if dim == 1:
        line(ctx, rng, call, mesh, cells, value, m, s, kind, et, what)
    else:
        der = [(0,), (0,), (1, 0), (1, 1), (2, 0, 1)][int(rng.integers(0, 5))] if kind == 'nodal' and how != 'wire' else (0,)
        o = tuple(der[1:]) if der[0] else ()
        what += ' %s %s' % (how, der)
        k, rec = {}, []
        if how != 'wire':
            nx, ny = (int(v) for v in rng.integers(3, 14, 2))
            k['resolution'] = (nx, ny)
            if der != (0,):
                k['derivative'] = der
        elif rng.uniform() < 0.7:
            k['resolution'] = int(rng.integers(2, 8))
        if how == 'contour' and rng.uniform() < 0.5:
            k['colorbar'] = False
        if how != 'surface' and (m > 1 or rng.uniform() < 0.5):
            k['n_sample'] = s
        with recording(rec):
            ax = call(how, d3=how != 'contour', **k)
        limits(ctx, ax, mesh, what)
        if how == 'wire':
            polys = [np.array(p, dtype=float) for _, p in rec if _ == 'poly']
            n = k.get('resolution', 10)
            if ctx.ok('wire', len(polys) == len(cells) and all(p.shape == (4 * n, 3) for p in polys), lambda: '%s: %d polygons for %d cells' % (what, len(polys), len(cells))):
                for c in cells:
                    p = G.cell_xy(c)
                    t = np.linspace(0, 1, n)[:, None]
                    pts = np.vstack([p[i] * (1 - t) + p[(i + 1) % 4] * t for i in range(4)])
                    near = [q for q in polys if np.abs(q[:, :2] - pts).max() < 1e-9]
                    if ctx.ok('wire', len(near) == 1, 'outline of cell %s %s' % (c.get_node_address(), what)):
                        w = value(c, pts, (), s)
                        ctx.close('wire', near[0][:, 2], w, 1e-6, 'heights over cell %s %s' % (c.get_node_address(), what), scale=max(1, np.abs(w).max()))
                lo, hi = ax.get_zlim()
                z = np.concatenate([q[:, 2] for q in polys])
                ctx.ok('limits', lo <= z.min() + 1e-9 and hi >= z.max() - 1e-9, 'heights inside the axis limits ' + what)
        else:
            got = [p for n_, p in rec if n_ == how]
            if not ctx.ok(how, len(got) == 1, 'plots drawn %d %s' % (len(got), what)):
                return
            X, Y, Z = (np.asarray(v, dtype=float) for v in got[0])
            if X.ndim == 1:
                X, Y = np.meshgrid(X, Y)
            gx, gy = np.meshgrid(np.linspace(x0, x1, nx), np.linspace(y0, y1, ny))
            if ctx.ok(how, X.shape == gx.shape == Z.shape and np.allclose(X, gx) and np.allclose(Y, gy), 'grid ' + what):
                x = np.column_stack([X.ravel(), Y.ravel()])
                vals = one_sided(cells, value, x, o, s)
                sc = max([1] + [abs(v) for u in vals for v in u])
                ctx.ok(how, agree(Z, vals, (1e-6, 1e-5, 1e-4)[len(o)] * sc), 'values ' + what)
    plt.close('all')
    ctx.sig(info['type'], G.mesh_sig(mesh, sub), what)
    ctx.note(what)


@contextlib.contextmanager
def recording(rec):
    """Data handed to contourf, plot_surface and 3D polygons."""
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d.axes3d import Axes3D
    old = Axes.contourf, Axes.contour, Axes3D.plot_surface, Poly3DCollection.set_verts
    depth = [0]

    def contour(fn):
        def g(self, *a, **k):
            rec.append(('contour', a[:3]))
            return fn(self, *a, **k)
        return g

    def surface(self, X, Y, Z, *a, **k):
        rec.append(('surface', (X, Y, Z)))
        depth[0] += 1
        try:
            return old[2](self, X, Y, Z, *a, **k)
        finally:
            depth[0] -= 1

    def verts(self, v, *a, **k):
        if not depth[0]:
            rec.extend(('poly', [tuple(q) for q in p]) for p in v)
        return old[3](self, v, *a, **k)
    Axes.contourf, Axes.contour, Axes3D.plot_surface, Poly3DCollection.set_verts = contour(old[0]), contour(old[1]), surface, verts
    try:
        yield
    finally:
        Axes.contourf, Axes.contour, Axes3D.plot_surface, Poly3DCollection.set_verts = old


def line(ctx, rng, call, mesh, cells, value, m, s, kind, et, what):
    k = {}
    n = 4
    if rng.uniform() < 0.6:
        n = k['resolution'] = int(rng.integers(2, 9))
    several = m > 1 and rng.uniform() < 0.4
    samples = sorted(rng.permutation(m)[:int(rng.integers(1, m + 1))].tolist()) if several else [s]
    if several:
        k['i_sample'] = np.array(samples)
    elif m > 1 or rng.uniform() < 0.5:
        k['i_sample'] = s
    if rng.uniform() < 0.3:
        k['plot_kwargs'] = {'color': 'red'}
    ax = call('line', **k)
    what += ' line %s' % k
    limits(ctx, ax, mesh, what)
    lines = ax.lines
    if not ctx.ok('line', len(lines) == len(samples), 'lines drawn %d %s' % (len(lines), what)):
        return
    cells = sorted(cells, key=lambda c: c.base().coordinates()[0])
    torn = kind == 'nodal' and et.startswith('D')
    for l, i in zip(lines, samples):
        if 'plot_kwargs' in k:
            ctx.ok('line', to_rgba(l.get_color()) == to_rgba('red'), 'colour ' + what)
        x, y = (np.asarray(v, dtype=float) for v in l.get_data())
        want_x, want_y = [], []
        for c in cells:
            t = np.linspace(c.base().coordinates()[0], c.head().coordinates()[0], n)
            want_x.append(t)
            want_y.append(value(c, t[:, None], (), i))
        # pieces separated by gaps
        gap = np.isnan(x) | np.isnan(y)
        pieces, cur = [], []
        for a, b, g in zip(x, y, gap):
            if g:
                pieces, cur = pieces + [cur], []
            else:
                cur.append((a, b))
        pieces = [np.array(p) for p in pieces + [cur] if p]
        wx, wy = np.concatenate(want_x), np.concatenate(want_y)
        got = np.vstack(pieces)
        sc = max(1, np.abs(wy).max())
        if ctx.ok('line', len(got) == len(wx), 'points drawn %d, expected %d %s' % (len(got), len(wx), what)):
            ctx.close('line', got[:, 0], wx, 1e-9, 'abscissae ' + what)
            ctx.close('line', got[:, 1], wy, 1e-9, 'values ' + what, scale=sc)
        ctx.ok('line', len(pieces) == (len(cells) if torn else 1), 'pieces %d of %d cells %s' % (len(pieces), len(cells), what))
        lo, hi = ax.get_ylim()
        ctx.ok('limits', lo <= wy.min() + 1e-9 * sc and hi >= wy.max() - 1e-9 * sc, 'values inside the axis limits ' + what)


def run(case, ctx):
    rng = ctx.rng
    mesh, wrap, info, flags = F.fem_mesh(rng, case['kind'], maxcells=12, rmax=2)
    with contextlib.redirect_stdout(io.StringIO()):
        (show_mesh if case['what'] == 'mesh' else show_function)(ctx, rng, mesh, info, flags)
    plt.close('all')
