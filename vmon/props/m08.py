"""M08: reference maps of cells and edges: images, inverses, Jacobians and Hessians."""
import numpy as np
from vmon import gens as G
from mesh import Vertex, convert_to_array

RULE = ('A case is one cell (interval, rectangle in any vertex order, parallelogram or convex quadrilateral, root or refined '
        'child) with 1-20 reference points; images, inverses, Jacobians and Hessians are compared with the closed-form '
        'bilinear map and with finite differences of it. Non-trivial: every case; distinct by vertex coordinates.')
REQUIRED = {'forward': 500, 'inverse': 500, 'jacobian': 500, 'hessian': 300, 'edge-map': 500, 'formats': 5000}
ASSUMPTIONS = ['quadrilaterals are convex with corner angles bounded away from 0 and 180 degrees (sines times edge lengths above 1 % of the diameter squared)']


def cases(tier):
    k = 2 if tier == 'quick' else 15
    return [{'kind': kd} for kd in ('interval', 'rect', 'para', 'quad', 'quad', 'child', 'distorted', 'near') for _ in range(70 * k)]


def get_cell(rng, kind):
    if kind == 'interval':
        m, _ = G.mesh1d(rng)
        G.random_refine(rng, m, int(rng.integers(0, 4)))
        lv = m.cells.get_leaves()
        return lv[int(rng.integers(0, len(lv)))]
    if kind == 'rect':
        pts, con = G.quad_points_rect(1, 1, box=G.rnd_box2(rng))
        con = [[int(i) for i in np.roll(con[0], int(rng.integers(0, 4)))]]
    elif kind == 'para':
        pts, con = G.quad_points_rect(1, 1)
        pts = G.affine(rng, pts)
    elif kind == 'near':
        # almost a rectangle, or a trapezoid with some sides on the axes
        pts, con = G.quad_points_rect(1, 1, box=G.rnd_box2(rng))
        size = 10 ** rng.uniform(-5, -0.7)
        for k in ([0, 1, 2, 3], [0], [2, 3], [1, 3])[int(rng.integers(0, 4))]:
            d = size * rng.uniform(-1, 1, 2) * [(1, 1), (1, 0), (0, 1)][int(rng.integers(0, 3))]
            pts[k] = (pts[k][0] + float(d[0]), pts[k][1] + float(d[1]))
        con = [[int(i) for i in np.roll(con[0], int(rng.integers(0, 4)))]]
    elif kind == 'distorted':
        while True:
            pts = rng.uniform(0, 1, (4, 2))
            m = pts.mean(0)
            pts = pts[np.argsort(np.arctan2(pts[:, 1] - m[1], pts[:, 0] - m[0]))]
            e = np.roll(pts, -1, 0) - pts
            f = np.roll(e, -1, 0)
            if (e[:, 0] * f[:, 1] - e[:, 1] * f[:, 0]).min() > 0.02:
                break
        pts, con = pts * rng.uniform(0.3, 3) + rng.normal(size=2), [[0, 1, 2, 3]]
    else:
        while True:
            pts, con = G.quad_points_rect(1, 1, rng, 0.25)
            if G.convex(pts, con, 0.3):
                break
        pts = G.affine(rng, pts)
        con = [[int(i) for i in np.roll(con[0], int(rng.integers(0, 4)))]]
    m = G.QuadMesh(x=pts, connectivity=con)
    if kind == 'child' or rng.uniform() < 0.3:
        G.random_refine(rng, m, 3, 0.5)
    lv = m.cells.get_leaves()
    return lv[int(rng.integers(0, len(lv)))]


def formats(rng, p):
    """The points p, an (n, dim) array, in every accepted format: (name, value, number of points)."""
    n, dim = p.shape
    tup = lambda q: tuple(float(v) for v in q)
    out = [('array', p.copy(), n), ('tuples', [tup(q) for q in p], n), ('vertices', [Vertex(tup(q)) for q in p], n),
           ('tuple', tup(p[0]), 1), ('vertex', Vertex(tup(p[0])), 1), ('array of one', p[:1].copy(), 1),
           ('fortran', np.asfortranarray(p), n)]
    if dim == 1:
        out += [('numbers', [float(v) for v in p[:, 0]], n), ('vector', p[:, 0].copy(), n), ('number', float(p[0, 0]), 1),
                ('strided', np.repeat(p[:, 0], 2)[::2], n)]
    else:
        out += [('rows', [q.copy() for q in p], n), ('row', p[0].copy(), 1), ('strided', np.repeat(p, 2, axis=0)[::2], n)]
    return out


def check_formats(ctx, rng, cell, p, to):
    want, mg = cell.reference_map(p.copy(), mapsto=to, jac_p2r=True, jac_r2p=True, hess_p2r=True, hess_r2p=True)
    dim = p.shape[1]
    # derivatives asked for alone are those asked for together
    for key in mg:
        _, one = cell.reference_map(p.copy(), mapsto=to, **{key: True})
        ctx.ok('formats', list(one) == [key] and np.allclose(np.array(one[key]), np.array(mg[key]), rtol=1e-12, atol=1e-14),
               '%s alone, to %s' % (key, to))
    for name, x, n in formats(rng, p):
        y, g = cell.reference_map(x, mapsto=to, jac_p2r=True, jac_r2p=True, hess_p2r=True, hess_r2p=True)
        z = cell.reference_map(x, mapsto=to)
        ctx.close('formats', np.reshape(y, (-1, dim)), want[:n], 1e-12, 'points as %s to %s' % (name, to))
        ctx.close('formats', np.reshape(z, (-1, dim)), want[:n], 1e-12, 'points as %s to %s' % (name, to))
        ctx.ok('formats', all(len(g[k]) == n and np.allclose(np.array(g[k]), np.array(mg[k])[:n], rtol=1e-10, atol=1e-12) for k in mg),
               'derivatives for points as %s to %s' % (name, to))
        a, single = convert_to_array(x, dim=dim, return_is_singleton=True)
        ctx.close('formats', a, p[:n], 1e-15, 'points as %s' % name)
        ctx.ok('formats', a.shape == (n, dim) and (not single or n == 1), 'array of points as %s' % name)


def run(case, ctx):
    rng = ctx.rng
    cell = get_cell(rng, case['kind'])
    n = int(rng.integers(1, 20))
    if case['kind'] == 'interval':
        a, b = cell.base().coordinates()[0], cell.head().coordinates()[0]
        r = rng.uniform(size=n)
        if n > 2:
            r[0], r[1] = 0, 1
        x, mg = cell.reference_map(r, mapsto='physical', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
        ctx.close('forward', np.ravel(x), a + (b - a) * r, 1e-12, 'interval map')
        y, mi = cell.reference_map(np.asarray(x), mapsto='reference', jac_r2p=True, jac_p2r=True)
        ctx.close('inverse', np.ravel(y), r, 1e-10, 'interval inverse')
        for m in (mg, mi):
            ctx.close('jacobian', np.ravel(m['jac_r2p']), np.full(n, b - a), 1e-12, 'interval jacobian')
            ctx.close('jacobian', np.ravel(m['jac_p2r']), np.full(n, 1 / (b - a)), 1e-10, 'interval jacobian')
        ctx.close('hessian', np.ravel(mg['hess_r2p']), np.zeros(n), 1e-12)
        ctx.close('hessian', np.ravel(mg['hess_p2r']), np.zeros(n), 1e-12)
        p = np.unique(np.append(r, [0.25, 0.75]))[:, None]
        check_formats(ctx, rng, cell, p, 'physical')
        check_formats(ctx, rng, cell, a + (b - a) * p, 'reference')
        ctx.sig('interval', a, b)
        return
    xy = G.cell_xy(cell)
    r = rng.uniform(size=(n, 2))
    if n > 5:
        r[:4] = [[0, 0], [1, 0], [1, 1], [0, 1]]
        r[4] = [0.5, 0]
    want = G.bilinear(xy, r)
    x = cell.reference_map(r, mapsto='physical')
    ctx.close('forward', x, want, 1e-12, 'bilinear image')
    if n > 5:
        ctx.close('forward', x[:4], xy, 1e-12, 'corners')
    J = G.bilinear_jac(xy, r)
    x2, mg = cell.reference_map(r, mapsto='physical', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    ctx.close('forward', x2, want, 1e-12, 'bilinear image')
    y, mi = cell.reference_map(want, mapsto='reference', jac_r2p=True, jac_p2r=True, hess_r2p=True, hess_p2r=True)
    ctx.close('inverse', y, r, 1e-9, 'inverse map')
    ctx.close('inverse', cell.reference_map(want, mapsto='reference'), r, 1e-9, 'inverse map')
    Ji = np.linalg.inv(J)
    sj = max(1, np.abs(Ji).max())
    for m, tol in ((mg, 1e-10), (mi, 1e-7)):
        ctx.close('jacobian', np.array(m['jac_r2p']), J, tol, 'jac_r2p')
        ctx.close('jacobian', np.array(m['jac_p2r']), Ji, tol, 'jac_p2r', scale=sj ** 2)
    # Hessians: h[:,:,i] = second derivatives of component i
    D = xy[0] - xy[1] + xy[2] - xy[3]
    Hr = np.zeros((n, 2, 2, 2))
    for i in range(2):
        Hr[:, 0, 1, i] = Hr[:, 1, 0, i] = D[i]
    ctx.close('hessian', np.array(mg['hess_r2p']), Hr, 1e-10, 'hess_r2p')
    # inverse function: d2 r_k/dx_a dx_b = - sum_ij Ji[k,c] Hr[i,j,c] Ji[i,a] Ji[j,b]
    Hp = -np.einsum('nkc,nijc,nia,njb->nabk', Ji, Hr, Ji, Ji)
    ctx.close('hessian', np.array(mg['hess_p2r']), Hp, 1e-8, 'hess_p2r', scale=sj ** 4)
    ctx.close('hessian', np.array(mi['hess_p2r']), Hp, 1e-6, 'hess_p2r (inverse)', scale=sj ** 4)
    check_formats(ctx, rng, cell, r, 'physical')
    check_formats(ctx, rng, cell, want, 'reference')
    for i in range(4):
        he = cell.get_half_edge(i)
        p, q = xy[i], xy[(i + 1) % 4]
        t = rng.uniform(0, 1, size=n)
        t[0] = 0.0
        e, me = he.reference_map(t, mapsto='physical', jac_r2p=True, hess_r2p=True)
        ctx.close('edge-map', np.array(e), p + t[:, None] * (q - p), 1e-12, 'edge image')
        ctx.close('edge-map', np.array(me['jac_r2p']).reshape(n, 2), np.tile(q - p, (n, 1)), 1e-12, 'edge jacobian')
        mid = (p + q) / 2
        back = he.reference_map([tuple(p), tuple(mid)], mapsto='reference')
        ctx.close('edge-map', np.ravel(back), [0, 0.5], 1e-9, 'edge inverse')
        pts = p + np.array([[0.0], [0.5], [1.0]]) * (q - p)
        for name, x, k in formats(rng, pts):
            ctx.close('formats', np.ravel(he.reference_map(x, mapsto='reference')), [0, 0.5, 1][:k], 1e-9, 'edge points as %s' % name)
    ctx.sig(case['kind'], np.round(xy, 6).tolist())
    ctx.note('%s cell %s' % (case['kind'], np.round(xy, 3).tolist()))
