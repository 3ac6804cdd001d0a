"""F01: shape functions and their derivatives, on the reference cell and mapped to physical cells."""
import functools
import numpy as np
from vmon import gens as G
from vmon.props.m08 import get_cell
from fem import QuadFE, parse_derivative_info

RULE = ('A case is one element (order 0-3, continuous or not, 1D/2D), one cell and 1-8 reference points; values and derivatives '
        'are compared with an independent Lagrange basis built from the documented node positions. Distinct by element, cell '
        'kind and points.')
REQUIRED = {'nodal': 200, 'unity': 300, 'value': 300, 'ref-derivative': 600, 'mapped-derivative': 300, 'nodes': 200, 'subset': 200, 'mapped-subset': 300,
            'hanging-coefficients': 30, 'parse': 30}
ELEMENTS = ['DQ0', 'Q1', 'DQ1', 'Q2', 'DQ2', 'Q3', 'DQ3']

EDGE = {0: [0.5], 1: [0, 1], 2: [0, 1, 0.5], 3: [0, 1, 1 / 3, 2 / 3]}
t = 1 / 3
NODES2 = {
    0: [(.5, .5)],
    1: [(0, 0), (1, 0), (1, 1), (0, 1)],
    2: [(0, 0), (1, 0), (1, 1), (0, 1), (.5, 0), (1, .5), (.5, 1), (0, .5), (.5, .5)],
    3: [(0, 0), (1, 0), (1, 1), (0, 1), (t, 0), (2 * t, 0), (1, t), (1, 2 * t), (2 * t, 1), (t, 1), (0, 2 * t), (0, t),
        (t, t), (2 * t, t), (t, 2 * t), (2 * t, 2 * t)]}


def cases(tier):
    k = 3 if tier == 'quick' else 15
    return [{'kind': 'shape', 'etype': e, 'dim': d, 'cell': c}
            for e in ELEMENTS for d, cs in ((1, ['interval']), (2, ['rect', 'para', 'quad', 'child'])) for c in cs
            for _ in range(12 * k)]


def nodes(dim, deg):
    return np.array(EDGE[deg], dtype=float)[:, None] if dim == 1 else np.array(NODES2[deg], dtype=float)


@functools.lru_cache(maxsize=None)
def lagrange1(deg):
    """Polynomials of the 1D Lagrange basis at equispaced points, by node position."""
    if deg == 0:
        return {0.5: np.poly1d([1.0])}
    xs = [i / deg for i in range(deg + 1)]
    out = {}
    for x in xs:
        p = np.poly1d([1.0])
        for y in xs:
            if y != x:
                p = p * np.poly1d([1.0, -y]) / (x - y)
        out[round(x, 6)] = p
    return out


def ref_value(dim, deg, n, x, der=()):
    """d^der of basis function n at reference points, from the independent basis."""
    L = lagrange1(deg)
    nd = nodes(dim, deg)[n]
    out = np.ones(len(x))
    for d in range(dim):
        p = L[round(float(nd[d]), 6)]
        k = sum(1 for v in der if v == d)
        out = out * (p.deriv(k) if k else p)(x[:, d])
    return out


def run(case, ctx):
    rng = ctx.rng
    dim, et = case['dim'], case['etype']
    deg = int(et[-1])
    el = QuadFE(dim, et)
    nd = nodes(dim, deg)
    n = el.n_dofs()
    ctx.ok('nodes', el.dim() == dim and el.polynomial_degree() == deg and el.element_type() == et and
           el.torn_element() == et.startswith('D') and n == len(nd), '%s attributes' % et)
    v, e = el.n_dofs('vertex'), el.n_dofs('edge')
    ctx.ok('nodes', (2 * v + e if dim == 1 else 4 * v + 4 * e + el.n_dofs('cell')) == n, 'dofs per entity')
    ctx.close('nodes', el.reference_nodes(), nd, 1e-14, 'reference nodes of %s' % et)
    ctx.close('nodal', el.shape(nd), np.eye(n), 1e-13, 'values of %s in its nodes' % et)
    x = np.round(rng.uniform(0, 1, (int(rng.integers(1, 9)), dim)), 6)
    if rng.uniform() < 0.3:
        x[rng.integers(0, len(x))] = rng.integers(0, 2, dim)
    what = '%s %dD %s' % (et, dim, case['cell'])
    N = el.shape(x)
    ctx.close('unity', N.sum(axis=1), np.ones(len(x)), 1e-12, 'sum of shape functions ' + what)
    want = np.column_stack([ref_value(dim, deg, i, x) for i in range(n)])
    ctx.close('value', N, want, 1e-12, 'shape functions ' + what)
    ders = [(1, i) for i in range(dim)] + ([(2, 0, 0)] if dim == 1 else [(2, i, j) for i in range(2) for j in range(2)])
    refd = {d: np.column_stack([ref_value(dim, deg, i, x, d[1:]) for i in range(n)]) for d in ders}
    for d in ders:
        ctx.close('ref-derivative', el.shape(x, derivatives=d), refd[d], 1e-11, 'reference derivative %s %s' % (d, what))
    many = el.shape(x, derivatives=[(0,)] + ders)
    ctx.ok('subset', len(many) == 1 + len(ders), 'list of derivatives')
    ctx.close('subset', many[0], want, 1e-12, what)
    loc = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
    ctx.close('subset', el.shape(x, local_dofs=loc), want[:, loc], 1e-12, 'local dofs %s %s' % (loc, what))

    for d, p in zip(ders, el.shape(x, derivatives=list(ders), local_dofs=loc)):
        ctx.close('subset', p, refd[d][:, loc], 1e-11, 'reference derivative %s of local dofs %s %s' % (d, loc, what))

    # ---- mapped to a cell
    cell = get_cell(rng, case['cell'])
    if dim == 1:
        a, b = cell.base().coordinates()[0], cell.head().coordinates()[0]
        y, mg = cell.reference_map(a + (b - a) * x, mapsto='reference', jac_p2r=True, hess_p2r=True)
        J, H = mg['jac_p2r'], mg['hess_p2r']
        tru = {(1, 0): refd[(1, 0)] / (b - a), (2, 0, 0): refd[(2, 0, 0)] / (b - a) ** 2}
    else:
        xy = G.cell_xy(cell)
        px = G.bilinear(xy, x)
        y, mg = cell.reference_map(px, mapsto='reference', jac_p2r=True, hess_p2r=True)
        J, H = mg['jac_p2r'], mg['hess_p2r']
        Jr = G.bilinear_jac(xy, x)                          # dx_i/dr_k
        Ji = np.linalg.inv(Jr)                              # dr_k/dx_i
        hx = xy[0] - xy[1] + xy[2] - xy[3]                  # mixed second derivative of the map
        g = np.stack([refd[(1, 0)], refd[(1, 1)]], axis=2)              # pts x fn x 2
        Gx = np.einsum('pfk,pki->pfi', g, Ji)
        tru = {(1, 0): Gx[:, :, 0], (1, 1): Gx[:, :, 1]}
        Hr = np.stack([np.stack([refd[(2, 0, 0)], refd[(2, 0, 1)]], 2), np.stack([refd[(2, 1, 0)], refd[(2, 1, 1)]], 2)], 2)
        corr = np.einsum('pfi,i->pf', Gx, hx)
        Hr = Hr.copy()
        Hr[:, :, 0, 1] -= corr
        Hr[:, :, 1, 0] -= corr
        Hx = np.einsum('pfkl,pki,plj->pfij', Hr, Ji, Ji)
        for i in range(2):
            for j in range(2):
                tru[(2, i, j)] = Hx[:, :, i, j]
    for d in ders:
        got = el.shape(x, cell=cell, derivatives=d, jac_p2r=J, hess_p2r=H)
        ctx.close('mapped-derivative', got, tru[d], 2e-7 if case['cell'] in ('quad', 'child') else 1e-9,
                  'derivative %s on a cell, %s' % (d, what))
    got = el.shape(x, cell=cell, derivatives=[(0,)] + ders, jac_p2r=J, hess_p2r=H)
    ctx.close('mapped-derivative', got[0], want, 1e-12, what)
    mix = [(0,)] + ders
    mix = [mix[i] for i in rng.permutation(len(mix))]
    tol = 2e-7 if case['cell'] in ('quad', 'child') else 1e-9
    for d, p in zip(mix, el.shape(x, cell=cell, derivatives=mix, jac_p2r=J, hess_p2r=H, local_dofs=loc)):
        ctx.close('mapped-subset', p, (want if d == (0,) else tru[d])[:, loc], tol, 'derivative %s of local dofs %s on a cell, %s' % (d, loc, what))

    # ---- constraint coefficients of a bisected edge
    if dim == 2 and deg > 0 and not el.torn_element():
        cc = el.constraint_coefficients()
        dpe = deg - 1
        L = lagrange1(deg)
        xs = sorted(L)
        odd = [i for i in range(2 * dpe + 3) if i % 2]
        ctx.ok('hanging-coefficients', [sorted(cc[0]), sorted(cc[1])] ==
               [[i for i in odd if i <= dpe + 1], [i - dpe - 1 for i in odd if i >= dpe + 1]], 'hanging nodes of the two halves %s' % et)
        for half in (0, 1):
            for i, c in cc[half].items():
                s = 0.5 * i / (dpe + 1) + 0.5 * half
                ctx.close('hanging-coefficients', c, [float(L[q](s)) for q in xs], 1e-12, 'coefficients half %d node %d %s' % (half, i, et))
    pairs = [('v', (0,)), ('ux', (1, 0)), ('wy', (1, 1)), ('vxx', (2, 0, 0)), ('vxy', (2, 0, 1)), ('vyx', (2, 1, 0)),
             ('vyy', (2, 1, 1)), ((1, 1), (1, 1))]
    s, want = pairs[int(rng.integers(0, len(pairs)))]
    ctx.ok('parse', parse_derivative_info(s) == want, s)
    ctx.sig(et, dim, case['cell'], x.tolist())
    ctx.note('%s at %s' % (what, x[:2].tolist()))
