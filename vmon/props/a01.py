"""A01: quadrature rules on reference regions and mapped to cells, edges and intervals."""
import numpy as np
from math import factorial
from vmon import gens as G
from vmon.props.m08 import get_cell
from assembler import GaussRule
from fem import QuadFE

RULE = ('A case is one rule (order, shape) and one physical cell; integrals of random polynomials up to the order of exactness are '
        'compared with closed forms on the reference region and with boundary integrals (Green) on the cell. '
        'Distinct by rule and cell.')
REQUIRED = {'reference': 400, 'positive': 200, 'interval': 100, 'cell': 300, 'edge': 300, 'subregion': 150, 'triangle': 20}


def cases(tier):
    k = 1 if tier == 'quick' else 15
    return ([{'kind': 'interval', 'n': n} for n in range(1, 7) for _ in range(15 * k)] +
            [{'kind': c, 'n': n} for n in range(1, 7) for c in ('rect', 'para', 'quad', 'child') for _ in range(8 * k)] +
            [{'kind': 'triangle', 'n': n} for n in (1, 3, 7, 13) for _ in range(8 * k)])


def green(xy, a, b, m=12):
    """Integral of x^a y^b over a polygon."""
    t, w = np.polynomial.legendre.leggauss(m)
    t, w = (t + 1) / 2, w / 2
    s = 0.0
    for i in range(len(xy)):
        p, q = xy[i], xy[(i + 1) % len(xy)]
        x = p[0] + t * (q[0] - p[0])
        y = p[1] + t * (q[1] - p[1])
        s += np.sum(w * x ** (a + 1) / (a + 1) * y ** b) * (q[1] - p[1])
    return s


def run(case, ctx):
    rng = ctx.rng
    n = case['n']
    if case['kind'] == 'triangle':
        rule = GaussRule(n, shape='triangle')
        x, w = rule.nodes(), rule.weights()
        deg = {1: 1, 3: 2, 7: 5, 13: 7}[n]
        a = int(rng.integers(0, deg + 1))
        b = int(rng.integers(0, deg + 1 - a))
        ctx.ok('triangle', x.shape == (n, 2) and len(w) == n == rule.n_nodes() and rule.dim() == 2 and rule.shape() == 'triangle', n)
        ctx.close('triangle', np.sum(w * x[:, 0] ** a * x[:, 1] ** b), factorial(a) * factorial(b) / factorial(a + b + 2), 1e-9,
                  'x^%d y^%d with %d points on the triangle' % (a, b, n))
        ctx.sig('triangle', n, a, b)
        return
    dim = 1 if case['kind'] == 'interval' else 2
    shape = 'interval' if dim == 1 else 'quadrilateral'
    el = QuadFE(dim, 'Q1')
    rule = GaussRule(n ** dim, shape=shape) if rng.uniform() < 0.5 else GaussRule(n ** dim, element=el)
    x, w = rule.nodes(), rule.weights()
    d = 2 * n - 1
    what = '%s rule of %d points' % (shape, n ** dim)
    ctx.ok('positive', rule.n_nodes() == n ** dim == len(w) and rule.dim() == dim and rule.shape() == shape, what)
    ctx.ok('positive', np.all(w > 0) and np.all(x > 0) and np.all(x < 1), what)
    ctx.ok('positive', len(np.unique(np.round(x.reshape(n ** dim, dim), 10), axis=0)) == n ** dim, 'distinct nodes ' + what)
    for _ in range(3):
        e = rng.integers(0, d + 1, dim)
        ctx.close('reference', np.sum(w * np.prod(x.reshape(-1, dim) ** e, axis=1)), np.prod(1.0 / (e + 1)), 1e-13,
                  'monomial %s, %s' % (e, what))
    # sub-region of the reference cell: exact on the sub-region
    pos = rng.uniform(0, 0.5, dim)
    sc = float(rng.uniform(0.1, 0.5))
    xs, ws = rule.scale_rule(float(pos[0]) if dim == 1 else pos[None, :], sc)
    e = rng.integers(0, d + 1, dim)
    want = np.prod(((pos + sc) ** (e + 1) - pos ** (e + 1)) / (e + 1))
    ctx.close('subregion', np.sum(ws * np.prod(np.reshape(xs, (-1, dim)) ** e, axis=1)), want, 1e-13, 'sub-region %s' % what)
    y = rng.uniform(0, 1, (3, dim)) if dim == 2 else rng.uniform(0, 1, 3)
    ctx.close('subregion', rule.scale_rule(float(pos[0]) if dim == 1 else pos[None, :], sc, nodes=y), pos + sc * y if dim == 2 else
              pos[0] + sc * y, 1e-14, 'given nodes on a sub-region')
    cell = get_cell(rng, case['kind'])
    if dim == 1:
        a, b = cell.base().coordinates()[0], cell.head().coordinates()[0]
        for f in ('mapped_rule', 'map_rule'):
            xg, wg = getattr(rule, f)(cell)
            e = int(rng.integers(0, d + 1))
            ctx.close('interval', np.sum(wg * np.ravel(xg) ** e), (b ** (e + 1) - a ** (e + 1)) / (e + 1), 1e-12, 'x^%d on [%g,%g] %s' % (e, a, b, what))
        xg, wg, mg = rule.mapped_rule(cell, jac_p2r=True, hess_p2r=True)
        ctx.close('interval', np.ravel(mg['jac_p2r']), np.full(n, 1 / (b - a)), 1e-10, what)
        ctx.sig('interval', n, a, b)
        return
    xy = G.cell_xy(cell)
    c = xy.mean(axis=0)                     # integrate about the centre: keeps the numbers tame
    rect = cell.is_rectangle() or case['kind'] in ('rect', 'para')
    k = (d if case['kind'] == 'rect' else d) if rect else d - 1
    for f in ('mapped_rule', 'map_rule'):
        xg, wg = getattr(rule, f)(cell)
        a = int(rng.integers(0, k + 1))
        b = int(rng.integers(0, k + 1 - a))
        ctx.close('cell', np.sum(wg * (xg[:, 0] - c[0]) ** a * (xg[:, 1] - c[1]) ** b), green(xy - c, a, b), 1e-12,
                  'monomial (%d,%d) on %s, %s' % (a, b, np.round(xy, 3).tolist(), what))
        ctx.ok('cell', np.all(wg > 0), 'positive weights on the cell ' + what)
    edge = GaussRule(n, shape='interval')
    i = int(rng.integers(0, 4))
    he = cell.get_half_edge(i)
    p, q = xy[i], xy[(i + 1) % 4]
    L = float(np.linalg.norm(q - p))
    g = rng.normal(size=2)
    e = int(rng.integers(0, d + 1))
    # integral of (g.(x-p))^e ds
    s = float(g @ (q - p))
    for f in ('mapped_rule', 'map_rule'):
        xg, wg = getattr(edge, f)(he)
        ctx.close('edge', np.sum(wg * ((np.asarray(xg) - p) @ g) ** e), L * s ** e / (e + 1), 1e-12, 'edge %d of %s, %s' %
                  (i, np.round(xy, 3).tolist(), what))
        ctx.ok('edge', np.all(wg > 0), 'positive weights on the edge')
    ctx.sig(case['kind'], n, np.round(xy, 6).tolist())
    ctx.note('%s on %s' % (what, np.round(xy, 3).tolist()))
