"""U01: explicit and constant functions: every input format, sample and parameter combination."""
import numpy as np
from vmon import gens as G
from mesh import Vertex
from function import Explicit, Constant

RULE = ('A case is one explicit or constant function (1D/2D, one or two variables, 1-4 rules, 1-4 parameter sets, edited by a random '
        'history of set/add operations) evaluated at 1-8 points in every admissible input format; values are compared with direct '
        'evaluation of the rules. Distinct by function structure, format and points.')
REQUIRED = {'explicit': 600, 'format': 600, 'constant': 200, 'samples': 300, 'shared': 600, 'rejected': 40}


def cases(tier):
    k = 12 if tier == 'quick' else 100
    return [{'kind': 'explicit'} for _ in range(220 * k)] + [{'kind': 'constant'} for _ in range(60 * k)]


def formats(rng, x):
    """The same (n, dim) points in all formats."""
    n, dim = x.shape
    out = [('array', x)]
    if dim == 1:
        out += [('vector', x[:, 0].copy()), ('tuples', [(float(v),) for v in x[:, 0]]), ('numbers', [float(v) for v in x[:, 0]])]
    else:
        out += [('tuples', [tuple(float(v) for v in p) for p in x]), ('arrays', [p.copy() for p in x])]
    out.append(('vertices', [Vertex(tuple(float(v) for v in p)) for p in x]))
    if n == 1:
        p = tuple(float(v) for v in x[0])
        out += [('tuple', p), ('vertex', Vertex(p))]
        if dim == 1:
            out.append(('number', p[0]))
    return out


def rule(rng, dim, nv):
    c = rng.normal(size=(nv, dim))
    d = float(rng.normal())
    kind = int(rng.integers(0, 3))

    def f(*x, a=1.0, b=0.0):
        s = d + sum(x[i] @ c[i] for i in range(nv))
        v = a * (np.sin(s) if kind else s ** 2) + b * x[0][:, 0]
        return v[:, None] if kind == 2 else v
    return f


def par(rng):
    p = {}
    if rng.uniform() < 0.7:
        p['a'] = float(rng.normal())
    if rng.uniform() < 0.7:
        p['b'] = float(rng.normal())
    return p


def run(case, ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    if case['kind'] == 'constant':
        nv = int(rng.integers(1, 3))
        m = int(rng.integers(1, 5))
        data = rng.normal(size=m)
        f = Constant(float(data[0]) if m == 1 and rng.uniform() < 0.5 else data.copy(), n_variables=nv)
        if rng.uniform() < 0.3:
            m = int(rng.integers(1, 4))
            data = rng.normal(size=m)
            f.set_data(data.copy())
        dim = int(rng.integers(1, 3))
        x = rng.normal(size=(n, dim))
        v = f.eval(x if nv == 1 else (x, rng.normal(size=(n, dim))))
        ctx.close('constant', v, np.tile(data, (n, 1)), 0, 'constant %s' % data)
        ctx.ok('constant', f.n_samples() == m and np.array_equal(f.data(), data), 'data')
        ctx.ok('constant', f.n_variables() == nv and f.is_symmetric() and f.basis() is None, 'attributes')
        ctx.raises('rejected', lambda: Constant(np.ones((2, 2))), Exception, '2D data')
        ctx.sig('constant', m, nv, n, dim)
        return
    dim, nv = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    nf, npar = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if nf > 1 and npar > 1:
        npar = nf
    fs = [rule(rng, dim, nv) for _ in range(nf)]
    ps = [par(rng) for _ in range(npar)]
    kw = {}
    if npar > 1 or rng.uniform() < 0.5:
        kw['parameters'] = [dict(p) for p in ps] if npar > 1 or rng.uniform() < 0.3 else dict(ps[0])
    else:
        ps = [{}]
    sym = nv == 2 and rng.uniform() < 0.3
    rules = list(fs) if nf > 1 or rng.uniform() < 0.5 else fs[0]
    f = Explicit(rules, dim=dim, n_variables=nv, symmetric=sym, **kw)
    f2 = Explicit(rules, dim=dim, n_variables=nv, symmetric=sym, **kw)      # from the same lists
    m = max(nf, npar)
    model = [(fs[i if nf > 1 else 0], ps[i if npar > 1 else 0]) for i in range(m)]
    hist = []
    for _ in range(int(rng.integers(0, 4))):
        op = int(rng.integers(0, 4))
        g, p = rule(rng, dim, nv), par(rng)
        hist.append(op)
        if op == 0:
            f.add_rule(g, dict(p))
            model.append((g, p))
        elif op == 1:
            pos = int(rng.integers(0, len(model)))
            f.set_rules(g, dict(p), pos=pos)
            model[pos] = (g, p)
        elif op == 2:
            pos = int(rng.integers(0, len(model)))
            f.set_parameters(dict(p), pos=pos)
            model[pos] = (model[pos][0], p)
        else:
            f.set_parameters(dict(p))
            model = [(h, p) for h, _ in model]
    model2 = [(fs[i if nf > 1 else 0], ps[i if npar > 1 else 0]) for i in range(m)]
    for g in [f] if rng.uniform() < 0.1 else []:
        # rules replaced at once
        g.set_rules([h for h, _ in model2], [dict(p) for _, p in model2])
        model = list(model2)
        hist.append('all')
    what = '%dD %d variables, %d samples, history %s' % (dim, nv, len(model), hist)
    ctx.ok('samples', f.n_samples() == len(model) and f.dim() == dim and f.n_variables() == nv and f.is_symmetric() == sym, what)
    ctx.ok('samples', list(f.rules()) == [h for h, _ in model] and list(f.parameters()) == [p for _, p in model], 'rules ' + what)
    ctx.ok('shared', list(f2.rules()) == [h for h, _ in model2] and list(f2.parameters()) == [p for _, p in model2],
           'another function of the same rules changed ' + what)
    ctx.ok('shared', not isinstance(rules, list) or len(rules) == nf and all(a is b for a, b in zip(rules, fs)), 'list of rules changed ' + what)
    q = kw.get('parameters', {})
    ctx.ok('shared', q == ([dict(p) for p in ps] if isinstance(q, list) else dict(ps[0])), 'parameters changed ' + what)
    xs = [rng.normal(size=(n, dim)) for _ in range(nv)]
    want = np.column_stack([np.ravel(h(*xs, **p)) for h, p in model])
    ctx.close('explicit', f.eval(xs[0] if nv == 1 else tuple(xs)), want, 1e-13, what)
    fo = [formats(rng, x) for x in xs]
    if nv == 1:
        for name, y in fo[0]:
            ctx.close('format', f.eval(y), want, 1e-13, 'points as %s %s' % (name, what))
    else:
        for _ in range(3):
            a, b = fo[0][int(rng.integers(0, len(fo[0])))], fo[1][int(rng.integers(0, len(fo[1])))]
            ctx.close('format', f.eval((a[1], b[1])), want, 1e-13, 'points as %s, %s %s' % (a[0], b[0], what))
        ctx.raises('rejected', lambda: f.eval(xs[0]), Exception, 'one argument for two variables')
        ctx.raises('rejected', lambda: f.eval((xs[0], rng.normal(size=(n + 1, dim)))), Exception, 'different numbers of points')
    ctx.close('explicit', f.eval(xs[0] if nv == 1 else tuple(xs)), want, 1e-13, 'repeated ' + what)
    ctx.sig(dim, nv, nf, npar, n, hist)
    ctx.note(what)
