"""U03: interpolants and derivatives of functions."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from vmon.props.u02 import ref_of, inside, point_in, ORD, der_arg
from fem import DofHandler, Basis, QuadFE
from function import Nodal, Explicit, Constant

RULE = ('A case interpolates one explicit, constant or nodal function on one finite element space (element, submesh), or differentiates one '
        'nodal function, on one balanced mesh; all nodal values and values at random points are compared with direct evaluation. '
        'Distinct by element(s), mesh, submesh(es) and derivative.')
REQUIRED = {'nodal-values': 400, 'reproduce': 150, 'space': 400, 'derivative': 200, 'derivative-values': 100, 'source-kept': 400}


def cases(tier):
    k = 1 if tier == 'quick' else 16
    kinds = ('quad', 'quad', 'periodic', '1d', '1dper')
    return [{'kind': d, 'do': 'interpolant'} for d in kinds for _ in range(120 * k)] + \
           [{'kind': d, 'do': 'derivative'} for d in kinds for _ in range(80 * k)]


def poly(rng, dim, deg, m, tensor=False):
    """m random polynomials of total degree <= deg (tensor: in each variable) as a function of points."""
    co = rng.normal(size=(m,) + (deg + 1,) * dim)
    if dim == 2 and not tensor:
        i, j = np.meshgrid(np.arange(deg + 1), np.arange(deg + 1), indexing='ij')
        co[:, i + j > deg] = 0

    def value(x):
        out = []
        for c in co:
            out.append(np.polynomial.polynomial.polyval(x[:, 0], c) if dim == 1 else
                       np.polynomial.polynomial.polyval2d(x[:, 0], x[:, 1], c))
        return np.column_stack(out)
    return value


def run(case, ctx):
    rng = ctx.rng
    deriv = case['do'] == 'derivative'
    affine = rng.uniform() < 0.6
    while True:
        mesh, wrap, info, flags = F.fem_mesh(rng, case['kind'], maxcells=16,
                                             kinds=['rect', 'para'] if affine and case['kind'] == 'quad' else None)
        if True:
            break
    dim = mesh.dim()
    per = 'per' in case['kind']
    rect = case['kind'] != 'quad' or affine
    el, et, nd = F.element(rng, dim)
    deg = int(et[-1])
    flag = flags[int(rng.integers(0, len(flags)))]
    m = int(rng.integers(1, 4))
    what = '%s %s sub=%s' % (et, info, flag)
    lv = F.leaves(mesh, flag)
    if deriv:
        dh = DofHandler(mesh, el)
        dh.distribute_dofs(subforest_flag=flag if rng.uniform() < 0.5 else None)
        basis = Basis(dh, 'u', flag)
        data = rng.normal(size=(basis.n_dofs(), m))
        f = Nodal(data=data.copy(), basis=basis)
        names = [k for k in ORD if k != 'u' and (dim == 2 or 'y' not in k)]
        name = names[int(rng.integers(0, len(names)))]
        o = ORD[name]
        g = f.differentiate(der_arg(rng, name))
        what += ' derivative ' + name
        b = g.basis()
        ctx.ok('space', b.dofhandler().element.element_type() == 'D' + et.lstrip('D') and g.n_samples() == m and b.mesh() is mesh and
               g.subforest_flag() == flag, 'space of the derivative ' + what)
        ctx.ok('space', b.n_dofs() == len(nd) * len(lv), 'dofs of the derivative ' + what)
        tol = {1: 1e-6, 2: 1e-5}[len(o)]
        for c in lv:
            idx = [int(basis.d2i(d)) for d in dh.get_cell_dofs(c)]
            want = F.shape_values(c, deg, nd, o) @ data[idx]
            got = g.data()[[int(b.d2i(d)) for d in b.dofhandler().get_cell_dofs(c)]]
            ctx.close('derivative', got, want, tol, 'nodal values in cell %s %s' % (c.get_node_address(), what),
                      scale=max(1, np.abs(want).max()))
            if rect:
                x = np.array([point_in(rng, c, dim) for _ in range(2)])
                want = F.shape_values(c, deg, ref_of(c, x), o) @ data[idx]
                ctx.close('derivative-values', g.eval(x), want, tol, 'values in cell %s %s' % (c.get_node_address(), what),
                          scale=max(1, np.abs(want).max()))
        ctx.close('source-kept', f.data(), data, 0, 'differentiated function changed ' + what)
        ctx.sig('d', et, name, info['type'], G.mesh_sig(mesh, flag))
        ctx.note(what)
        return
    # ---- interpolation
    dh = DofHandler(mesh, el)
    src = ['explicit', 'constant', 'poly', 'nodal'][int(rng.integers(0, 4))]
    exact = None
    if src == 'explicit':
        co = rng.normal(size=(m, dim + 1))
        fs = [lambda x, c=c: np.sin(x @ c[:-1]) + c[-1] for c in co]
        f = Explicit(fs if m > 1 else fs[0], dim=dim)
        value = lambda x: np.column_stack([h(x) for h in fs])
    elif src == 'constant':
        c0 = rng.normal(size=m)
        f = Constant(c0)
        value = exact = lambda x: np.tile(c0, (len(x), 1))
    elif src == 'poly':
        value = poly(rng, dim, deg, m, 'rect' in str(info['type']))
        f = Explicit([lambda x, j=j: value(x)[:, j] for j in range(m)], dim=dim)
        if rect:
            exact = value
    else:
        # a nodal function on a coarser (or the same) submesh of lower (or the same) degree
        if flag == 't':
            f1 = ['s', 't'][int(rng.integers(0, 2))]
        else:
            f1 = flag if flag == 's' else [x for x in flags][int(rng.integers(0, len(flags)))]
        lv1 = F.leaves(mesh, f1)
        d1 = int(rng.integers(1, 4))
        el1 = QuadFE(dim, 'Q%d' % d1)
        dh1 = DofHandler(mesh, el1)
        dh1.distribute_dofs(subforest_flag=f1)
        b1 = Basis(dh1, 'u', f1)
        if per or not rect:
            # any continuous function: no hanging nodes on the source
            D1 = rng.normal(size=(b1.n_dofs(), m))
            if len({c.get_depth() for c in lv1}) > 1:
                D1[:] = D1[0]
        else:
            p = poly(rng, dim, d1, m, 'rect' in str(info['type']))
            D1 = np.zeros((b1.n_dofs(), m))
            for c in lv1:
                D1[[int(b1.d2i(d)) for d in dh1.get_cell_dofs(c)]] = p(F.cell_nodes(c, F.nodes(dim, d1)))
        f = Nodal(data=D1.copy(), basis=b1)

        def value(x):
            out = []
            for q in x:
                c = next(c for c in lv1 if inside(c, q[None, :]))
                s = np.clip(ref_of(c, q[None, :]), 0, 1)
                out.append((F.shape_values(c, d1, s) @ D1[[int(b1.d2i(d)) for d in dh1.get_cell_dofs(c)]])[0])
            return np.array(out)
        # same or finer target cells, degree at least that of the source, aligned cells
        if d1 <= deg and rect:
            exact = value
        what += ' from Q%d on %s' % (d1, f1)
    g = f.interpolant(dh, subforest_flag=flag) if flag is not None or rng.uniform() < 0.5 else f.interpolant(dh)
    what = '%s interpolant on %s' % (src, what)
    b = g.basis()
    ctx.ok('space', b.dofhandler() is dh and g.subforest_flag() == flag and g.n_samples() == m, 'space ' + what)
    all_ = sorted({d for c in lv for d in dh.get_cell_dofs(c)})
    ctx.ok('space', list(b.dofs()) == all_ and g.data().shape == (len(all_), m), 'dofs ' + what)
    tol = 1e-5 if src == 'nodal' else 1e-11
    for c in lv:
        idx = [int(b.d2i(d)) for d in dh.get_cell_dofs(c)]
        x = F.cell_nodes(c, nd)
        if per:
            # values at periodic dof vertices may be taken on either side
            keep = [i for i in range(len(nd)) if not wrap_boundary(x[i], wrap)]
            if not keep:
                continue
            idx, x = [idx[i] for i in keep], x[keep]
        ctx.close('nodal-values', g.data()[idx], value(x), tol, 'cell %s %s' % (c.get_node_address(), what))
    if exact is not None and not per:
        cs = [lv[int(rng.integers(0, len(lv)))] for _ in range(5)]
        x = np.array([point_in(rng, c, dim) for c in cs])
        if src != 'constant' or deg >= 0:
            if not (src == 'nodal' and deg == 0):
                ctx.close('reproduce', g.eval(x), exact(x), 1e-7, 'values at random points ' + what)
    if src == 'nodal':
        ctx.close('source-kept', f.data(), D1, 0, what)
    else:
        x = rng.uniform(size=(3, dim))
        ctx.close('source-kept', f.eval(x), value(x), 1e-12, what)
    ctx.sig('i', src, et, info['type'], G.mesh_sig(mesh, flag), m)
    ctx.note(what)


def wrap_boundary(x, wrap):
    for d in wrap.per:
        lo, hi = (wrap.box[2 * d], wrap.box[2 * d + 1])
        if min(abs(x[d] - lo), abs(x[d] - hi)) < 1e-9:
            return True
    return False
