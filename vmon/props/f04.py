"""F04: basis functions as lookup tables: dofs, index maps, comparison and evaluation."""
import numpy as np
from vmon import gens as G
from vmon import femgen as F
from mesh import Mesh1D, QuadMesh
from fem import DofHandler, Basis, QuadFE

RULE = ('A case is one basis (element, derivative, submesh) on one balanced mesh; its dofs, index maps and values on every cell '
        'are compared with the numbering of the nearest cell of its submesh and an independent Lagrange basis. '
        'Distinct by element, derivative, mesh and submesh.')
REQUIRED = {'dofs': 200, 'cell-dofs': 1500, 'index': 400, 'same': 800, 'moved': 300, 'eval': 800, 'eval-physical': 400}


def cases(tier):
    k = 1 if tier == 'quick' else 14
    return [{'kind': d} for d in ('quad', 'quad', 'periodic', '1d', '1dper') for _ in range(50 * k)]


def ancestor(cell, flag):
    c = cell
    while c is not None and not (flag is None or c.is_marked(flag)):
        c = c.get_parent()
    return c


def run(case, ctx):
    rng = ctx.rng
    while True:
        mesh, wrap, info, flags = F.fem_mesh(rng, case['kind'])
        if True:
            break
    dim = mesh.dim()
    el, et, nd = F.element(rng, dim)
    deg = int(et[-1])
    dh = DofHandler(mesh, el)
    dist = flags[int(rng.integers(0, len(flags)))]
    dh.distribute_dofs(subforest_flag=dist)
    flag = dist
    if dist is None:
        flag = flags[int(rng.integers(0, len(flags)))]
    ders = ['u', 'ux', 'uxx'] if dim == 1 else ['u', 'ux', 'uy', 'uxx', 'uxy', 'uyx', 'uyy']
    der = ders[0] if rng.uniform() < 0.4 else ders[int(rng.integers(0, len(ders)))]
    basis = Basis(dh, der, flag) if rng.uniform() < 0.5 else Basis(dh, derivative=der, subforest_flag=flag)
    what = '%s %s der %s sub=%s distributed on %s' % (et, info, der, flag, dist)
    lv = F.leaves(mesh, flag)
    all_ = sorted({x for c in lv for x in dh.get_cell_dofs(c)})
    dofs = list(basis.dofs())
    ctx.ok('dofs', dofs == all_, lambda: '%s: dofs %s..., expected %s...' % (what, dofs[:8], all_[:8]))
    ctx.ok('dofs', basis.n_dofs() == len(all_), 'n_dofs ' + what)
    ctx.ok('dofs', basis.mesh() is mesh and basis.dofhandler() is dh and basis.subforest_flag() == flag, 'attributes ' + what)
    n = len(all_)
    ctx.ok('index', list(basis.i2d(np.arange(n))) == all_, 'i2d ' + what)
    ctx.ok('index', list(basis.d2i(np.array(all_))) == list(range(n)), 'd2i ' + what)
    k = rng.permutation(n)[:4]
    ctx.ok('index', [int(basis.d2i(all_[i])) for i in k] == list(k) and [int(basis.i2d(i)) for i in k] == [all_[i] for i in k], what)
    extra = [x for x in range(all_[-1]) if x not in all_]
    if extra:
        ctx.ok('index', all(v == -1 for v in basis.d2i(np.array(extra))), 'd2i of dofs elsewhere ' + what)
    # comparisons
    dh2 = DofHandler(mesh, el)
    dh2.distribute_dofs()
    for d in (dh, dh2):
        for fl in flags:
            if d is dh and fl != dist and dist is not None:
                continue
            b = Basis(d, 'u', fl)
            ctx.ok('same', basis.same_mesh(b) == (fl == flag) == basis.same_mesh(mesh=mesh, subforest_flag=fl), 'same_mesh ' + what)
            ctx.ok('same', basis.same_dofs(b) == (fl == flag and d is dh), 'same_dofs ' + what)
    other = Mesh1D(resolution=(2,)) if dim == 1 else QuadMesh(resolution=(2, 1))
    if flag is not None:
        other.cells.record(flag)
    dho = DofHandler(other, F.element(rng, dim)[0])
    dho.distribute_dofs()
    ctx.ok('same', not basis.same_mesh(Basis(dho, 'u', flag)) and not basis.same_mesh(mesh=other, subforest_flag=flag) and
           not basis.same_dofs(Basis(dho, 'u', flag)), 'basis on another mesh ' + what)
    # moving a basis to other submeshes
    moved = Basis(dh2, der, flag)
    for _ in range(3):
        fl = flags[int(rng.integers(0, len(flags)))]
        moved.set_subforest_flag(fl)
        have = sorted({x for c in F.leaves(mesh, fl) for x in dh2.get_cell_dofs(c)})
        ctx.ok('moved', moved.subforest_flag() == fl and list(moved.dofs()) == have and moved.n_dofs() == len(have) and
               list(moved.i2d(np.arange(len(have)))) == have and list(moved.d2i(np.array(have))) == list(range(len(have))) and
               moved.derivative() == basis.derivative(), 'basis moved to submesh %s: %s' % (fl, what))
    # cells at or below the leaves of the submesh
    cells = []
    for c in lv:
        cells.append(c)
        if c.has_children():
            cells += list(c.get_children())
            cells += [g for k in c.get_children() if k.has_children() for g in k.get_children()]
    order = {'u': (), 'ux': (0,), 'uy': (1,), 'uxx': (0, 0), 'uxy': (0, 1), 'uyx': (1, 0), 'uyy': (1, 1)}[der]
    for c in cells[:40] if len(cells) <= 40 else [cells[i] for i in rng.permutation(len(cells))[:40]]:
        e = ancestor(c, flag)
        ctx.ok('cell-dofs', list(basis.dofs(c)) == list(dh.get_cell_dofs(e)), lambda: '%s: dofs of cell %s: %s, expected those of %s: %s' %
               (what, c.get_node_address(), basis.dofs(c), e.get_node_address(), dh.get_cell_dofs(e)))
        r = rng.uniform(0.02, 0.98, (int(rng.integers(1, 5)), dim))
        if rng.uniform() < 0.3:
            r[0] = rng.integers(0, 2, dim)
        if dim == 1:
            a0, b0 = c.base().coordinates()[0], c.head().coordinates()[0]
            x = a0 + (b0 - a0) * r
            a1, b1 = e.base().coordinates()[0], e.head().coordinates()[0]
            s = (x - a1) / (b1 - a1)
            want = F.shape_values(e, deg, s, order)
            tol = 1e-7
        else:
            x = G.bilinear(G.cell_xy(c), r)
            s = np.array([np.ravel(G.bilinear_inv(G.cell_xy(e), p)) for p in x])
            want = F.shape_values(e, deg, s, order)
            tol = 1e-5 if len(order) == 2 else 1e-6
        sc = max(1, np.abs(want).max())
        ctx.close('eval', basis.eval(r, c), want, tol, 'values at reference points of %s %s' % (c.get_node_address(), what), scale=sc)
        ctx.close('eval-physical', basis.eval(x, c, location='physical'), want, tol, 'values at points of %s %s' %
                  (c.get_node_address(), what), scale=sc)
    ctx.sig(et, der, info['type'], G.mesh_sig(mesh, flag), str(dist))
    ctx.note(what)
