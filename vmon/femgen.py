"""Workloads for the finite element layer: balanced meshes with submeshes, elements, dof positions."""
import numpy as np
from vmon import gens as G, topo
from vmon.props.f01 import nodes, ref_value
from fem import QuadFE, DofHandler, Basis

CONT = ['Q1', 'Q2', 'Q3']
TORN = ['DQ0', 'DQ1', 'DQ2', 'DQ3']


def fem_mesh(rng, kind, labels=True, maxcells=25, kinds=None, rmax=3):
    """A balanced mesh with up to two labelled submeshes: (mesh, wrap, info, flags)."""
    wrap = topo.Wrap()
    if kind == '1d':
        mesh, info = G.mesh1d(rng)
    elif kind == '1dper':
        mesh, info = G.mesh1d(rng, periodic=True)
        wrap = topo.Wrap(list(mesh.bounding_box()), {0})
    elif kind == 'periodic':
        mesh, info = G.mesh_periodic(rng)
        wrap = topo.Wrap(info['box'], info['per'])
    else:
        mesh, info = G.mesh2d(rng, nmax=2) if kinds is None else G.mesh2d(rng, kinds=kinds, nmax=2)
    flags = [None]
    labels = labels and rng.uniform() < 0.6
    # the coarsest submesh: as fine as the mesh so far, or several levels coarser
    early = labels and rng.uniform() < 0.4
    if early:
        mesh.cells.record('s')
    G.random_refine(rng, mesh, int(rng.integers(early, rmax + early)), 0.35, maxcells=maxcells, balance=mesh.dim() == 2)
    if labels:
        if not early:
            mesh.cells.record('s')
        elif rng.uniform() < 0.6:
            # refine the submesh itself, somewhere inside or beyond the mesh
            for _ in range(int(rng.integers(1, 3))):
                G.refine_label(rng, mesh, 's', None, 0.3)
                if mesh.dim() == 2:
                    mesh.balance(subforest_flag='s')
                    mesh.balance()
        flags.append('s')
        G.refine_label(rng, mesh, 's', 't', 0.25)
        if mesh.dim() == 2:
            mesh.balance(subforest_flag='t')
            mesh.balance()
        flags.append('t')
    return mesh, wrap, info, flags


def cell_nodes(cell, nd):
    """Positions of the reference nodes nd in a cell."""
    if nd.shape[1] == 1:
        a, b = cell.base().coordinates()[0], cell.head().coordinates()[0]
        return a * (1 - nd) + b * nd
    return G.bilinear(G.cell_xy(cell), nd)


def element(rng, dim, names=None):
    names = names or CONT + TORN
    et = names[int(rng.integers(0, len(names)))]
    return QuadFE(dim, et), et, nodes(dim, int(et[-1]))


def leaves(mesh, flag=None):
    return mesh.cells.get_leaves(subforest_flag=flag)


def shape_values(cell, deg, s, order=()):
    """(points, functions) derivatives d^order in physical coordinates of a cell's Lagrange basis, at reference points s."""
    dim = s.shape[1]
    nd = nodes(dim, deg)
    ref = lambda o: np.column_stack([ref_value(dim, deg, n, s, o) for n in range(len(nd))])
    if not order:
        return ref(())
    if dim == 1:
        h = cell.head().coordinates()[0] - cell.base().coordinates()[0]
        return ref(order) / h ** len(order)
    xy = G.cell_xy(cell)
    Ji = np.linalg.inv(G.bilinear_jac(xy, s))                       # dr_k/dx_i
    g = np.stack([ref((0,)), ref((1,))], axis=2)
    Gx = np.einsum('pfk,pki->pfi', g, Ji)
    if len(order) == 1:
        return Gx[:, :, order[0]]
    hx = xy[0] - xy[1] + xy[2] - xy[3]
    Hr = np.stack([np.stack([ref((0, 0)), ref((0, 1))], 2), np.stack([ref((1, 0)), ref((1, 1))], 2)], 2)
    corr = np.einsum('pfi,i->pf', Gx, hx)
    Hr[:, :, 0, 1] -= corr
    Hr[:, :, 1, 0] -= corr
    return np.einsum('pfkl,pk,pl->pf', Hr, Ji[:, :, order[0]], Ji[:, :, order[1]])
