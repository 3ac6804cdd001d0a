"""M02: flagged submeshes under histories of refine / coarsen / record / root_subtrees."""
import numpy as np
from vmon import gens as G
from vmon.forestmodel import Model
from vmon.props.m01 import nodemap
from mesh import Tree, Forest

RULE = ('A case is one history of 5-18 labelled refinements, coarsenings, recordings and rootings over three '
        'submesh labels on a forest of plain trees, intervals or quad cells; after every step all marks, leaves and '
        'containment answers are compared with a reference model. Non-trivial: at least two labels have different '
        'leaf sets; distinct by (label, leaf set).')
REQUIRED = {'marks': 1000, 'submesh-leaves': 1000, 'rooted': 500, 'containment': 500, 'side-effects': 500,
            'coarsen': 100, 'refine': 300}
ASSUMPTIONS = ['coarsening without a coarsening flag is only issued when no other submesh is finer there']


def cases(tier):
    k = 3 if tier == 'quick' else 10
    return [{'kind': 'tree'} for _ in range(120 * k)] + [{'kind': 'mesh1d'} for _ in range(80 * k)] + \
        [{'kind': 'mesh2d'} for _ in range(120 * k)]


LAB = ['a', 'b', 7]


def compare(ctx, forest, model, what):
    nm = nodemap(forest)
    if not ctx.ok('marks', set(nm) == set(model.f), lambda: 'after %s: node set differs: extra %s missing %s' % (
            what, sorted(set(nm) - set(model.f))[:4], sorted(set(model.f) - set(nm))[:4])):
        return nm
    for f in LAB + ['__r', '__c']:
        got = {a for a, n in nm.items() if n.is_marked(f)}
        want = {a for a in model.f if f in model.f[a]}
        ctx.ok('marks', got == want, lambda: 'after %s: label %r wrongly set on %s, missing on %s' %
               (what, f, sorted(got - want)[:5], sorted(want - got)[:5]))
    inv = {id(n): a for a, n in nm.items()}
    used = [f for f in LAB if any(f in s for s in model.f.values())]
    for f in used:
        r = model.is_rooted(f)
        ctx.ok('rooted', forest.subtrees_rooted(f) == r, 'after %s: subtrees_rooted(%r)' % (what, f))
        if r:
            for mode in ('breadth-first', 'depth-first'):
                got = [inv[id(n)] for n in forest.get_leaves(subforest_flag=f, mode=mode)]
                want = model.leaves(f, mode=mode)
                ctx.ok('submesh-leaves', got == want, lambda: 'after %s: leaves of %r: %s expected %s' %
                       (what, f, got[:6], want[:6]))
            # rooted submesh partitions: each lowest node has exactly one submesh-leaf ancestor-or-self
            lv = set(model.leaves(f))
            got = {inv[id(n)] for n in forest.get_leaves(subforest_flag=f)}
            for a in model.leaves():
                k = sum(1 for i in range(1, len(a) + 1) if a[:i] in got)
                if k != 1:
                    ctx.ok('submesh-leaves', False, 'after %s: finest cell %s is covered %d times by %r' % (what, a, k, f))
                    break
            g = LAB[int(ctx.rng.integers(0, 3))]
            got = [inv[id(n)] for n in forest.get_leaves(subforest_flag=f, flag=g)]
            ctx.ok('submesh-leaves', got == model.leaves(f, g), 'flagged leaves')
    rooted = [f for f in used if model.is_rooted(f)]
    for f in rooted + [None]:
        for g in rooted + [None]:
            ctx.ok('containment', forest.is_contained_in(f, g) == model.refines(f, g),
                   lambda: 'after %s: is_contained_in(%r,%r) = %s' % (what, f, g, forest.is_contained_in(f, g)))
    return nm


def snapshot(model):
    return {a: set(s) for a, s in model.f.items()}


def run(case, ctx):
    rng = ctx.rng
    if case['kind'] == 'tree':
        nch, nr = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        forest = Forest([Tree(n_children=nch) for _ in range(nr)])
        mesh = None
    elif case['kind'] == 'mesh1d':
        mesh, info = G.mesh1d(rng)
        forest, nch, nr = mesh.cells, 2, info['n']
    else:
        mesh, info = G.mesh2d(rng, nmax=2) if rng.uniform() < .8 else G.mesh_periodic(rng, nmax=2)
        forest, nch = mesh.cells, 4
        nr = forest.n_children()
    model = Model(nr, nch)
    hist = []

    def pick(k):
        return LAB[int(rng.integers(0, len(LAB)))] if rng.uniform() < k else None

    def mark_some(flag, nodes, p):
        nm = nodemap(forest)
        n = 0
        for a in nodes:
            if rng.uniform() < p:
                nm[a].mark(flag)
                model.mark(a, flag)
                n += 1
        return n

    for step in range(int(rng.integers(5, 18))):
        op = int(rng.integers(0, 10))
        before = snapshot(model)
        if op <= 4:
            sub, new = pick(0.6), pick(0.6)
            ref = '__r' if rng.uniform() < 0.75 else None
            clean = bool(rng.uniform() < 0.8)
            if len(model.f) > 130 and ref is None:
                ref = '__r'
            if ref:
                # flag some submesh leaves, and sometimes a few unrelated nodes
                m2 = Model(0, nch)
                m2.f = snapshot(model)
                if sub is not None:
                    m2.root_subtrees(sub)
                mark_some('__r', m2.leaves(sub), 0.3 if len(model.f) < 130 else 0.03)
                if rng.uniform() < 0.3:
                    mark_some('__r', sorted(model.f), 0.05)
            what = 'refine(sub=%r, ref=%r, new=%r, clean=%s)' % (sub, ref, new, clean)
            hist.append(what)
            if mesh is None or rng.uniform() < 0.9:
                forest.refine(subforest_flag=sub, refinement_flag=ref, new_label=new, clean_up=clean)
            else:
                mesh.cells.refine(sub, ref, new, clean)
            model.refine(sub, ref, new, clean)
            ctx.tick('refine')
            touched = {x for x in (sub, new) if x is not None}
        elif op <= 6:
            sub, new = pick(0.6), pick(0.5)
            clean = bool(rng.uniform() < 0.8)
            cflag = '__c'
            if rng.uniform() < 0.3:
                m2 = Model(0, nch)
                m2.f = snapshot(model)
                if sub is not None:
                    m2.root_subtrees(sub)
                if sub is None or set(m2.leaves(sub)) == set(m2.leaves()):
                    cflag = None
            if cflag:
                mark_some('__c', [a for a in sorted(model.f) if model.kids(a)], 0.25)
                if rng.uniform() < 0.3:
                    mark_some('__c', sorted(model.f), 0.05)
            what = 'coarsen(sub=%r, flag=%r, new=%r, clean=%s)' % (sub, cflag, new, clean)
            hist.append(what)
            forest.coarsen(subforest_flag=sub, coarsening_flag=cflag, new_label=new, clean_up=clean)
            model.coarsen(sub, cflag, new, clean)
            ctx.tick('coarsen')
            touched = {x for x in (sub, new) if x is not None}
        elif op == 7:
            lab = LAB[int(rng.integers(0, 3))]
            what = 'record(%r)' % lab
            hist.append(what)
            if mesh is not None:
                mesh.record(lab)
            else:
                forest.record(lab)
            model.record(lab)
            touched = {lab}
        elif op == 8:
            lab = LAB[int(rng.integers(0, 3))]
            mark_some(lab, sorted(model.f), 0.05)
            compare(ctx, forest, model, 'mark')
            forest.root_subtrees(lab)
            model.root_subtrees(lab)
            what = 'root_subtrees(%r)' % lab
            hist.append(what)
            touched = {lab}
        else:
            lab = LAB[int(rng.integers(0, 3))]
            nm = nodemap(forest)
            for a in nm:
                nm[a].unmark(lab)
                model.unmark(a, lab)
            what = 'clear %r' % lab
            hist.append(what)
            touched = {lab}
        nm = compare(ctx, forest, model, what)
        # other submeshes keep their marks on the surviving cells
        for f in LAB:
            if f not in touched and op != 8 and set(nm) == set(model.f):
                same = all((f in before[a]) == nm[a].is_marked(f) for a in before if a in nm)
                ctx.ok('side-effects', same, 'after %s: label %r changed' % (what, f))
        if ctx.violations:
            ctx.violations[-1]['history'] = hist
            break
    lvs = {f: tuple(sorted(model.leaves(f))) for f in LAB if any(f in s for s in model.f.values())}
    if len(set(lvs.values())) > 1:
        ctx.sig(case['kind'], nch, tuple(sorted(lvs.items(), key=str)))
    ctx.stat('steps', len(hist))
    ctx.note('%s: %s' % (case['kind'], '; '.join(hist[:5])))
