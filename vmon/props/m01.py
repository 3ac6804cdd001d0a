"""M01: refinement forest structure under arbitrary histories of splitting, marking and deleting."""
import numpy as np
from vmon import gens as G
from vmon.forestmodel import Model
from mesh import Tree, Forest

RULE = ('A case is one history of 6-30 splits, deletions, marks, unmarks and uniform refinements on a forest '
        '(plain trees with 2-5 children, irregular trees, 1D/2D mesh cells); it is non-trivial when the final '
        'forest has at least two levels, distinct by final address set.')
REQUIRED = {'structure': 1000, 'traversal': 500, 'leaves': 500, 'lookup': 1000, 'flags': 300, 'irregular': 50}
ASSUMPTIONS = ['trees enter the forest before they are split; trees are not removed from the forest']


def cases(tier):
    k = 1 if tier == 'quick' else 10
    out = [{'kind': 'tree'} for _ in range(150 * k)]
    out += [{'kind': 'mesh1d'} for _ in range(60 * k)]
    out += [{'kind': 'mesh2d'} for _ in range(90 * k)]
    out += [{'kind': 'irregular'} for _ in range(50 * k)]
    out += [{'kind': 'free'} for _ in range(40 * k)]
    return out


def nodemap(forest):
    """address -> node, walking down by child positions only."""
    out = {}

    def walk(node, a):
        out[a] = node
        for i in range(node.n_children()):
            c = node.get_child(i)
            if c is not None:
                walk(c, a + (i,))
    for i in range(forest.n_children()):
        walk(forest.get_child(i), (i,))
    return out


def check_structure(ctx, forest, model, rng):
    nm = nodemap(forest)
    ctx.ok('structure', set(nm) == set(model.f),
           lambda: 'nodes %s expected %s' % (sorted(set(nm) - set(model.f))[:5], sorted(set(model.f) - set(nm))[:5]))
    if set(nm) != set(model.f):
        return
    ctx.ok('structure', len({id(n) for n in nm.values()}) == len(nm), 'same node in two places')
    for a, n in nm.items():
        kids = model.kids(a)
        good = (tuple(n.get_node_address()) == a and n.get_node_position() == a[-1]
                and n.get_depth() == len(a) - 1 and n.has_children() == bool(kids)
                and n.get_root() is nm[a[:1]])
        if len(a) == 1:
            good = good and n.get_node_type() == 'ROOT' and not n.has_parent() and n.get_parent() is None \
                and n.in_forest() and n.get_forest() is forest
        else:
            good = good and n.has_parent() and n.get_parent() is nm[a[:-1]] \
                and n.get_node_type() == ('BRANCH' if kids else 'LEAF')
        ctx.ok('structure', good, lambda: 'node %s: address %s type %s depth %s' %
               (a, n.get_node_address(), n.get_node_type(), n.get_depth()))
    flags = sorted({f for s in model.f.values() for f in s}, key=str) + ['never']
    for f in flags:
        for a, n in nm.items():
            if n.is_marked(f) != (f in model.f[a]):
                ctx.ok('flags', False, 'node %s flag %r is %s' % (a, f, n.is_marked(f)))
                break
        else:
            ctx.ok('flags', True)
    ctx.ok('flags', all(n.is_marked() == bool(model.f[a]) for a, n in nm.items()), 'is_marked()')

    # traversals, whole forest and one subtree
    inv = {id(n): a for a, n in nm.items()}

    def addr(nodes):
        return [inv.get(id(n)) for n in nodes]
    keys = sorted(model.f)
    start = keys[int(rng.integers(0, len(keys)))]
    for flag in [None, flags[int(rng.integers(0, len(flags)))]]:
        for mode, ref in (('depth-first', lambda s: list(model.preorder(s))),
                          ('breadth-first', lambda s: model.level_order(s))):
            for s in (None, start):
                want = [a for a in ref(s) if flag is None or flag in model.f[a]]
                it = forest if s is None else nm[s]
                got = addr(it.traverse(flag=flag, mode=mode))
                ctx.ok('traversal', got == want, lambda: '%s from %s flag %s: %s expected %s' %
                       (mode, s, flag, got[:8], want[:8]))
                w = model.leaves(None, flag, mode, s)
                g = addr(it.get_leaves(flag=flag, mode=mode))
                ctx.ok('leaves', g == w, lambda: 'leaves %s from %s flag %s: %s expected %s' %
                       (mode, s, flag, g[:8], w[:8]))
    ctx.ok('lookup', forest.depth() == model.depth(), 'forest depth')
    ctx.ok('lookup', nm[start].tree_depth() == model.depth(start), 'tree depth of %s' % (start,))
    for flag in flags[:3]:
        # the deepest node below `start` that is reached through marked nodes only
        want, todo = len(start), [start]
        while todo:
            a = todo.pop()
            want = max(want, len(a))
            todo += [b for b in keys if len(b) == len(a) + 1 and b[:len(a)] == a and flag in model.f[b]]
        ctx.ok('lookup', nm[start].tree_depth(flag=flag) == nm[start].get_depth() + want - len(start),
               'tree depth of %s flag %s' % (start, flag))
    # leaves partition: every node is on exactly one root-to-leaf family; every leaf under its ancestors
    lv = addr(forest.get_leaves())
    ctx.ok('leaves', all(sum(1 for b in lv if b == a or b[:len(a)] == a or a[:len(b)] == b) >= 1 for a in keys),
           'leaf cover')
    for _ in range(8):
        a = keys[int(rng.integers(0, len(keys)))]
        b = keys[int(rng.integers(0, len(keys)))]
        ctx.ok('lookup', forest.find_node(list(a)) is nm[a], 'find %s' % (a,))
        ctx.ok('lookup', nm[a].contains(nm[b]) == (b[:len(a)] == a), '%s contains %s' % (a, b))
        bad = list(b) + [int(rng.integers(0, model.nch))]
        if tuple(bad) not in model.f:
            r = forest.find_node(bad)
            ctx.ok('lookup', r is None, lambda: 'find of non-existing %s gives %s' % (bad, r.get_node_address()))
        f = flags[int(rng.integers(0, len(flags)))]
        anc = [a[:k] for k in range(len(a), 0, -1)]
        w = next((x for x in anc if f in model.f[x]), None)
        g = nm[a].nearest_ancestor(f)
        ctx.ok('lookup', g is (nm[w] if w else None), 'nearest ancestor of %s with %s' % (a, f))
        w = next((x for x in anc[1:] if f in model.f[x]), None)
        g = nm[a].get_parent(f)
        ctx.ok('lookup', g is (nm[w] if w else None), 'flagged parent of %s with %s' % (a, f))
        ctx.ok('lookup', nm[a].has_children(flag=f) == bool(model.kids(a, f)), 'has_children flag')
        ctx.ok('lookup', addr(nm[a].get_children(flag=f)) == model.kids(a, f), 'get_children flag')
        ctx.ok('lookup', addr(nm[a].get_children(flag=f, reverse=True)) == model.kids(a, f)[::-1], 'reverse children')
        p = int(rng.integers(0, model.nch))
        ctx.ok('lookup', nm[a].has_children(position=p) == (a + (p,) in model.f), 'has_children position')
        ctx.ok('lookup', nm[a].has_children(position=p, flag=f) == (a + (p,) in model.f and f in model.f[a + (p,)]),
               'has_children position and flag')
        ctx.ok('lookup', nm[a].has_parent(flag=f) == (len(a) > 1 and f in model.f[a[:-1]]), 'has_parent flag')
        ctx.ok('lookup', nm[a].n_children() == model.nch and nm[a].is_regular(), 'n_children')
    f = flags[int(rng.integers(0, len(flags)))]
    want = [a for a in model.roots() if f in model.f[a]]
    ctx.ok('lookup', addr(forest.get_children(flag=f)) == want, 'flagged trees')
    ctx.ok('lookup', addr(forest.get_children(reverse=True)) == model.roots()[::-1], 'reversed trees')
    ctx.ok('lookup', addr(forest.get_children(flag=f, reverse=True) or []) == want[::-1] and
           forest.get_children(flag=f, reverse=True) is not None, 'reversed flagged trees')
    ctx.ok('lookup', forest.has_children(flag=f) == bool(want), 'forest has flagged trees')


def op_random(ctx, rng, forest, model, can_delete=True, labels=('a', 'b', 3, True), single=False):
    nm = nodemap(forest)
    keys = sorted(model.f)
    a = keys[int(rng.integers(0, len(keys)))]
    lv = model.leaves()
    op = int(rng.integers(0, 9))
    lab = labels[int(rng.integers(0, len(labels)))]
    if op in (0, 1, 2) and len(model.f) < 160:
        a = lv[int(rng.integers(0, len(lv)))]
        nm[a].split()
        model.split(a)
        name = 'split %s' % (a,)
    elif op == 3 and single and model.kids(a) and rng.uniform() < 0.6:
        # children one by one
        kids = model.kids(a)
        todo = [kids[i] for i in rng.permutation(len(kids))[:int(rng.integers(1, len(kids) + 1))]]
        for c in todo:
            if len(model.kids(a)) > 1 and rng.uniform() < 0.3:
                nm[c].remove()
            else:
                nm[a].delete_children(c[-1])
            model.prune(c)
            del model.f[c]
        name = 'delete-single %s' % (todo,)
    elif op == 3 and can_delete and model.kids(a):
        nm[a].delete_children()
        model.prune(a)
        name = 'delete %s' % (a,)
    elif op in (4, 5):
        rec, up = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
        if lab is True and rng.uniform() < 0.5:
            nm[a].mark(recursive=rec, reverse=up)       # the default label
        else:
            nm[a].mark(lab, recursive=rec, reverse=up)
        model.mark(a, lab, rec, up)
        name = 'mark'
    elif op == 6:
        rec, up = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))
        l = None if rng.uniform() < 0.15 else lab
        nm[a].unmark(l, recursive=rec, reverse=up)
        model.unmark(a, l, rec, up)
        name = 'unmark'
    elif op == 7 and len(model.f) < 60:
        forest.refine()
        model.refine()
        name = 'refine all'
    else:
        k = 1 + int(rng.integers(0, 2))
        for _ in range(k):
            lv = model.leaves()
            if len(model.f) > 160:
                break
            a = lv[int(rng.integers(0, len(lv)))]
            nm = nodemap(forest)
            nm[a].mark('__r')
            model.mark(a, '__r')
        forest.refine(refinement_flag='__r')
        model.refine(ref='__r')
        name = 'refine marked'
    ctx.stat('op ' + name.split()[0])
    return name


def run(case, ctx):
    rng = ctx.rng
    kind = case['kind']
    if kind == 'irregular':
        return run_irregular(case, ctx)
    if kind == 'free':
        return run_free(case, ctx)
    if kind == 'tree':
        nch = int(rng.integers(2, 6))
        nr = int(rng.integers(1, 5))
        first = [None, 'a', {'a', 3}, True]
        first = [first[int(rng.integers(0, 4))] for _ in range(nr)]
        if rng.uniform() < 0.5:
            forest = Forest([Tree(n_children=nch, flag=f) for f in first])
        else:
            forest = Forest()
            for f in first:
                if rng.uniform() < 0.5:
                    forest.add_tree(Tree(n_children=nch, flag=f))
                else:
                    Tree(n_children=nch, forest=forest, flag=f)
        ctx.ok('lookup', forest.is_regular() and forest.n_children() == nr, 'regular forest')
    elif kind == 'mesh1d':
        mesh, info = G.mesh1d(rng)
        forest, nch, nr = mesh.cells, 2, info['n']
    else:
        mesh, info = G.mesh2d(rng) if rng.uniform() < 0.7 else G.mesh_periodic(rng)
        forest, nch = mesh.cells, 4
        nr = forest.n_children()
    model = Model(nr, nch)
    if kind == 'tree':
        for i, f in enumerate(first):
            model.f[(i,)] = set() if f is None else set(f) if isinstance(f, set) else {f}
    hist = []
    check_structure(ctx, forest, model, rng)
    for s in range(int(rng.integers(6, 30))):
        hist.append(op_random(ctx, rng, forest, model, single=kind == 'tree'))
        check_structure(ctx, forest, model, rng)
        if ctx.violations:
            break
    if model.depth() >= 1:
        ctx.sig(kind, nch, tuple(sorted(model.f)))
    ctx.note('%s roots=%d history=%s' % (kind, nr, hist[:6]))


def run_irregular(case, ctx):
    """Irregular trees grown by add_child/split(n)."""
    rng = ctx.rng
    root = Tree(regular=False)
    kids = {(): []}
    for s in range(int(rng.integers(4, 25))):
        a = list(kids)[int(rng.integers(0, len(kids)))]
        node = root.find_node(list(a))
        if not ctx.ok('irregular', node is not None and node.get_depth() == len(a), 'find %s' % (a,)):
            return
        if rng.uniform() < 0.5 and not kids[a]:
            n = int(rng.integers(1, 4))
            node.split(n)
        else:
            n = 1
            node.add_child()
        for _ in range(n):
            c = a + (len(kids[a]),)
            kids[a].append(c)
            kids[c] = []
    got = {tuple(n.get_node_address()) for n in root.traverse()}
    ctx.ok('irregular', got == set(kids), 'node set')
    for a in kids:
        n = root.find_node(list(a))
        ctx.ok('irregular', tuple(n.get_node_address()) == a and n.n_children() == len(kids[a])
               and n.get_root() is root and n.tree_depth() == max(len(b) for b in kids if b[:len(a)] == a)
               and (a == () or n.get_parent() is root.find_node(list(a[:-1])))
               and n.get_node_type() == ('ROOT' if a == () else 'BRANCH' if kids[a] else 'LEAF'),
               'node %s type %s' % (a, n.get_node_type()))
    lv = [tuple(n.get_node_address()) for n in root.get_leaves(mode='depth-first')]

    def pre(a):
        yield a
        for c in kids[a]:
            for x in pre(c):
                yield x
    ctx.ok('irregular', lv == [a for a in pre(()) if not kids[a]], 'leaves')
    ctx.ok('irregular', not root.is_regular() and not Forest([root, Tree(n_children=2)]).is_regular(), 'irregular trees and forests')
    if max(len(a) for a in kids) > 1:
        ctx.sig('irr', tuple(sorted(kids)))


def run_free(case, ctx):
    """Free standing regular tree: rooting of flags."""
    rng = ctx.rng
    nch = int(rng.integers(2, 5))
    root = Tree(n_children=nch)
    for s in range(int(rng.integers(2, 12))):
        lv = root.get_leaves()
        lv[int(rng.integers(0, len(lv)))].split()
    nodes = list(root.traverse())
    marked = [n for n in nodes if rng.uniform() < 0.15]
    for n in marked:
        n.mark('x')
    up = {id(n) for n in marked}
    rooted = all((not n.has_parent()) or id(n.get_parent()) in up for n in marked)
    ctx.ok('flags', root.is_rooted_subtree('x') == rooted, 'is_rooted_subtree')
    any_node = nodes[int(rng.integers(0, len(nodes)))]
    any_node.make_rooted_subtree('x')
    want = set()
    for n in marked:
        while n is not None:
            want.add(id(n))
            n = n.get_parent()
    ctx.ok('flags', {id(n) for n in nodes if n.is_marked('x')} == want, 'make_rooted_subtree')
    ctx.ok('flags', root.is_rooted_subtree('x'), 'rooted afterwards')
    d = max([len(n.get_node_address()) for n in nodes])
    ctx.ok('lookup', root.tree_depth() == d, 'depth')
    for n in nodes:
        ctx.ok('lookup', any_node.find_node(n.get_node_address()) is n, 'find_node')
    ctx.ok('lookup', root.find_node([nch + 3]) is None, 'find_node: no such branch')
    ctx.sig('free', nch, tuple(tuple(n.get_node_address()) for n in nodes))
