"""
Reference model of a forest of refinement trees with flags: a map address -> set of flags,
plus the documented effect of every operation.  Addresses are tuples.
"""


class Model(object):
    def __init__(self, roots, nch):
        self.nch = nch                       # children per split (regular trees)
        self.f = {(i,): set() for i in range(roots)}

    # --- structure
    def kids(self, a, flag=None):
        out = [a + (i,) for i in range(self.nch) if a + (i,) in self.f]
        return [c for c in out if flag is None or flag in self.f[c]]

    def roots(self):
        return sorted(a for a in self.f if len(a) == 1)

    def preorder(self, start=None):
        stack = self.roots()[::-1] if start is None else [start]
        while stack:
            a = stack.pop()
            yield a
            stack.extend(self.kids(a)[::-1])

    def level_order(self, start=None):
        queue = self.roots() if start is None else [start]
        i = 0
        while i < len(queue):
            queue.extend(self.kids(queue[i]))
            i += 1
        return queue

    def leaves(self, sub=None, flag=None, mode='breadth-first', start=None):
        order = self.level_order(start) if mode == 'breadth-first' else list(self.preorder(start))
        out = [a for a in order if (sub is None or sub in self.f[a]) and not self.kids(a, sub)]
        return [a for a in out if flag is None or flag in self.f[a]]

    def below(self, a):
        return [b for b in self.f if len(b) > len(a) and b[:len(a)] == a]

    def split(self, a):
        assert not self.kids(a)
        for i in range(self.nch):
            self.f[a + (i,)] = set()

    def prune(self, a):
        for b in self.below(a):
            del self.f[b]

    # --- flags
    def mark(self, a, flag, recursive=False, up=False):
        self.f[a].add(flag)
        if recursive:
            for b in ([a[:k] for k in range(1, len(a))] if up else self.below(a)):
                self.f[b].add(flag)

    def unmark(self, a, flag, recursive=False, up=False):
        todo = [a]
        if recursive:
            todo += [a[:k] for k in range(1, len(a))] if up else self.below(a)
        for b in todo:
            if flag is None:
                self.f[b].clear()
            else:
                self.f[b].discard(flag)

    def root_subtrees(self, flag):
        for a in list(self.f):
            if len(a) == 1:
                self.f[a].add(flag)
        for a in [a for a in self.f if flag in self.f[a]]:
            for k in range(1, len(a)):
                anc = a[:k]
                self.f[anc].add(flag)
                for c in self.kids(anc):
                    self.f[c].add(flag)

    def is_rooted(self, flag):
        if flag is None:
            return True
        for a in self.f:
            if len(a) == 1 and flag not in self.f[a]:
                return False
            if flag in self.f[a] and len(a) > 1:
                if flag not in self.f[a[:-1]]:
                    return False
                if any(flag not in self.f[c] for c in self.kids(a[:-1])):
                    return False
        return True

    def record(self, flag):
        for a in self.f:
            self.f[a].add(flag)

    def refine(self, sub=None, ref=None, new=None, clean=True):
        if sub is not None:
            self.root_subtrees(sub)
        for a in self.leaves(sub):
            if new is not None:
                self.f[a].add(new)
            if ref is not None and ref not in self.f[a]:
                continue
            if not self.kids(a):
                self.split(a)
            lab = new if new is not None else sub
            if lab is not None:
                for c in self.kids(a):
                    self.f[c].add(lab)
            if ref is not None and clean:
                self.f[a].discard(ref)
        if new is not None:
            self.root_subtrees(new)

    def coarsen(self, sub=None, cflag=None, new=None, clean=True):
        if sub is not None:
            self.root_subtrees(sub)
        for r in self.roots():
            self._coarsen(r, sub, cflag, new, clean)

    def _coarsen(self, a, sub, cflag, new, clean):
        if sub is not None and sub not in self.f[a]:
            return
        if cflag is not None:
            do = cflag in self.f[a]
        else:
            k = self.kids(a, sub)
            do = bool(k) and not any(self.kids(c, None) for c in k)
        if new is not None:
            self.f[a].add(new)
        if do:
            if new is not None:
                pass
            elif sub is not None:
                for b in self.below(a):
                    self.f[b].discard(sub)
            else:
                self.prune(a)
            if cflag is not None and clean:
                self.f[a].discard(cflag)
        elif self.kids(a, sub):
            for c in self.kids(a):
                self._coarsen(c, sub, cflag, new, clean)

    def refines(self, test, ref):
        """Is the submesh `test` a refinement of the submesh `ref`? (both rooted)"""
        T = {a for a in self.f if test is None or test in self.f[a]}
        R = {a for a in self.f if ref is None or ref in self.f[a]}
        return R <= T

    def depth(self, start=None):
        return max(len(a) - 1 for a in self.preorder(start))
