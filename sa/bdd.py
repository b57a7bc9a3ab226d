"""Small ROBDD package used for the control-dependence predicates.

A predicate is an int.  0 is false, 1 is true.  Atoms are hash-consed terms,
numbered in order of creation."""

FALSE, TRUE = 0, 1


class BDD:
    def __init__(self):
        self.nodes = [(None, None, None), (None, None, None)]
        self.unique = {}
        self.atoms = []          # var index -> atom (Term)
        self.index = {}          # atom -> var index
        self.cache = {}
        self.axioms = TRUE

    def var(self, atom):
        i = self.index.get(atom)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(atom)
            self.index[atom] = i
        return self.mk(i, FALSE, TRUE)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        key = (v, lo, hi)
        n = self.unique.get(key)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(key)
            self.unique[key] = n
        return n

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        key = (f, g, h)
        r = self.cache.get(key)
        if r is not None:
            return r
        nd = self.nodes
        v = nd[f][0]
        if g > 1 and nd[g][0] < v:
            v = nd[g][0]
        if h > 1 and nd[h][0] < v:
            v = nd[h][0]

        def co(x, hi):
            if x < 2 or nd[x][0] != v:
                return x
            return nd[x][2] if hi else nd[x][1]
        lo = self.ite(co(f, 0), co(g, 0), co(h, 0))
        hi = self.ite(co(f, 1), co(g, 1), co(h, 1))
        r = self.mk(v, lo, hi)
        self.cache[key] = r
        return r

    def neg(self, f):
        return self.ite(f, FALSE, TRUE)

    def and_(self, *fs):
        r = TRUE
        for f in fs:
            r = self.ite(r, f, FALSE)
        return r

    def or_(self, *fs):
        r = FALSE
        for f in fs:
            r = self.ite(r, TRUE, f)
        return r

    def feasible(self, f):
        return f != FALSE and self.ite(f, self.axioms, FALSE) != FALSE

    def implies(self, f, g):
        """f -> g under the axioms"""
        return not self.feasible(self.ite(f, self.neg(g), FALSE))

    def equivalent(self, f, g):
        return self.implies(f, g) and self.implies(g, f)

    def add_axiom(self, f):
        self.axioms = self.and_(self.axioms, f)

    def restrict(self, f, care, _memo=None):
        """Coudert-Madre simplification of f with respect to care != 0."""
        if care == TRUE or f < 2:
            return f
        if care == FALSE:
            return f
        memo = {} if _memo is None else _memo
        key = (f, care)
        if key in memo:
            return memo[key]
        nd = self.nodes
        vf, vc = nd[f][0], nd[care][0]
        if vc < vf:
            r = self.restrict(f, self.or_(nd[care][1], nd[care][2]), memo)
        else:
            flo, fhi = nd[f][1], nd[f][2]
            if vc == vf:
                clo, chi = nd[care][1], nd[care][2]
            else:
                clo = chi = care
            if clo == FALSE:
                r = self.restrict(fhi, chi, memo)
            elif chi == FALSE:
                r = self.restrict(flo, clo, memo)
            else:
                r = self.mk(vf, self.restrict(flo, clo, memo),
                            self.restrict(fhi, chi, memo))
        memo[key] = r
        return r

    def assign(self, f, fn, _memo=None):
        """Cofactor: fn(atom) -> True/False/None for each atom of f."""
        memo = {} if _memo is None else _memo
        if f < 2:
            return f
        if f in memo:
            return memo[f]
        v, lo, hi = self.nodes[f]
        val = fn(self.atoms[v])
        if val is True:
            r = self.assign(hi, fn, memo)
        elif val is False:
            r = self.assign(lo, fn, memo)
        else:
            r = self.mk(v, self.assign(lo, fn, memo),
                        self.assign(hi, fn, memo))
        memo[f] = r
        return r

    def exists(self, f, pred, _memo=None):
        """Existentially quantify the atoms for which pred is true."""
        memo = {} if _memo is None else _memo
        if f < 2:
            return f
        if f in memo:
            return memo[f]
        v, lo, hi = self.nodes[f]
        lo, hi = self.exists(lo, pred, memo), self.exists(hi, pred, memo)
        r = self.or_(lo, hi) if pred(self.atoms[v]) else self.mk(v, lo, hi)
        memo[f] = r
        return r

    def support(self, f):
        seen, out, stack = set(), set(), [f]
        while stack:
            x = stack.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(self.atoms[v])
            stack += [lo, hi]
        return out

    def show(self, f, fmt=str, limit=4):
        """Readable sum of cubes (for reports only)."""
        if f == TRUE:
            return 'always'
        if f == FALSE:
            return 'never'
        cubes = []

        def walk(x, acc):
            if len(cubes) > limit:
                return
            if x == TRUE:
                cubes.append(' and '.join(acc) or 'always')
                return
            if x == FALSE:
                return
            v, lo, hi = self.nodes[x]
            a = fmt(self.atoms[v])
            walk(hi, acc + [a])
            walk(lo, acc + ['not ' + a])
        walk(f, [])
        s = ' | '.join(cubes[:limit])
        return s + (' | ...' if len(cubes) > limit else '')
