"""Comparison of what two functions do, as seen by the analysis.

The *reference* states the property: a few lines of Python under spec/ which
are parsed (never run) and analysed by the same engine, in the same tables of
terms and predicates, as the function of the package.  Both summaries are then
compared on the observables that the property is about: values stored into
caller-visible objects, calls leaving the package, raised errors, results.
For each observable the comparison computes the predicate under which both
sides agree; an observable on which they disagree under a feasible predicate
is reported together with the construct of the package that causes it.
"""
from fnmatch import fnmatch

from .bdd import TRUE, FALSE
from . import terms as tm
from .terms import T, const, NONE, is_const

# operators that stand for something the engine did not resolve
OPEN = {'unk', 'cycle', 'unkiter', 'loopseg'}


BINDERS = {'each', 'sum', 'count', 'anyof', 'runmax', 'runmin', 'first',
           'last', 'prod'}


class Norm:
    """identity-free form of terms and predicates"""

    def __init__(self, A):
        self.A = A
        self.memo = {}
        self.nmemo = {}
        self.busy = []
        self.within = []    # while loops being described

    def __call__(self, v):
        return self.A._subst(v, self.fn, self.memo) \
            if not self.busy and not self.within \
            else self.A._subst(v, self.fn, {})

    def node(self, n):
        return self.A.subst_node(n, self.fn, self.memo, self.nmemo)

    def fn(self, t):
        o = t.op
        if o == 'new':
            return self(t.args[1])
        if o in BINDERS:
            t2 = self.alpha(t)
            if t2 is not t:
                return self(t2)
        if o == 'idx':
            d = t.args[0]
            if isinstance(d, tm.Term):
                return T('idx', self(d), *t.args[1:])
        if o == 'while':
            k = t.args[0] if t.args else None
            c = self.A.whiledef.get(k)
            if c is None or k in self.within:
                return T('while')
            self.within.append(k)
            try:
                return T('while', self(self.A.mkb(c)))
            finally:
                self.within.pop()
        if o == 'mu':
            n = t.args[1]
            if n in self.busy:
                return T('self', len(self.busy) - self.busy.index(n))
            d = self.A.mudef.get(n)
            if d is None:
                return T('unk', 'loop value')
            doms = tuple(self(x) for x in t.args[0])
            k = len(self.within)
            self.within += [x.args[0] for x in t.args[0]
                            if x.op == 'while' and x.args]
            self.busy.append(n)
            try:
                init, upd = self.val(d[0]), self.val(d[1])
                me = T('self', 1)
                if upd.op == 'phi' and any(x is me for c, x in upd.args[0]):
                    # kept in all iterations or in none
                    keep = self.A.bdd.or_(*[
                        c for c, x in upd.args[0] if x is me])
                    if not any(x.op in ('idx', 'mu', 'self', 'carry', 'while')
                               for y in self.A.node_terms(keep)
                               for x in tm.subterms(y)):
                        no = self.A.bdd.neg(keep)
                        rest = self.A.phi([
                            (self.A.bdd.and_(c, no), x)
                            for c, x in upd.args[0] if x is not me])
                        return self.A.phi([
                            (keep, init),
                            (no, T('carry', doms, init, rest))])
                return T('carry', doms, init, upd)
            finally:
                self.busy.pop()
                del self.within[k:]
        if o == 'func':
            fi = self.A.prog.by_id[t.args[0]]
            if fi.name == '<lambda>' or '<locals>' in fi.qual:
                return T('func*')
            return T('func', fi.qual)
        return None

    def alpha(self, t):
        """index of a sum, maximum, list ... numbered independent of the
        loops it is written in"""
        A = self.A
        doms = [x for a in t.args if isinstance(a, tuple) for x in a
                if isinstance(x, tm.Term)]
        if not doms:
            return t
        found = set()
        for a in t.args:
            if isinstance(a, tm.Term):
                found |= {x for x in tm.subterms(a) if x.op == 'idx'}
            elif isinstance(a, int) and not isinstance(a, bool):
                found |= {x for x in A.node_terms(a) if x.op == 'idx'}
        m = {}
        for dom in doms:
            own = sorted({x for x in found if x.args[0] is dom},
                         key=lambda x: x.args[1])
            if own:
                d = own[-2].args[1] + 1 if len(own) > 1 else 0
                if own[-1].args[1] != d:
                    m[own[-1]] = T('idx', dom, d)
        if not m:
            return t
        memo, out = {}, []
        for a in t.args:
            if isinstance(a, tm.Term):
                a = A._subst(a, lambda z: m.get(z), memo)
            elif isinstance(a, int) and not isinstance(a, bool):
                a = A.subst_node(a, lambda z: m.get(z), memo)
            out.append(a)
        return T(t.op, *out)

    def val(self, x):
        return self(self.A.snap(x)) if isinstance(x, tm.Term) else x


def nodes_of(t):
    """predicate node ids directly inside a term"""
    if t.op in ('b',):
        return [t.args[0]]
    return []


# keyword arguments of external methods which are None by default
NONE_DEFAULT = {'add_axes': ('sharex', 'sharey'),
                'add_subplot': ('sharex', 'sharey')}


def defaults(x, y):
    """arguments of a call with the default values given in another call"""
    names = NONE_DEFAULT[x[1]]
    kw = dict(x[-1]) if all(len(k) == 2 for k in x[-1]) else None
    if kw is None:
        return x
    for k in y[-1]:
        if k[0] in names and k[0] not in kw:
            kw[k[0]] = NONE
    return x[:-1] + (tuple(sorted(kw.items(), key=lambda k: str(k[0]))),)


class Cmp:
    def __init__(self, A):
        self.A = A
        self.bd = A.bdd
        self.norm = Norm(A)
        self.memo = {}
        self.pending, self.guess = {}, 0
        self.fuel = 20000

    # --------------------------------------------------------- agreement
    def agree(self, a, b):
        """predicate under which a and b have the same value"""
        if a is b:
            return TRUE
        key = (a, b)
        r = self.memo.get(key)
        if r is None:
            if key in self.pending:
                # do not keep what is derived from this guess
                self.guess = min(self.guess, self.pending[key])
                return FALSE
            n = self.pending[key] = len(self.pending)
            outer, self.guess = self.guess, n
            r = self._agree(a, b)
            del self.pending[key]
            if self.guess >= n:
                self.memo[key] = r
            self.guess = min(outer, self.guess)
        return r

    def _agree(self, a, b):
        bd, A = self.bd, self.A
        self.fuel -= 1
        if self.fuel < 0:
            return FALSE
        if a.op == 'phi' or b.op == 'phi':
            r = FALSE
            for c, x in (a.args[0] if a.op == 'phi' else ((TRUE, a),)):
                for d, y in (b.args[0] if b.op == 'phi' else ((TRUE, b),)):
                    k = bd.and_(c, d)
                    if not bd.feasible(k):
                        continue
                    r = bd.or_(r, bd.and_(k, self.agree(x, y)))
            return r
        if a.op == 'b' and b.op == 'b':
            return bd.neg(bd.or_(bd.and_(a.args[0], bd.neg(b.args[0])),
                                 bd.and_(b.args[0], bd.neg(a.args[0]))))
        if a.op == 'const' and b.op == 'const':
            x, y = tm.cval(a), tm.cval(b)
            try:
                same = x == y and isinstance(x, bool) == isinstance(y, bool)
            except Exception:
                same = False
            return TRUE if same else FALSE
        if a.op in ('tuple', 'list') and b.op in ('tuple', 'list'):
            try:
                x, y = A.plain_items(a), A.plain_items(b)
            except ValueError:
                x = None
            if x is not None:
                if len(x) != len(y) or a.op != b.op:
                    return FALSE
                return bd.and_(*[self.agree(p, q) for p, q in zip(x, y)])
        r = FALSE
        if a.op == b.op and a.op in ('call', 'mcall') and \
                len(a.args) != len(b.args):
            k = 1 if a.op == 'call' else 2
            x, y = (spread(t.args[k:], len(u.args) - k)
                    for t, u in ((a, b), (b, a)))
            if len(x) == len(y) and a.args[:k] == b.args[:k] or \
                    k == 2 and len(x) == len(y) and \
                    a.args[1] == b.args[1]:
                return self.args(a.args[:k] + x, b.args[:k] + y, a.op)
        if a.op == b.op and len(a.args) == len(b.args) and a.op != 'poly':
            x, y = a.args, b.args
            if a.op == 'mcall' and a.args[1] in NONE_DEFAULT and \
                    a.args[1] == b.args[1] and a.args[-1] != b.args[-1]:
                x, y = defaults(x, y), defaults(y, x)
            r = self.args(x, y, a.op)
        elif a.op == 'dict' and b.op == 'dict':
            r = self.dicts(a, b)
        elif a.op == 'poly' or b.op == 'poly' or a.op == 'pow' or \
                b.op == 'pow':
            r = self.polys(a, b)
            if r == FALSE:
                # 0 or 1 factors (truth values in arithmetic)
                f = [x for t in (a, b) for x in tm.subterms(t)
                     if x.op == 'b' and t.op in ('poly', 'pow')]
                if f:
                    for v, n in ((1, f[0].args[0]),
                                 (0, bd.neg(f[0].args[0]))):
                        if not bd.feasible(n):
                            continue
                        m = {f[0]: tm.const(v)}
                        x, y = (A._subst(t, lambda z: m.get(z), {})
                                for t in (a, b))
                        r = bd.or_(r, bd.and_(n, self.agree(x, y)))
        if r == FALSE and self.scalar(a) and self.scalar(b):
            r = A.eq(a, b)
        return r

    def scalar(self, t):
        return t.op in ('sym', 'const', 'fld', 'item', 'poly')

    def args(self, xs, ys, op=None):
        bd = self.bd
        r = TRUE
        for x, y in zip(xs, ys):
            if x is y or x == y and not isinstance(x, tm.Term):
                continue
            if isinstance(x, tm.Term) and isinstance(y, tm.Term):
                r = bd.and_(r, self.agree(x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple) and \
                    len(x) == len(y):
                r = bd.and_(r, self.args(x, y, op))
            elif isinstance(x, int) and isinstance(y, int) and \
                    not isinstance(x, bool):
                if op in ('each', 'opt', 'count', 'first', 'anyof', 'last',
                          'pos', 'dict', 'sum', 'kveach'):
                    r = bd.and_(r, self.eqv(x, y, op))
                else:
                    return FALSE
            else:
                return FALSE
            if r == FALSE:
                return FALSE
        return r

    def eqv(self, m, n, op):
        """predicate under which two conditions are equivalent; atoms about
        the loop element are quantified universally"""
        bd = self.bd
        d = bd.or_(bd.and_(m, bd.neg(n)), bd.and_(n, bd.neg(m)))
        if bd.axioms != TRUE:
            d = bd.and_(d, bd.axioms)
        if d == FALSE:
            return TRUE
        bad = bd.exists(d, self.elementwise)
        return bd.neg(bad)

    def elementwise(self, atom):
        return any(isinstance(x, tm.Term) and x.op == 'idx'
                   for x in tm.subterms(atom))

    def dicts(self, a, b):
        bd = self.bd
        x = {k: (h, v) for k, h, v in a.args[0]}
        y = {k: (h, v) for k, h, v in b.args[0]}
        if len(a.args) != len(b.args):
            return FALSE
        r = self.args(a.args[1:], b.args[1:])
        for k in set(x) | set(y):
            h1, v1 = x.get(k, (FALSE, NONE))
            h2, v2 = y.get(k, (FALSE, NONE))
            r = bd.and_(r, self.agree(T('b', h1), T('b', h2))
                        if h1 != h2 else TRUE)
            both = bd.and_(h1, h2)
            if both != FALSE:
                r = bd.and_(r, bd.or_(bd.neg(both), self.agree(v1, v2)))
        return r

    def polys(self, a, b):
        """polynomials whose gated parts have to be expanded first"""
        bd = self.bd
        for t in sorted(tm.subterms(a) | tm.subterms(b),
                        key=lambda t: t.id):
            if t.op == 'phi' and any(
                    t in m for m in self._factors(a) + self._factors(b)):
                r = FALSE
                for c, x in t.args[0]:
                    if not bd.feasible(c):
                        continue

                    def fn(u, t=t, x=x):
                        return x if u is t else None
                    r = bd.or_(r, bd.and_(c, self.agree(
                        tm.rebuild(a, fn), tm.rebuild(b, fn))))
                return r
        # same monomials up to agreeing atoms
        pa, pb = tm.topoly(a), tm.topoly(b)
        if len(pa) != len(pb):
            return FALSE
        r = TRUE
        left = dict(pb)
        rest = []
        for m, c in pa.items():
            if left.get(m) == c:
                del left[m]
            else:
                rest.append((m, c))
        for m, c in rest:
            hit = FALSE
            for n, e in list(left.items()):
                if e == c and len(m) == len(n):
                    k = self.mono(m, n)
                    if k != FALSE:
                        hit = k
                        del left[n]
                        break
            if hit == FALSE:
                return FALSE
            r = bd.and_(r, hit)
        return r

    def mono(self, m, n):
        bd = self.bd
        left = list(n)
        r = TRUE
        for x, e in m:
            best = None
            for i, (y, f) in enumerate(left):
                if e == f:
                    k = self.agree(x, y)
                    if k != FALSE:
                        best = (i, k)
                        if k == TRUE:
                            break
            if best is None:
                return FALSE
            del left[best[0]]
            r = bd.and_(r, best[1])
        return r

    def _factors(self, t):
        out = []
        for m in tm.topoly(t):
            out.append([x for x, e in m])
        return out

    # ------------------------------------------------------ classification
    def open_ops(self, *ts):
        """unresolved constructs below the given terms"""
        out = set()
        for t in ts:
            if not isinstance(t, tm.Term):
                continue
            for x in tm.subterms(t):
                if x.op in OPEN:
                    out.add(x.op)
                elif x.op == 'call' and x.args[0].op == 'unk':
                    out.add('unk')
        return out

    def vocab(self, *ts):
        out = set()
        for t in ts:
            if not isinstance(t, tm.Term):
                continue
            for x in tm.subterms(t):
                if x.op == 'ext':
                    out.add(x.args[0])
                elif x.op == 'mcall':
                    out.add('.' + x.args[1])
                elif x.op in ('carry', 'loopval', 'while', 'last', 'first',
                              'self', 'func*', 'mutchain'):
                    out.add('<%s>' % x.op)
        return out


def spread(args, n):
    """positional arguments with *sequence written out as n arguments"""
    stars = [i for i, a in enumerate(args)
             if isinstance(a, tm.Term) and a.op == 'star']
    if len(stars) != 1 or n < len(args) - 1:
        return args
    i = stars[0]
    k = n - len(args) + 1

    def element(t, j):
        if t.op == 'rev':
            return element(t.args[0], k - 1 - j)
        if t.op in ('list', 'tuple', 'seq') and len(t.args) == 1:
            x = t.args[0]
            if x.op == 'each' and len(x.args[0]) == 1 and \
                    x.args[1] == TRUE:
                d, b = x.args[0][0], x.args[2]
                if b.op in ('item', 'elem') and b.args[0] is d and \
                        b.args[1].op == 'idx' and b.args[1].args[0] is d:
                    return element(d, j)
            if x.op in ('star', 'rest') and isinstance(x.args[0], tm.Term):
                return element(x.args[0], j)
        return T('item', t, tm.const(j))
    return args[:i] + tuple(element(args[i].args[0], j)
                            for j in range(k)) + args[i + 1:]


class Obs:
    """observables of one analysed function"""

    def __init__(self, cmp, res):
        self.cmp, self.res = cmp, res
        self.A = cmp.A
        self.N = cmp.norm

    def fl(self, e):
        return tuple(self.N(d) for d, i in e.loops)

    def calls(self, pats, exc=False):
        out = []
        for e in self.res.events:
            if e.kind != 'call' or (e.exceptional and not exc):
                continue
            name = e.name or (tm.show(e.fn) if e.fn is not None else '?')
            if any(fnmatch(name, p) for p in pats):
                recv = e.recv
                if recv is None:
                    recv = NONE
                elif recv.op == 'ref':
                    recv = self.N(self.A.snap(recv))
                else:
                    recv = self.N(recv)
                kw = tuple(sorted(((str(k), self.N(v)) for k, v in e.kw),
                                  key=lambda x: x[0]))
                args = tuple(self.N(x) for x in e.args)
                if e.fn is not None and e.fn.op == 'ext' and \
                        e.name in self.A.prog.functions:
                    args = ()       # bound by name
                out.append(Item(('call', name), (recv,) + args +
                                tuple(v for k, v in kw),
                                tuple(k for k, v in kw) + (len(args),),
                                self.N.node(e.pc), self.fl(e), e))
        return out

    def stores(self, sel=None, kinds=('store', 'setitem', 'inplace',
                                      'delete'), around=None):
        """effects on caller-visible objects; around: name of a call, effects
        before and after it are told apart"""
        out = []
        seen = ()
        for e in self.res.events:
            if around and e.kind == 'call' and fnmatch(e.name, around):
                seen = ('after ' + around,)
            if e.kind not in kinds or e.exceptional:
                continue
            if not isinstance(e.recv, tm.Term) or e.recv.op == 'ref':
                continue
            if sel and not sel(e):
                continue
            nm = e.name if isinstance(e.name, tm.Term) else const(e.name)
            out.append(Item((e.kind,) + seen, (self.N(e.recv), self.N(nm),
                                        self.N(e.sv or e.value or NONE)),
                            (), self.N.node(e.pc), self.fl(e), e))
        return out

    def raises(self):
        out = []
        for pc, t, doms, node, module in self.res.escaped:
            n = self.A.anyof(tuple(doms), pc) if doms else pc
            if t.op == 'exc':
                continue
            out.append((t.args[0] if t.op == 'excls' else 'Exception',
                        self.N.node(n), node, module))
        return out

    def fields(self, st=None):
        """final values of all fields of caller-visible objects"""
        st = st or self.res.state
        out = {}
        if st is None:
            return out
        for (b, n), v in st.store.items():
            if b.op == 'ref' or n[0] in '$?':
                continue
            if b.op == 'mod':
                continue
            k = self.N(b), n
            if k in out and any(x.op == 'new' for x in tm.subterms(b)):
                continue        # private copy of the object
            out[k] = (b, v)
        return out

    def value(self, b, n, v=None, st=None):
        st = st or self.res.state
        if v is None:
            v = self.A.default_read(st, b, n)
        old, self.A.st = self.A.st, st
        try:
            return self.N(self.A.snap(self.A.simp(v, st.pc)))
        finally:
            self.A.st = old

    def ret(self):
        if self.res.value is None:
            return None
        old, self.A.st = self.A.st, self.res.state
        try:
            return self.N(self.A.snap(self.res.value))
        finally:
            self.A.st = old

    def yields(self):
        return [Item(('yield',), (self.N(e.sv or e.value),), (),
                     self.N.node(e.pc), self.fl(e), e)
                for e in self.res.events if e.kind == 'yield']


class Item:
    __slots__ = ('key', 'vals', 'shape', 'pc', 'loops', 'ev')

    def __init__(self, key, vals, shape, pc, loops, ev):
        self.key, self.vals, self.shape = key, vals, shape
        self.pc, self.loops, self.ev = pc, loops, ev
