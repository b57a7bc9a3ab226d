"""Obligations, verdicts and evidence of one property check."""
import fnmatch
import os

from .bdd import TRUE, FALSE
from .arrays import ShapeAnalyzer
from .calls import Analyzer
from .compare import Cmp, Item, Obs, spread
from .program import AnalysisError, Program
from . import terms as tm
from .terms import T, const, NONE

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# functions that only repackage their argument: if they appear on one side
# only, the two sides may well be equal
REPACK = {'numpy.asarray', 'numpy.array', 'numpy.stack', 'numpy.vstack',
          'numpy.column_stack', 'functools.reduce', 'functools.partial',
          'builtins.iter', 'builtins.next', 'builtins.map',
          'builtins.filter', 'itertools.chain', 'itertools.groupby',
          'itertools.accumulate', 'numpy.ascontiguousarray',
          'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.squeeze',
          'copy.copy', 'copy.deepcopy', 'numpy.fromiter', '.tolist',
          '.item', '.flatten', '.ravel', '.reshape', '.copy', '.view',
          'numpy.copy', 'operator.itemgetter', 'operator.attrgetter',
          'numpy.roll', 'numpy.concatenate', 'numpy.hstack', 'numpy.flip',
          'numpy.flipud', 'numpy.fliplr', 'numpy.negative',
          'numpy.reciprocal', 'numpy.einsum', 'numpy.dot', 'numpy.matmul',
          'numpy.outer', 'numpy.where', 'numpy.pad', 'numpy.add.reduce',
          'builtins.slice', 'builtins.getattr', 'builtins.vars',
          'collections.OrderedDict', 'collections.Counter',
          'numpy.unique', 'contextlib.contextmanager', 'numpy.linspace'}


def spec_modules():
    d = os.path.join(HERE, 'spec')
    return [('spec.' + f[:-3], os.path.join(d, f))
            for f in sorted(os.listdir(d)) if f.endswith('.py')]


def flat(c, s):
    """call c with its *arguments written out as in call s"""
    n = c.shape[-1]
    args = spread(c.vals[1:1 + n], s.shape[-1])
    if len(args) == n:
        return c
    return Item(c.key, c.vals[:1] + args + c.vals[1 + n:],
                c.shape[:-1] + (len(args),), c.pc, c.loops, c.ev)


class Side:
    pass


class Case:
    """one function of the package and its reference, analysed together"""

    def __init__(self, K, name, A, code, spec):
        self.K, self.name, self.A = K, name, A
        self.code, self.spec = code, spec
        self.cmp = code.cmp
        self.bd = A.bdd
        self.keep = ()           # calls whose failure is considered
        self.fresh = False       # nothing is remembered yet

    # ------------------------------------------------------------- helpers
    def pcs(self, n):
        """condition on runs in which no call outside of the package fails
        (except those named in keep)"""
        return self.bd.assign(n, self.noraise)

    def noraise(self, a):
        if a.op == 'raises':
            return None if self.A.kept(a, self.keep) else False
        if self.fresh and a.op in ('in', 'has'):
            for x in a.args:
                if isinstance(x, tm.Term) and x.op == 'sym' and isinstance(
                        x.args[0], str) and x.args[0].startswith('rf.'):
                    return False
        return None

    def showpc(self, n):
        return self.bd.show(n, tm.show)[:400]

    def open(self, vals):
        return self.cmp.open_ops(*vals)

    def verdict(self, what, node_where, msg, code_vals, spec_vals, pc=TRUE):
        """decide between violation and undecided"""
        op = self.open(code_vals)
        if self.cmp.fuel < 0:
            op = op | {'comparison budget'}
        new = self.cmp.vocab(*code_vals) - self.cmp.vocab(*spec_vals)
        sus = {x for x in new if x in REPACK or x.startswith('<')}
        if self.A.unsupported:
            op = op | {'unsupported syntax: %s' % (self.A.unsupported[0],)}
        if op or sus:
            self.K.undecided(what, '(%s) %s' % (', '.join(
                sorted(op | sus)), msg))
        else:
            self.K.violation(what, node_where, msg)

    def possible(self, n):
        """n can hold, given what conditions on elements of the same
        collection say about each other"""
        bd = self.bd
        if not bd.feasible(n):
            return False
        if self.relate(self.atoms(n)):
            return bd.feasible(n)
        return True

    def relate(self, atoms):
        bd = self.bd
        grp = {}
        for a in atoms:
            if a.op == 'anyof':
                grp.setdefault(a.args[0], []).append(a)
        new = False
        here = set(atoms)
        for a in atoms:
            if a.op == 'anyof':
                inner = set(self.atoms(a.args[1]))
                if not inner <= here:
                    new = self.relate(sorted(inner | here,
                                             key=lambda t: t.id)) or new
                    here |= inner
        for a in here:
            # a collection is true if it has elements
            if a.op == 'truthy':
                k = self.A.eq(T('len', a.args[0]), const(0))
                if any(x in here for x in self.atoms(k)):
                    k = bd.ite(bd.var(a), bd.neg(k), k)
                    if not bd.implies(bd.axioms, k):
                        bd.add_axiom(k)
                        new = True
        for doms, l in grp.items():
            l = l[:40]
            cs = [self.pcs(a.args[1]) for a in l]
            if len(doms) == 1:
                ne = self.A.anyof(doms, TRUE)
                for a in l:
                    k = bd.or_(bd.neg(bd.var(a)), ne)
                    if not bd.implies(bd.axioms, k):
                        bd.add_axiom(k)
                        new = True
            for i, a in enumerate(l):
                below, inner = FALSE, FALSE
                for j, b in enumerate(l):
                    if i == j or not bd.implies(cs[j], cs[i]):
                        continue
                    below = bd.or_(below, bd.var(b))
                    inner = bd.or_(inner, cs[j])
                    k = bd.or_(bd.neg(bd.var(b)), bd.var(a))
                    if not bd.implies(bd.axioms, k):
                        bd.add_axiom(k)
                        new = True
                if below != FALSE and bd.implies(cs[i], inner):
                    k = bd.or_(bd.neg(bd.var(a)), below)
                    if not bd.implies(bd.axioms, k):
                        bd.add_axiom(k)
                        new = True
                elif below == FALSE and not bd.feasible(cs[i]):
                    bd.add_axiom(bd.neg(bd.var(a)))
                    new = True
        return new

    # ------------------------------------------------------------ matching
    def cover(self, what, code, spec, missing='is missing',
              extra='is not allowed', dup=True, ordered=False, sub=None,
              only=None, normal=False):
        """code items and reference items are the same effects; normal: on
        runs that do not end with an error"""
        bd, cmp = self.bd, self.cmp
        K = self.K
        base = TRUE
        if normal and self.code.res.state and self.spec.res.state:
            base = bd.and_(*[self.pcs(self.code.N.node(o.res.state.pc))
                             for o in (self.code, self.spec)])

        def inner(it, pc):
            if base == TRUE:
                return pc
            return bd.and_(pc, *[self.element(base, v)
                                 for v in it.vals if hasattr(v, 'op')])

        def reg(c, s):
            if c.key == s.key and c.key[0] == 'call' and \
                    c.shape != s.shape and c.shape[:-1] == s.shape[:-1]:
                c, s = flat(c, s), flat(s, c)
            if c.key != s.key or c.shape != s.shape or \
                    len(c.vals) != len(s.vals):
                return FALSE
            if not self.same_loops(c.loops, s.loops):
                return FALSE
            return self.pcs(cmp.args(c.vals, s.vals))
        table = {}
        for i, c in enumerate(code):
            for j, s in enumerate(spec):
                table[i, j] = reg(c, s)
        if only != 'extra':
            for j, s in enumerate(spec):
                K.oblige('%s: %s' % (what, self.label(s)))
                need = inner(s, self.pcs(s.pc))
                cov = bd.or_(*[bd.and_(self.pcs(c.pc), table[i, j])
                               for i, c in enumerate(code)])
                miss = bd.and_(need, bd.neg(cov))
                if self.possible(miss):
                    cand = [c for c in code if c.key == s.key] or code
                    free = [c for i, c in enumerate(code) if c in cand and
                            not bd.implies(inner(c, self.pcs(c.pc)), bd.or_(
                                *[bd.and_(self.pcs(o.pc), table[i, k])
                                  for k, o in enumerate(spec) if k != j]))]
                    cand = free or cand
                    near = self.nearest(cand, s)
                    msg = '%s %s when %s' % (self.describe(s), missing,
                                             self.showpc(miss))
                    if near is not None:
                        msg += '; the code has %s when %s' % (
                            self.describe(near), self.showpc(near.pc))
                    self.verdict(
                        what, near.ev if near is not None else None, msg,
                        [v for c in cand for v in c.vals + c.loops],
                        list(s.vals + s.loops))
                    return False
        if only != 'missing':
            for i, c in enumerate(code):
                K.oblige('%s: %s at %s' % (what, self.label(c), c.ev.loc))
                have = inner(c, self.pcs(c.pc))
                cov = bd.or_(*[bd.and_(self.pcs(s.pc), table[i, j])
                               for j, s in enumerate(spec)])
                ex = bd.and_(have, bd.neg(cov))
                if self.possible(ex):
                    msg = '%s %s when %s' % (self.describe(c), extra,
                                             self.showpc(ex))
                    self.verdict(what, c.ev, msg, list(c.vals + c.loops),
                                 [v for s in spec for v in s.vals + s.loops])
                    return False
        if dup:
            def dups(items):
                n = {}
                for i, c in enumerate(items):
                    for j in range(i):
                        d = items[j]
                        if c.key == d.key and c.shape == d.shape and \
                                self.same_loops(c.loops, d.loops) and \
                                len(c.vals) == len(d.vals):
                            k = bd.and_(self.pcs(c.pc), self.pcs(d.pc),
                                        cmp.args(c.vals, d.vals))
                            if self.possible(k):
                                n.setdefault(c.key, []).append((c, k))
                return n
            a, b = dups(code), dups(spec)
            for k in a:
                if len(a[k]) > len(b.get(k, ())):
                    c, pc = a[k][0]
                    self.verdict(what, c.ev, '%s happens twice when %s' % (
                        self.describe(c), self.showpc(pc)),
                        list(c.vals), list(c.vals))
                    return False
        return True

    def same_loops(self, a, b):
        if a == b:
            return True
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is not y and self.cmp.agree(x, y) != TRUE:
                return False
        return True

    def nearest(self, cand, s):
        best, n = None, -1
        for c in cand:
            k = sum(1 for x, y in zip(c.vals, s.vals)
                    if self.cmp.agree(x, y) == TRUE)
            k += 0.5 * (c.loops == s.loops)
            if k > n:
                best, n = c, k
        return best

    def label(self, it):
        return ' '.join(str(k) for k in it.key)

    def describe(self, it):
        k = it.key
        v = [self.sh(x) for x in it.vals]
        if not it.vals:
            s = ' '.join(map(str, k))
        elif k[0] == 'call':
            names = it.shape[:-1]
            na = len(v) - 1 - len(names)
            a = v[1:1 + na] + ['%s=%s' % p for p in zip(names, v[1 + na:])]
            r = v[0] if it.vals[0] is not NONE else ''
            s = 'call %s%s(%s)' % (r, k[1], ', '.join(a))
        elif k[0] in ('store', 'setitem', 'inplace', 'delete'):
            s = '%s %s[%s] = %s' % (k[0], v[0], v[1], v[2])
        else:
            s = '%s %s' % (' '.join(map(str, k)), ', '.join(v))
        if it.loops:
            s += ' for each of ' + ' x '.join(self.sh(d) for d in it.loops)
        return s

    def sh(self, t):
        s = tm.show(t)
        return s if len(s) < 240 else s[:240] + '...'

    # ------------------------------------------------------------- rules
    def calls(self, what, *pats, **kw):
        c, s = self.code.calls(pats), self.spec.calls(pats)
        if kw.pop('bare', False):     # only that it happens
            for x in c + s:
                x.vals, x.shape = (), ()
        allow_none = kw.pop('allow_none', False)
        if not s and not allow_none:
            raise AnalysisError('reference of %s has no call %s' %
                                (what, pats))
        return self.cover(what, c, s, **kw)

    def order(self, what, *pats):
        """the calls are written in the same order"""
        self.K.oblige(what)

        def names(o):
            return [e.name if isinstance(e.name, str) else '?'
                    for e in sorted((x.ev for x in o.calls(pats)),
                                    key=lambda e: e.seq)]
        a, b = names(self.code), names(self.spec)
        if a != b and sorted(a) == sorted(b):
            e = [x.ev for x in self.code.calls(pats)]
            k = [i for i in range(len(a)) if a[i] != b[i]][0]
            e = sorted(e, key=lambda e: e.seq)[k]
            self.verdict(what, e, '%s calls %s before %s' % (
                self.name, a[k], b[k]), [], [])
            return False
        return True

    def stores(self, what, sel=None, around=None, least=1, **kw):
        c = self.code.stores(sel, around=around)
        s = self.spec.stores(sel, around=around)
        if len(s) < least:
            raise AnalysisError('reference of %s has no such effect' % what)
        return self.cover(what, c, s, **kw)

    def yields(self, what, **kw):
        return self.cover(what, self.code.yields(), self.spec.yields(), **kw)

    def ret(self, what):
        bd = self.bd
        K = self.K
        K.oblige(what + ': returned value')
        a, b = self.code.ret(), self.spec.ret()
        if b is None:
            raise AnalysisError('reference of %s does not return' % what)
        if a is None:
            K.violation(what, None, '%s never returns' % self.name)
            return False
        P = self.pcs(self.code.N.node(self.code.res.state.pc))
        Q = self.pcs(self.code.N.node(self.spec.res.state.pc))
        return self.value(what, a, b, bd.and_(P, Q), 'result of %s' %
                          self.name)

    def returns(self, what):
        """it returns whenever its reference does"""
        bd = self.bd
        self.K.oblige(what + ': no failure leaves the function')
        if self.spec.res.state is None:
            raise AnalysisError('reference of %s does not return' % what)
        q = self.pcs(self.code.N.node(self.spec.res.state.pc))
        p = FALSE if self.code.res.state is None else \
            self.pcs(self.code.N.node(self.code.res.state.pc))
        bad = bd.and_(q, bd.neg(p))
        if self.possible(bad):
            self.verdict(what, None, '%s does not return when %s' % (
                self.name, self.showpc(bad)), self.atoms(p), self.atoms(q))
            return False
        return True

    def value(self, what, a, b, pc, name, ev=None):
        bd = self.bd
        ok = self.cmp.agree(a, b)
        bad = bd.and_(self.pcs(pc), bd.neg(self.pcs(ok)))
        if not self.possible(bad):
            return True
        A = self.A
        x, y = self.leaf(a, bad), self.leaf(b, bad)
        d = self.diff(x, y, bad)
        self.verdict(what, ev, '%s is %s instead of %s when %s%s' % (
            name, self.sh(x), self.sh(y), self.showpc(bad), '' if d is None
            else '; differing part: %s and %s' % tuple(
                t if isinstance(t, str) else self.sh(t) for t in d)),
            [x, a], [y, b])
        return False

    def diff(self, x, y, pc, top=True):
        """innermost differing parts"""
        bd = self.bd

        def bad(p, q):
            k = bd.and_(pc, bd.neg(self.pcs(self.cmp.agree(p, q))))
            return k if bd.feasible(k) else None
        if x.op == 'dict' and y.op == 'dict':
            p = {k: (h, v) for k, h, v in x.args[0]}
            q = {k: (h, v) for k, h, v in y.args[0]}
            for k in sorted(set(p) | set(q)):
                h1, v1 = p.get(k, (FALSE, NONE))
                h2, v2 = q.get(k, (FALSE, NONE))
                if bd.feasible(bd.and_(pc, bd.ite(h1, bd.neg(h2), h2))):
                    return 'presence of %s' % k, 'that of the reference'
                n = bad(v1, v2)
                n = None if n is None else bd.and_(n, h1)
                if n is not None and bd.feasible(n):
                    return self.diff(self.leaf(v1, n), self.leaf(v2, n), n,
                                     False)
        elif x.op == y.op and len(x.args) == len(y.args) and x.op != 'poly':
            for p, q in zip(x.args, y.args):
                if isinstance(p, tm.Term) and isinstance(q, tm.Term):
                    n = bad(p, q)
                    if n is not None:
                        return self.diff(self.leaf(p, n), self.leaf(q, n),
                                         n, False)
                elif isinstance(p, int) and isinstance(q, int) and \
                        p != q and x.op in ('b', 'each', 'opt', 'count',
                                            'sum', 'anyof', 'first', 'last'):
                    return ('condition ' + self.showpc(p),
                            'condition ' + self.showpc(q))
        return None if top else (x, y)

    def leaf(self, v, pc):
        A = self.A
        v = A.simp(v, pc)
        while v.op == 'phi':
            for c, x in v.args[0]:
                if A.feasible(self.bd.and_(c, pc)):
                    v = A.simp(x, self.bd.and_(c, pc))
                    break
            else:
                break
        return v

    def raises(self, what, classes=None, merge=True):
        """errors are raised in exactly the same situations"""
        bd = self.bd

        def grp(o):
            d = {}
            for name, n, node, mod in o.raises():
                if classes and name not in classes:
                    continue
                k = name if not merge else 'an error'
                x = d.setdefault(k, [FALSE, []])
                x[0] = bd.or_(x[0], self.pcs(n))
                x[1].append((n, node, mod))
            return d
        a, b = grp(self.code), grp(self.spec)
        good = True
        for k in sorted(set(a) | set(b)):
            self.K.oblige('%s: condition of raising %s' % (what, k))
            x, y = a.get(k, (FALSE, []))[0], b.get(k, (FALSE, []))[0]
            m = bd.and_(y, bd.neg(x))
            e = bd.and_(x, bd.neg(y))
            loc = None
            if self.possible(m):
                self.verdict(what, None, '%s does not raise %s when %s' % (
                    self.name, k, self.showpc(m)), self.atoms(x),
                    self.atoms(y))
                good = False
            elif self.possible(e):
                for n, node, mod in a[k][1]:
                    if bd.feasible(bd.and_(n, e)):
                        loc = (mod, node)
                self.verdict(what, loc, '%s raises %s when %s' % (
                    self.name, k, self.showpc(e)), self.atoms(x),
                    self.atoms(y))
                good = False
        return good

    def atoms(self, n):
        return sorted(self.bd.support(n), key=lambda t: t.id)

    def fields(self, what, sel, missing_ok=False):
        """final values of caller-visible fields; sel(base, name)"""
        bd = self.bd
        cs, ss = self.code.res.state, self.spec.res.state
        if ss is None:
            raise AnalysisError('reference of %s has no exit' % what)
        if cs is None:
            self.K.violation(what, None, '%s never returns' % self.name)
            return False
        f, g = self.code.fields(), self.spec.fields()
        good = True
        N = self.code.N
        pc = bd.and_(self.pcs(N.node(cs.pc)), self.pcs(N.node(ss.pc)))
        names = {}
        for k in list(f) + list(g):
            if sel(k[0], k[1]):
                names[k] = 1
        base_pc = pc
        for k in sorted(names, key=lambda k: (k[0].id, k[1])):
            self.K.oblige('%s: %s.%s' % (what, self.sh(k[0]), k[1]))
            pc = self.element(base_pc, k[0])
            b1, v1 = f.get(k, (k[0], None))
            b2, v2 = g.get(k, (k[0], None))
            a = self.code.value(b1, k[1], v1)
            b = self.code.value(b2, k[1], v2, ss)
            ev = self.last_store(k)
            if not self.value(what, a, b, pc, '%s.%s' % (self.sh(k[0]),
                                                         k[1]), ev):
                good = False
        return good

    def element(self, pc, base):
        """what a condition on all elements says about the element of base"""
        bd = self.bd
        doms = {t.args[0] for t in tm.subterms(base) if t.op == 'idx'}
        if not doms:
            return pc
        r = pc
        for a in self.atoms(pc):
            if a.op == 'anyof' and all(d in doms for d in a.args[0]):
                r = bd.and_(r, bd.or_(bd.var(a), bd.neg(self.pcs(
                    a.args[1]))))
        return r

    def last_store(self, k):
        r = None
        for e in self.code.res.events:
            if e.kind in ('store', 'setitem', 'delete', 'inplace') and \
                    isinstance(e.recv, tm.Term) and \
                    self.code.N(e.recv) is k[0] and e.name == k[1]:
                r = e
        return r


class Checker:
    def __init__(self, prop, tier, repo='/repo'):
        self.prop, self.tier, self.repo = prop, tier, repo
        self.P = Program(repo, extra=spec_modules())
        self.violations = []
        self.undec = []
        self.obligations = []
        self.analysed = {}
        self.notes = []

    # -------------------------------------------------------------- record
    def oblige(self, what):
        self.obligations.append(what)

    def where(self, at):
        if at is None:
            return None
        if isinstance(at, str):
            return at
        if isinstance(at, tuple):
            mod, node = at
            return '%s:%s' % (mod.rel if mod else '?',
                              getattr(node, 'lineno', '?'))
        return at.where

    def violation(self, rule, at, msg):
        self.violations.append({'rule': rule, 'where': self.where(at),
                                'message': msg})

    def undecided(self, rule, msg):
        self.undec.append({'rule': rule, 'message': msg[:600]})

    def floor(self, what, n, least):
        """the rule must have found something to judge"""
        if self.violations:
            return
        if n < least:
            raise AnalysisError('%s: only %d instances found, expected at '
                                'least %d' % (what, n, least))

    # ------------------------------------------------------------ analysis
    def types_for(self, fi, types):
        ty = dict(types or {})
        if fi.cls is not None and 'self' in fi.params:
            ty.setdefault('self', fi.cls.qual)
        for p in fi.params:
            if p == 'stream':
                ty.setdefault(p, 'rf.rfstream.RFStream')
        return ty

    def case(self, qual, spec, args=None, types=None, opaque=(), symbolic=(),
             mode='', atypes=None, jsonkeys=None, oracle=None,
             symtypes=None, shapes=False, calltypes=None, keep=()):
        A = (ShapeAnalyzer if shapes else Analyzer)(
            self.P, opaque=set(opaque), symbolic=set(symbolic),
            types=dict(atypes or {}))
        A.jsonkeys = jsonkeys
        A.oracle = oracle
        A.calltypes = calltypes or {}
        A.keepfail = keep
        for k, v in (symtypes or {}).items():
            A.types[T('sym', k) if isinstance(k, str) else k] = v
        fi = self.P.function(qual)
        ty = self.types_for(fi, types)
        si = self.P.function('spec.' + spec)
        av = {}
        for k, v in (args or {}).items():
            if isinstance(v, dict):
                continue
            av[k] = v
        cmp = Cmp(A)
        kw = {k: v for k, v in (args or {}).items()}
        names = set(fi.params + fi.kwonly + [fi.kwarg, fi.vararg])
        code = A.run(fi, args={k: v for k, v in kw.items() if k in names},
                     types=ty)
        names = set(si.params + si.kwonly + [si.kwarg, si.vararg])
        A.calls_spec = True
        ref = A.run(si, args={k: v for k, v in kw.items() if k in names},
                    types=ty)
        self.analysed['%s%s' % (qual, mode)] = {
            'events': len(code.events), 'predicates': len(A.bdd.atoms),
            'steps': A.steps}
        c = Case(self, qual + mode, A, Obs(cmp, code), Obs(cmp, ref))
        bad = [e for e in ref.events if e.kind in (
            'unbound', 'undefined', 'badcall', 'badimport') and
               str(e.where).startswith('spec')]
        if bad:
            raise AnalysisError('reference %s: %s %s' % (spec, bad[0].kind,
                                                         bad[0].name))
        c.keep = keep
        return c

    def run(self, qual, args=None, types=None, opaque=(), symbolic=(),
            mode='', atypes=None, exits=False):
        A = Analyzer(self.P, opaque=set(opaque), symbolic=set(symbolic),
                     types=dict(atypes or {}))
        fi = self.P.function(qual) if isinstance(qual, str) else qual
        qual = fi.qual
        r = A.run(fi, args=args, types=self.types_for(fi, types),
                  exits=exits)
        self.analysed['%s%s' % (qual, mode)] = {
            'events': len(r.events), 'predicates': len(A.bdd.atoms),
            'steps': A.steps}
        return A, r
