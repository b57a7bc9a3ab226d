"""
Effect and dependence analysis of every function of the package, one at a
time with private helpers expanded: (1) effects on objects that outlive the
call (module state, class attributes, default arguments) are only allowed on
memo tables; (2) what is remembered under a key depends on nothing else than
this key, every entry which is read is the entry which the same function
writes, and no entry is changed afterwards; (3) streams taken from or put into
such a table are copied before they are returned. Functions with caching
decorators have to obey the same.
"""
import ast

from sa import terms as tm
from sa.terms import Term, T, const

MUTATES = ('store', 'setitem', 'inplace', 'delete', 'mutate', 'setdefault',
           'setglobal', 'aug')


STREAMS = {'rf.rfstream.read_rf': 'rf.rfstream.RFStream'}


def leaves(v):
    if v.op == 'phi':
        return [y for c, x in v.args[0] for y in leaves(x)]
    return [v]


def root(v):
    """innermost object, and whether it is reached by looking into it"""
    deep = False
    while True:
        if v.op in ('fld', 'item', 'upd'):
            deep = True
            v = v.args[0]
        elif v.op == 'phi':
            return None, deep
        else:
            return v, deep


def functions(K):
    for f in K.P.functions.values():
        if f.module is not None and f.module.name.split('.')[0] == 'rf' and \
                '<locals>' not in f.qual and f.name != '<lambda>':
            yield f


class Held:
    """keeps the violations until it is known who is to blame"""

    def __init__(self, K):
        self.K, self.kept, self.keys = K, [], set()

    def __getattr__(self, name):
        return getattr(self.K, name)

    def violation(self, *args):
        self.kept.append(args)


def called(K, fs):
    """names of the functions used by other functions of the package"""
    out = set()
    for f in fs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                out.add(getattr(n.func, 'id', getattr(n.func, 'attr', '')))
    return out


def check(K):
    """
    A function which gets the key and the value to be remembered from its
    callers is part of them.
    """
    fs = list(functions(K))
    used, parts = called(K, fs), set()
    while True:
        H = Held(K)
        judge(H, fs, parts)
        more = {f.qual for f in H.keys if f.name in used and
                f.cls is None} - parts
        if not more:
            break
        parts |= more
    for a in H.kept:
        K.violation(*a)


def judge(K, fs, parts):
    public = [f.qual for f in fs if not f.name.startswith('_') and
              f.qual not in parts]
    memos, found = {}, 0
    entered = set()
    for f in sorted(fs, key=lambda f: f.qual not in public):
        if f.qual in entered and f.qual not in public:
            continue        # judged where it is called
        A, r = K.run(f, opaque=[q for q in public if q != f.qual],
                     atypes=STREAMS)
        entered |= {e.name for e in r.events if e.kind == 'enter'} | {
            e.fn for e in r.events if e.kind == 'enter'}
        mutable = {p for p, d in f.defaults.items() if isinstance(
            d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp,
                ast.Call))} if isinstance(f.defaults, dict) else set()
        K.oblige('effects of %s' % f.qual)
        module_refs = {b for b, n in A.mod_state.store if b.op == 'ref'}
        M = Memo(K, f, A, r, module_refs)
        for e in r.events:
            if e.kind in MUTATES:
                M.effect(e, mutable)
        for m in M.tables.values():
            memos.setdefault(m.name, []).append((f, A, r, m))
            found += 1
        M.finish()
        decorated(K, f, A, r)
    for name, l in memos.items():
        shared(K, name, l)
    K.floor('memo tables', found, 1)


class Table:
    def __init__(self, name, term):
        self.name, self.term, self.stores = name, term, []


class Memo:
    def __init__(self, K, f, A, r, module_refs):
        self.K, self.f, self.A, self.r = K, f, A, r
        self.refs = module_refs
        self.tables = {}

    def outlives(self, b):
        """name of a package-level object"""
        if b.op == 'sym' and isinstance(b.args[0], str) and \
                b.args[0].startswith('rf.'):
            return b.args[0]
        if b.op in ('cls', 'func', 'mod'):
            n = str(b.args[0])
            if b.op == 'func' or n.split('.')[0] == 'rf':
                return tm.show(b)
        if b.op == 'ref' and b in self.refs:
            return tm.show(self.A.snap(b))[:60]
        return None

    def instance_table(self, v):
        """dictionary kept in an attribute of a package object"""
        if v.op == 'fld' and v.args[0].op == 'sym' and \
                v.args[0].args[0] == 'self' and self.f.cls is not None and \
                self.f.name != '__init__':
            c = self.f.cls
            return not set(c.bases) - {'object'}
        return False

    def effect(self, e, mutable):
        K = self.K
        if e.kind == 'setglobal':
            K.violation('module state', e, 'the module variable %s is '
                        'changed' % e.name)
            return
        if not isinstance(e.recv, Term):
            return
        for v in leaves(e.recv):
            if v.op == 'fld' and v.args[1] in ('traces', 'stats', 'data'):
                continue
            b, deep = root(v)
            if b is None:
                continue
            name = self.outlives(b)
            keyed = e.kind in ('setitem', 'setdefault') or (
                e.kind == 'store' and e.value is not None)
            if name is not None:
                if e.kind == 'aug' and not deep:
                    continue
                if keyed and v is b and b.op == 'sym':
                    self.remember(name, v, e)
                elif deep and (b in {t.term for t in self.tables.values()}
                               or b.op == 'sym'):
                    K.violation('remembered values', e, 'what is kept in %s '
                                'is changed' % name)
                else:
                    K.violation('module state', e, '%s is changed' % name)
            elif self.instance_table(v) and keyed and e.kind != 'store':
                self.remember(self.f.cls.qual + '.' + v.args[1], v, e)
            elif v.op in ('item', 'fld') and any(
                    v.args[0] is t.term for t in self.tables.values()):
                K.violation('remembered values', e, 'what is kept in %s is '
                            'changed' % tm.show(v.args[0]))
            elif b.op == 'sym' and b.args[0] in mutable and \
                    e.kind != 'aug':
                K.violation('default arguments', e, 'the default value of '
                            '%s is changed' % b.args[0])

    def remember(self, name, v, e):
        t = self.tables.setdefault(name, Table(name, v))
        key = e.name if isinstance(e.name, Term) else const(e.name)
        t.stores.append((e, self.A.snap(key)))

    # ------------------------------------------------------------- judging
    def finish(self):
        for t in self.tables.values():
            for e, key in t.stores:
                self.depends(t, e, key)
            self.reads(t)
            self.later(t)
            self.escapes(t)

    def depends(self, t, e, key):
        """the value is a function of the key"""
        K, A = self.K, self.A
        K.oblige('entries of %s written at %s' % (t.name, e.loc))
        parts = {key}
        if key.op == 'tuple':
            parts |= set(key.args)
        for p in list(parts):
            parts |= {A.strip(p)}
        value = e.sv or A.snap(e.value)
        left = set()
        free(A, value, parts, left, t.term)
        left = {s for s in left if s != 'self' or t.term.op == 'sym'}
        if left:
            K.keys.add(self.f)
            K.violation('key', e, 'the entry of %s for %s also depends on '
                        '%s' % (t.name, tm.show(key), ', '.join(sorted(left))))

    def reads(self, t):
        K, A = self.K, self.A
        keys = {A.strip(k) for e, k in t.stores} | {k for e, k in t.stores}
        seen = set()
        vals = [x for x in [self.r.value] if x is not None]
        for e in self.r.events:
            vals += [x for x in (e.value, e.recv) if isinstance(x, Term)]
            vals += [x for x in (e.args or ()) if isinstance(x, Term)]
        for v in vals:
            for s in tm.subterms(v):
                if s.op in ('item', 'fld') and s.args[0] is t.term:
                    seen.add(s.args[1] if isinstance(s.args[1], Term)
                             else const(s.args[1]))
        for k in seen:
            if k not in keys and A.strip(k) not in keys:
                K.violation('entries', (self.f.module, self.f.node),
                            '%s reads the entry %s of %s, but writes %s' % (
                                self.f.qual, tm.show(k), t.name, ', '.join(
                                    sorted(map(tm.show, keys)))))

    def later(self, t):
        """stored objects are not changed after they were stored"""
        for e, key in t.stores:
            mine = {x for x in leaves(e.value) if x.op not in (
                'const', 'poly')} if isinstance(e.value, Term) else set()
            if isinstance(e.value, Term):
                mine |= {x for x in leaves(e.value) if x.op == 'poly'}
            for f in self.r.events:
                if f.seq > e.seq and f.kind in MUTATES and \
                        isinstance(f.recv, Term) and not (
                            f is e or f.recv is t.term):
                    for x in leaves(f.recv):
                        y, deep = root(x)
                        if x in mine or (y in mine and y is not None and
                                         y.op in ('ref', 'new')):
                            self.K.violation('remembered values', f, 'the '
                                             'value kept in %s at %s is '
                                             'changed afterwards' % (
                                                 t.name, e.loc))
                            return

    def escapes(self, t):
        """streams are copied"""
        A = self.A
        if self.r.value is None:
            return
        kept = [x for e, k in t.stores if isinstance(e.value, Term)
                for x in leaves(e.value)]
        for x in leaves(self.r.value):
            if x.op == 'copyof':        # list of the same traces
                x = x.args[0]
            y, deep = root(x)
            out = x in kept or (deep and y is t.term) or (
                x.op in ('item', 'fld') and x.args[0] is t.term)
            if out and any(streamy(A, z) for z in kept):
                self.K.violation('copies', (self.f.module, self.f.node),
                                 '%s returns the stream kept in %s itself' %
                                 (self.f.qual, t.name))
                return


def streamy(A, v):
    t = A.typeof(v)
    if t in A.STREAMS or t in A.TRACES or A.stream_like(v):
        return True
    return v.op == 'call' and 'read_rf' in tm.show(v.args[0])


def free(A, v, parts, out, memo, seen=None):
    seen = set() if seen is None else seen
    if v in seen or v in parts or v is memo:
        return
    seen.add(v)
    if v.op == 'sym':
        out.add(v.args[0])
        return

    def walk(x):
        if isinstance(x, Term):
            free(A, x, parts, out, memo, seen)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
    if v.op == 'phi':
        for c, x in v.args[0]:
            free(A, x, parts, out, memo, seen)
            for a in A.bdd.support(c):
                if a.op == 'in' and a.args[-1] is memo:
                    continue
                free(A, a, parts, out, memo, seen)
        return
    for x in v.args:
        walk(x)


def decorated(K, f, A, r):
    """functools caches return the same object again"""
    if not any('cache' in d.split('(')[0].split('.')[-1]
               for d in f.decorators()):
        return
    K.oblige('caching decorator of %s' % f.qual)
    if r.value is not None and any(streamy(A, x) or x.op == 'new' and
                                   streamy(A, A.strip(x))
                                   for x in leaves(r.value)):
        K.violation('copies', (f.module, f.node), 'the stream returned by %s '
                    'is shared by all callers' % f.qual)


def shared(K, name, l):
    """functions sharing a table use different entries"""
    for i, (f, A, r, m) in enumerate(l):
        for g, B, q, n in l[:i]:
            for e, k in m.stores:
                for d, j in n.stores:
                    if f.qual != g.qual and k.op == 'const' and k is j:
                        K.violation('entries', e, '%s and %s keep different '
                                    'values in the same entry %s of %s' % (
                                        f.qual, g.qual, tm.show(k), name))
                        return
