"""
C34: determinism, an order-taint analysis.

Sources are collections without an order (sets, dictionaries filled in the
order of one), listings of directories, random numbers, the clock, object
addresses and hashes.  A flow-sensitive abstract interpretation of every
function propagates unordered collections and values which depend on their
iteration order, through calls of own functions (analysed in the context of
their arguments).  Order-independent operations (sorted, len, membership,
set operations, collections known to have one element, ...) stop the flow.
A violation is an order-dependent value which is returned by a public
function, yielded, stored in an object, printed or drawn, or effects on
outside objects in the order of such an iteration.
"""
import ast

TECHNIQUE = 'interprocedural order-taint analysis'
LISTINGS = {'os.listdir', 'os.scandir', 'os.walk', 'glob.glob', 'glob.iglob',
            'concurrent.futures.as_completed'}
LISTMETH = {'iterdir', 'rglob', 'imap_unordered'}
VOLATILE = ('random.', 'numpy.random.', 'uuid.', 'secrets.')
SEEDED = {'random.Random', 'numpy.random.RandomState',
          'numpy.random.default_rng', 'numpy.random.Generator'}
VOLATILE1 = {
    'time.time', 'time.time_ns', 'time.monotonic', 'time.perf_counter',
    'time.process_time', 'time.localtime', 'time.gmtime', 'time.strftime',
    'time.ctime', 'time.asctime', 'os.getpid', 'os.urandom', 'hash', 'id',
    'datetime.datetime.now', 'datetime.datetime.today',
    'datetime.datetime.utcnow', 'datetime.date.today',
    'datetime.now', 'datetime.today', 'datetime.utcnow'}
INSENSITIVE = {'len', 'set', 'frozenset', 'any', 'all', 'min', 'max', 'bool',
               'isinstance', 'issubclass', 'type', 'callable', 'hasattr',
               'sum', 'Counter', 'collections.Counter', 'numpy.unique',
               'numpy.sort', 'np.unique', 'np.sort', 'sorted', 'numpy.min',
               'numpy.max', 'super', 'len'}
LAZY = {'enumerate', 'zip', 'map', 'filter', 'reversed', 'iter', 'list',
        'tuple', 'range', 'tqdm'}
SETMETH = {'union', 'intersection', 'difference', 'symmetric_difference',
           'copy', 'keys', 'items', 'values'}
SETBOOL = {'issubset', 'issuperset', 'isdisjoint', 'add', 'discard',
           'remove', 'update', 'clear', 'get', 'setdefault',
           'intersection_update', 'difference_update',
           'symmetric_difference_update', '__contains__', '__len__'}
ORDERED = {'append', 'extend', 'insert', 'appendleft', 'write', 'writelines',
           'put', 'plot', 'scatter', 'annotate', 'text', 'add_patch',
           'add_artist', 'add_collection', 'fill_between', 'send', 'bar',
           'hist', 'axhline', 'axvline', 'figtext', 'add_axes',
           'add_subplot', 'legend', 'print'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
U, A = 'unordered', 'arbitrary'


class Kind:
    """what a value is: U or A with the construct it comes from; perm: a
    sequence of which only the order is arbitrary"""
    __slots__ = ('k', 'why', 'perm')

    def __init__(self, k, why, perm=False):
        self.k, self.why, self.perm = k, why, perm or k == U

    def key(self):
        return self.k, self.why, self.perm

    def __eq__(self, o):
        return isinstance(o, Kind) and o.key() == self.key()

    def __hash__(self):
        return hash(self.key())

    def picked(self):
        return Kind(A, self.why) if self.k == A else self


def rank(k):
    return 0 if k.k == U else 1 if k.perm else 2


def join(*ks):
    out = None
    for k in ks:
        if k is not None and (out is None or rank(k) > rank(out)):
            out = k
    return out


class Env:
    def __init__(self, v=None, single=None, dead=False, inner=(), dep=()):
        self.v = dict(v or {})
        self.single = set(single or ())
        self.dead = dead
        # assigned in the current iteration of a loop in any order, and
        # those which depend on its element
        self.inner, self.dep = set(inner), set(dep)

    def copy(self):
        return Env(self.v, self.single, self.dead, self.inner, self.dep)

    def merge(self, o):
        if o.dead:
            return self
        if self.dead:
            return o
        v = {}
        for n in set(self.v) | set(o.v):
            v[n] = join(self.v.get(n), o.v.get(n))
        return Env(v, self.single & o.single, False, self.inner & o.inner,
                   self.dep | o.dep)


class Module:
    def __init__(self, K, mod):
        self.mod = mod
        self.names = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = \
                        a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                b = n.module or ''
                if n.level:
                    b = 'rf' + ('.' + b if b else '')
                for a in n.names:
                    self.names[a.asname or a.name] = b + '.' + a.name


class Analysis:
    def __init__(self, K):
        self.K = K
        self.mods = {m.name: Module(K, m) for m in K.P.modules.values()}
        self.memo = {}
        self.attrs = {}
        self.globals = {}
        self.reported = {}
        self.nloops = self.nsources = self.ncalls = 0
        self.methods = {}
        for q, f in K.P.functions.items():
            if f.cls is not None:
                self.methods.setdefault(f.name, []).append(f)

    def dotted(self, mod, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        parts.append(self.mods[mod.name].names.get(e.id, e.id))
        return '.'.join(reversed(parts))

    def callee(self, fi, call):
        f = call.func
        if isinstance(f, ast.Name):
            p = fi
            while p is not None:
                q = p.qual + '.' + f.id
                for cand in (q, p.qual + '.<locals>.' + f.id):
                    if cand in self.K.P.functions:
                        return self.K.P.functions[cand]
                p = p.parent
        d = self.dotted(fi.module, f)
        if d:
            for q in (d, fi.module.name + '.' + d):
                if q in self.K.P.functions:
                    return self.K.P.functions[q]
        if isinstance(f, ast.Attribute):
            c = self.methods.get(f.attr, ())
            own = isinstance(f.value, ast.Name) and f.value.id in (
                'self', 'cls')
            if len(c) == 1 and (own or not f.attr.startswith('__')):
                return c[0]
        return None

    def report(self, fi, node, rule, msg, maybe=False):
        key = (fi.module.name, node.lineno, rule, maybe)
        if key not in self.reported:
            self.reported[key] = (fi, node, rule, msg)


class Run:
    def __init__(self, X, fi, kinds=(), loop=None, inner=()):
        self.X, self.fi = X, fi
        self.mod = fi.module
        self.loop = loop          # reason: inside an iteration in any order
        self.ret = None
        self.env = Env(dict(kinds))
        if loop:
            self.env.inner |= set(inner) | (fi.locals - set(fi.params))
            self.env.dep |= set(inner)
        self.bools = {}

    # ------------------------------------------------------------ helpers
    def where(self, n):
        return '%s:%d' % (self.mod.rel, n.lineno)

    def src(self, n, text):
        return Kind(A, '%s at %s' % (text, self.where(n)))

    def use(self, node, k, how):
        if k is not None and k.k == A:
            self.X.report(self.fi, node, 'determinism', '%s %s' % (how,
                                                                   k.why))

    def run(self):
        n = self.fi.node
        if isinstance(n, ast.Lambda):
            self.ret = self.ev(n.body)
        else:
            self.block(n.body)
        return self.ret

    def root(self, e):
        while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
            e = e.func if isinstance(e, ast.Call) else e.value
        return e.id if isinstance(e, ast.Name) else None

    def isouter(self, e):
        """does an expression denote an object which exists outside the
        current iteration and does not depend on its element?"""
        if self.loop is None:
            return False
        names = {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}
        r = self.root(e)
        if r is None or r in self.X.mods[self.mod.name].names and \
                r not in self.fi.locals:
            return False
        return not names & (self.env.inner | self.env.dep)

    # -------------------------------------------------------- expressions
    def ev(self, e):
        if e is None:
            return None
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e)
        return join(*[self.value(self.ev(c)) for c in
                      ast.iter_child_nodes(e) if isinstance(c, ast.expr)])

    def value(self, k):
        """a value computed of another one; an unordered collection inside
        of it is still no problem of its own"""
        return k.picked() if k is not None and k.k == A else None

    def e_Name(self, e):
        if e.id in self.env.single:
            return None
        if e.id in self.env.v:
            return self.env.v[e.id]
        return self.X.globals.get((self.mod.name, e.id))

    def e_Constant(self, e):
        return None

    def e_Attribute(self, e):
        k = self.ev(e.value)
        if k is not None and k.k == A:
            return k.picked()
        return self.X.attrs.get(e.attr)

    def e_Subscript(self, e):
        k = join(self.value(self.ev(e.value)))
        self.ev(e.slice)
        return k

    def e_Lambda(self, e):
        return None

    def e_Set(self, e):
        for x in e.elts:
            self.ev(x)
        if all(isinstance(x, ast.Constant) and isinstance(
                x.value, (int, float)) for x in e.elts) or len(e.elts) < 2:
            return None
        self.X.nsources += 1
        return Kind(U, 'a set at ' + self.where(e))

    def e_Dict(self, e):
        ks = [self.ev(x) for x in e.keys if x is not None]
        vs = [self.ev(x) for x in e.values]
        return join(*[self.value(k) for k in ks + vs])

    def e_Compare(self, e):
        ks = [self.ev(e.left)] + [self.ev(c) for c in e.comparators]
        out = []
        for i, o in enumerate(e.ops):
            if isinstance(o, (ast.In, ast.NotIn)):
                out.append(self.value(ks[i]))
                if ks[i + 1] is not None and not ks[i + 1].perm:
                    out.append(ks[i + 1])
            elif isinstance(o, (ast.Is, ast.IsNot)):
                pass
            else:
                out += [self.value(ks[i]), self.value(ks[i + 1])]
        return join(*out)

    def e_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return join(a, b)
        if isinstance(e.op, ast.Mod):
            return join(self.value(a), self.text(e, b))
        return join(self.value(a), self.value(b))

    def text(self, e, k):
        """an unordered collection turned into text"""
        if k is not None and k.k == U:
            return Kind(A, 'the text of ' + k.why)
        return k

    def e_FormattedValue(self, e):
        return self.text(e, self.ev(e.value))

    def e_IfExp(self, e):
        self.test(e.test)
        old = self.env
        self.env = old.copy()
        self.assume(e.test, True)
        a = self.ev(e.body)
        self.env = old.copy()
        self.assume(e.test, False)
        b = self.ev(e.orelse)
        self.env = old
        return join(a, b)

    def e_NamedExpr(self, e):
        k = self.ev(e.value)
        self.assign(e.target, k, e)
        return k

    def e_BoolOp(self, e):
        ks, old = [], self.env
        self.env = old.copy()
        for v in e.values:
            ks.append(self.ev(v))
            self.assume(v, isinstance(e.op, ast.And))
        self.env = old
        return join(*ks)

    def e_Starred(self, e):
        return self.seq(e, self.ev(e.value))

    def seq(self, e, k):
        """a sequence in the order of a collection"""
        if k is not None and k.k == U:
            return Kind(A, 'the iteration order of ' + k.why, True)
        return k

    def comp(self, e, elts, kind):
        old = self.env
        self.env = old.copy()
        its = []
        for g in e.generators:
            k = self.ev(g.iter)
            its.append(k)
            self.bind(g.target, None)
            for t in g.ifs:
                self.ev(t)
                self.assume(t, True)
        ks = [self.ev(x) for x in elts]
        self.env = old
        it = join(*its)
        if kind == 'set':
            self.X.nsources += 1
            return Kind(U, 'a set at ' + self.where(e))
        if kind == 'dict':
            if it is not None:
                return Kind(U, it.why)
            return join(*[self.value(k) for k in ks])
        it = self.seq(e, it)
        if it is not None and len(its) > 1:
            it = it.picked()
        return join(it, *[self.value(k) for k in ks])

    def e_ListComp(self, e):
        return self.comp(e, [e.elt], 'list')

    def e_GeneratorExp(self, e):
        return self.comp(e, [e.elt], 'list')

    def e_SetComp(self, e):
        return self.comp(e, [e.elt], 'set')

    def e_DictComp(self, e):
        return self.comp(e, [e.key, e.value], 'dict')

    def e_Yield(self, e):
        k = self.ev(e.value) if e.value is not None else None
        self.use(e, self.seq(e, k) if isinstance(e, ast.YieldFrom) else k,
                 'yields a value which depends on')
        if self.loop and (self.fi.name.startswith('_') or
                          self.fi.parent is not None):
            # judged where the results are used
            self.ret = join(self.ret, Kind(A, self.loop, True))
        elif self.loop:
            self.X.report(self.fi, e, 'determinism', 'yields results in '
                          + self.loop)
        return None

    e_YieldFrom = e_Yield

    def e_Call(self, e):
        X = self.X
        d = X.dotted(self.mod, e.func)
        f = e.func
        args = [self.ev(a) for a in e.args]
        kws = [(k.arg, self.ev(k.value)) for k in e.keywords]
        allk = args + [k for n, k in kws]
        base = self.ev(f.value) if isinstance(f, ast.Attribute) else None
        X.ncalls += 1
        if d in ('set', 'frozenset') and d not in self.env.v:
            if not e.args:
                # filled later, or empty
                return Kind(U, 'a set at ' + self.where(e))
            X.nsources += 1
            return Kind(U, 'a set at ' + self.where(e))
        if d in LISTINGS or isinstance(f, ast.Attribute) and \
                f.attr in LISTMETH and d not in X.K.P.functions:
            X.nsources += 1
            return Kind(A, 'the listing order of %s at %s' % (
                d or f.attr, self.where(e)), d != 'os.walk')
        if d and d not in self.env.v and d not in SEEDED and (
                d in VOLATILE1 or d.startswith(VOLATILE)):
            X.nsources += 1
            return self.src(e, 'the result of %s()' % d)
        if d in SEEDED and not e.args and not e.keywords:
            X.nsources += 1
            return self.src(e, 'the result of %s()' % d)
        last = d.split('.')[-1] if d else None
        if (last == 'UTCDateTime' and not e.args and not e.keywords) or (
                d and d.endswith(('UTCDateTime.now', 'UTCDateTime.utcnow'))):
            X.nsources += 1
            return self.src(e, 'the clock, %s()' % d)
        key = [n.value for n in e.keywords if n.arg == 'key']
        if key and isinstance(key[0], ast.Name) and key[0].id in ('id',
                                                                  'hash'):
            return self.src(e, 'an order by %s()' % key[0].id)
        own = X.callee(self.fi, e)
        if own is not None and own is not self.fi:
            return self.owncall(e, own, args, kws, base)
        if isinstance(f, ast.Attribute) and base is not None:
            r = self.method(e, f, base, args)
            if r is not False:
                return r
        if d in INSENSITIVE:
            if d in ('sorted', 'min', 'max') and key and not (
                    isinstance(key[0], ast.Constant)):
                k = join(*args[:1])
                if k is not None:
                    X.report(self.fi, e, 'determinism', '%s() by a key keeps '
                             '%s of equal elements' % (d, k.why), True)
            return join(*[k for k in allk if k is not None and not k.perm])
        if d in ('list', 'tuple', 'iter', 'reversed', 'filter', 'map') and \
                d not in self.env.v:
            return join(*[self.seq(e, k) for k in allk])
        if d == 'dict' or d == 'dict.fromkeys' or last == 'OrderedDict':
            k = join(*allk)
            return Kind(U, k.why) if k is not None else None
        if d in ('str', 'repr', 'print', 'format', 'json.dumps') or (
                isinstance(f, ast.Attribute) and f.attr == 'format' and
                isinstance(f.value, ast.Constant)):
            k = join(*[self.text(e, k) for k in allk])
            if d == 'print':
                self.use(e, k, 'prints')
                if self.loop:
                    X.report(self.fi, e, 'determinism',
                             'prints in ' + self.loop)
            return k
        if d == 'next' and e.args:
            return self.value(self.seq(e, args[0]))
        return join(self.value(base), *[self.value(self.seq(e, k))
                                        for k in allk])

    def method(self, e, f, k, args):
        n = f.attr
        name = f.value.id if isinstance(f.value, ast.Name) else None
        if k.k == U:
            if n in ('pop', 'popitem') and not (n == 'pop' and args):
                return Kind(A, 'the iteration order of ' + k.why)
            if n in SETMETH:
                return join(k, *args)
            if n in SETBOOL or n in ('pop',):
                return None
            return False
        if n == 'sort' and k.perm:
            if name:
                keys = [x for x in e.keywords if x.arg == 'key']
                if keys:
                    self.X.report(self.fi, e, 'determinism', 'sort() by a '
                                  'key keeps %s of equal elements' % k.why,
                                  True)
                self.env.v[name] = None
            return None
        if n in ('count',) and k.perm:
            return None
        return False

    def owncall(self, e, own, args, kws, base):
        X = self.X
        kinds = {}
        params = list(own.params)
        exprs = {}
        if own.cls is not None and params and params[0] in ('self', 'cls') \
                and isinstance(e.func, ast.Attribute):
            if base is not None:
                kinds[params[0]] = base
            exprs[params[0]] = e.func.value
            params = params[1:]
        for i, (a, x) in enumerate(zip(args, e.args)):
            if i < len(params):
                if a is not None:
                    kinds[params[i]] = a
                exprs[params[i]] = x
        for (n, k), x in zip(kws, e.keywords):
            if n:
                if k is not None:
                    kinds[n] = k
                exprs[n] = x.value
        inner = ()
        if self.loop:
            inner = {p for p, x in exprs.items() if any(
                isinstance(n, ast.Name) and n.id in
                self.env.inner | self.env.dep for n in ast.walk(x))}
        return X.summary(own, kinds, self.loop, inner)

    # ---------------------------------------------------------- facts
    def lentest(self, t):
        """name, whether the test says that it has at most one element when
        true, and when false"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.lentest(t.operand)
            return r and (r[0], r[2], r[1])
        if isinstance(t, ast.Name):
            if t.id in self.bools:
                return self.lentest(self.bools[t.id])
            return t.id, False, True
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        a, o, b = t.left, t.ops[0], t.comparators[0]
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                ast.GtE: ast.LtE}
        op = type(o)
        if isinstance(a, ast.Constant):
            a, b = b, a
            op = flip.get(op, op)
        if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and
                a.func.id == 'len' and len(a.args) == 1 and
                isinstance(a.args[0], ast.Name) and
                isinstance(b, ast.Constant) and isinstance(b.value, int)):
            if isinstance(a, ast.Name) and a.id in self.bools and \
                    isinstance(b, ast.Constant):
                c = self.bools[a.id]
                if isinstance(c, ast.Call):
                    return self.lentest(ast.Compare(
                        left=c, ops=[op()], comparators=[b]))
            return None
        n, v = a.args[0].id, b.value
        true = {ast.Eq: v <= 1, ast.Lt: v <= 2, ast.LtE: v <= 1}.get(
            op, False)
        false = {ast.NotEq: v <= 1, ast.Gt: v <= 1, ast.GtE: v <= 2}.get(
            op, False)
        return n, true, false

    def assume(self, t, val):
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == val:
                for v in t.values:
                    self.assume(v, val)
            return
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume(t.operand, not val)
        r = self.lentest(t)
        if r and r[1 if val else 2]:
            self.env.single.add(r[0])

    def test(self, t):
        k = self.ev(t)
        if k is not None and k.k == A and any(
                isinstance(n, ast.Compare) for n in ast.walk(t)):
            self.use(t, k, 'branches on')

    # -------------------------------------------------------- statements
    def block(self, body):
        for s in body:
            if self.env.dead:
                return
            m = getattr(self, 's_' + type(s).__name__, None)
            if m:
                m(s)
            else:
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.expr):
                        self.ev(c)

    def s_FunctionDef(self, s):
        pass

    s_AsyncFunctionDef = s_ClassDef = s_FunctionDef

    def bind(self, t, k):
        for n in ast.walk(t):
            if isinstance(n, ast.Name):
                self.env.v[n.id] = k
                if self.loop:
                    self.env.inner.add(n.id)
                self.env.dep.discard(n.id)
                self.env.single.discard(n.id)
                self.bools.pop(n.id, None)
                self.forget(n.id)

    def forget(self, name):
        for b, t in list(self.bools.items()):
            if any(isinstance(n, ast.Name) and n.id == name
                   for n in ast.walk(t)):
                del self.bools[b]

    def assign(self, t, k, s, value=None):
        if isinstance(t, ast.Name):
            dep = self.loop and value is not None and self.dependent(value)
            self.bind(t, k)
            if dep:
                self.env.dep.add(t.id)
            if isinstance(value, (ast.Compare, ast.BoolOp, ast.Call)):
                self.bools[t.id] = value
        elif isinstance(t, (ast.Tuple, ast.List)):
            if len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred):
                # exactly one element
                self.assign(t.elts[0], None if k is not None and k.perm
                            else k, s)
                return
            k = self.value(self.seq(s, k))
            for x in t.elts:
                self.assign(x, k, s)
        elif isinstance(t, ast.Attribute):
            self.ev(t.value)
            self.use(s, k, 'stores in attribute %s a value which depends on'
                     % t.attr)
            if k is not None and k.k == U:
                self.X.attrs.setdefault(t.attr, k)
        elif isinstance(t, ast.Subscript):
            self.ev(t.value)
            ik = self.ev(t.slice)
            r = self.root(t.value)
            if isinstance(t.value, ast.Name) and t.value.id in self.fi.locals\
                    and t.value.id not in self.fi.params:
                n = t.value.id
                if k is not None and k.k == A:
                    self.env.v[n] = k.picked()
                elif self.loop and n not in self.env.inner and \
                        not isinstance(t.slice, (ast.Slice,)):
                    if self.dependent(t.slice):
                        self.env.v[n] = join(self.env.v.get(n), Kind(
                            U, 'a dictionary filled in ' + self.loop))
            else:
                self.use(s, k, 'stores in an item a value which depends on')
            del ik, r
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.seq(s, k), s)

    def dependent(self, e):
        """does an expression depend on the current element?"""
        return any(isinstance(n, ast.Name) and n.id in self.env.dep
                   for n in ast.walk(e))

    def s_Assign(self, s):
        k = self.ev(s.value)
        if isinstance(s.value, (ast.Tuple, ast.List)) and len(
                s.targets) == 1 and isinstance(
                s.targets[0], (ast.Tuple, ast.List)) and len(
                s.value.elts) == len(s.targets[0].elts):
            for t, v in zip(s.targets[0].elts,
                            [self.ev(v) for v in s.value.elts]):
                self.assign(t, v, s)
            return
        for t in s.targets:
            self.assign(t, k, s, s.value)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s, s.value)

    def s_AugAssign(self, s):
        k = self.ev(s.value)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(t)
            if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor)) or (
                    isinstance(s.op, ast.Sub) and old is not None):
                self.bind(t, join(old, k))
                return
            k = join(self.value(old), self.seq(s, k))
            if self.loop and t.id not in self.env.inner and \
                    self.dependent(s.value) and not counted(s.value):
                k = Kind(A, self.loop)
            self.bind(t, k)
        else:
            self.assign(t, self.value(k), s)

    def s_Return(self, s):
        k = self.ev(s.value) if s.value is not None else None
        if self.loop and self.inloop and s.value is not None and \
                self.dependent(s.value):
            k = Kind(A, 'the first element in ' + self.loop)
        self.ret = join(self.ret, k)
        self.env.dead = True

    def s_Raise(self, s):
        self.ev(s.exc)
        self.env.dead = True

    def s_Break(self, s):
        self.breaks.append(self.env.copy())
        self.env.dead = True

    def s_Continue(self, s):
        self.conts.append(self.env.copy())
        self.env.dead = True

    def s_If(self, s):
        self.test(s.test)
        old = self.env
        self.env = old.copy()
        self.assume(s.test, True)
        self.block(s.body)
        a = self.env
        self.env = old.copy()
        self.assume(s.test, False)
        self.block(s.orelse)
        self.env = a.merge(self.env)

    breaks, conts, inloop = (), (), False

    def looped(self, body, bindit, arb, names):
        saved = self.breaks, self.conts, self.loop, self.inloop
        self.breaks, self.conts = [], []
        before = self.env.copy()
        start = before.copy()
        if arb is not None:
            self.loop = arb
            self.inloop = True
            start.inner, start.dep = set(), set()

        def leave(env):
            """after an iteration"""
            if arb is not None:
                env = env.copy()
                for n in env.dep:
                    env.v[n] = join(env.v.get(n), Kind(
                        A, 'the last element in ' + arb))
                env.inner, env.dep = set(), set()
            return env

        for i in range(4):
            self.breaks, self.conts = [], []
            self.env = start.copy()
            bindit()
            if arb is not None:
                self.env.dep |= names
            self.block(body)
            end = self.env
            for c in self.conts:
                end = end.merge(c)
            new = start.merge(leave(end)) if not end.dead else start
            if new.v == start.v and new.single == start.single:
                break
            start = new
        out = start
        for b in self.breaks:
            out = out.merge(leave(b))
        self.breaks, self.conts, self.loop, self.inloop = saved
        out.dead = False
        if arb is not None:
            out.inner, out.dep = set(before.inner), set(before.dep)
        self.env = out

    def unnumbered(self, s):
        """loop with a number nobody reads, without the number"""
        c, t = s.iter, s.target
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
                c.func.id == 'enumerate' and len(c.args) == 1 and \
                'enumerate' not in self.env.v and not c.keywords and \
                isinstance(t, ast.Tuple) and len(t.elts) == 2 and \
                isinstance(t.elts[0], ast.Name) and not any(
                    isinstance(n, ast.Name) and n.id == t.elts[0].id and
                    not isinstance(n.ctx, ast.Store)
                    for n in ast.walk(self.fi.node)):
            r = ast.For(t.elts[1], c.args[0], s.body, s.orelse)
            return ast.copy_location(r, s)
        return s

    def s_For(self, s):
        s = self.unnumbered(s)
        k = self.ev(s.iter)
        arb = None
        if k is not None:
            why = k.why if k.why.startswith('the ') else \
                'the iteration order of ' + k.why
            arb = 'a loop in ' + why
            self.X.nloops += 1
        names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        e = None if k is None or k.perm else k
        self.looped(s.body, lambda: self.bind(s.target, e), arb, names)
        self.block(s.orelse)

    s_AsyncFor = s_For

    def s_While(self, s):
        self.looped(s.body, lambda: (self.test(s.test),
                                     self.assume(s.test, True)), None, set())
        self.assume(s.test, False)
        self.block(s.orelse)

    def s_With(self, s):
        for i in s.items:
            k = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, self.value(k), s)
        self.block(s.body)

    s_AsyncWith = s_With

    def s_Try(self, s):
        before = self.env.copy()
        self.block(s.body)
        after = self.env
        mid = before.merge(after) if not after.dead else before
        if not after.dead:
            self.block(s.orelse)
        out = self.env
        for h in s.handlers:
            self.env = mid.copy()
            self.env.dead = False
            if h.name:
                self.bind(ast.Name(id=h.name), None)
            self.block(h.body)
            out = out.merge(self.env)
        self.env = out
        if s.finalbody:
            d = self.env.dead
            self.env.dead = False
            self.block(s.finalbody)
            self.env.dead = self.env.dead or d

    s_TryStar = s_Try

    def s_Expr(self, s):
        e = s.value
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            f = e.func
            n = f.attr
            name = f.value.id if isinstance(f.value, ast.Name) else None
            local = name in self.fi.locals and name not in self.fi.params
            base = self.ev(f.value)
            k = self.ev(e)
            if base is not None and base.k == U:
                return
            if self.X.callee(self.fi, e) is not None:
                return
            args = join(*[self.seq(e, self.ev(a)) for a in e.args],
                        *[self.seq(e, self.ev(x.value))
                          for x in e.keywords])
            if n in ('append', 'extend', 'insert', 'appendleft', 'update',
                     'setdefault') and local:
                if args is not None and args.k == A:
                    self.env.v[name] = args
                elif self.loop and name not in self.env.inner:
                    kind = U if n in ('update', 'setdefault') else A
                    self.env.v[name] = join(self.env.v.get(name), Kind(
                        kind, self.loop, n == 'append'))
                return
            if args is not None and n not in ('sort', 'add', 'discard',
                                              'remove', 'warn'):
                self.use(e, args, 'passes to %s() a value which depends on'
                         % n)
            if self.loop and self.isouter(f.value) and n != 'add':
                if n in ORDERED:
                    self.X.report(self.fi, e, 'determinism',
                                  'calls %s() in %s' % (n, self.loop))
                elif n not in ('close', 'clear', 'discard', 'remove',
                               'sort', 'update', 'setdefault', 'pop'):
                    self.X.report(self.fi, e, 'determinism',
                                  'calls %s() in %s' % (n, self.loop), True)
            return
        self.ev(e)


def counted(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.Call) and \
        isinstance(e.func, ast.Name) and e.func.id in ('len', 'int', 'bool')


def summary(self, fi, kinds, loop=None, inner=(), depth=[0]):
    key = (fi, tuple(sorted((n, k.k, k.why) for n, k in kinds.items())),
           loop, tuple(sorted(inner)))
    if key in self.memo:
        return self.memo[key]
    self.memo[key] = None
    if depth[0] > 8:
        return None
    depth[0] += 1
    try:
        out = Run(self, fi, kinds, loop, inner).run()
    finally:
        depth[0] -= 1
    self.memo[key] = out
    return out


Analysis.summary = summary


def check(K):
    X = Analysis(K)
    fis = [f for f in K.P.functions.values()
           if not f.module.name.startswith('spec')]
    for rnd in range(3):
        X.memo.clear()
        X.reported.clear()
        X.nloops = X.nsources = X.ncalls = 0
        na = len(X.attrs), len(X.globals)
        for m in K.P.modules.values():
            if m.name.startswith('spec'):
                continue
            for s in m.tree.body:
                if isinstance(s, ast.Assign):
                    fake = next((f for f in fis if f.module is m), None)
                    if fake is None:
                        continue
                    r = Run(X, fake)
                    k = r.ev(s.value)
                    for t in s.targets:
                        if isinstance(t, ast.Name) and k is not None:
                            X.globals[m.name, t.id] = k
        for f in fis:
            k = X.summary(f, {})
            public = not f.name.startswith('_') and f.parent is None
            if k is not None and k.k == A and public:
                X.report(f, f.node, 'determinism', '%s returns a value '
                         'which depends on %s' % (f.name, k.why))
        if (len(X.attrs), len(X.globals)) == na:
            break
    for f in fis:
        K.oblige('%s: result independent of arbitrary orders' % f.qual)
    for (m, line, rule, maybe), (fi, node, _, msg) in sorted(
            X.reported.items(), key=lambda x: x[0][:2]):
        if maybe:
            K.undecided(rule, '%s:%d %s' % (fi.module.rel, line, msg))
        else:
            K.violation(rule, (fi.module, node), '%s: %s' % (fi.name, msg))
    K.floor('functions', len(fis), 60)
    K.floor('sources', X.nsources, 1)
    K.floor('calls', X.ncalls, 300)
