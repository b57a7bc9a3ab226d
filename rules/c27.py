"""
C27: error handlers and interrupts, an abstract run of each handler.

Every handler of the package which can catch KeyboardInterrupt or SystemExit
(bare, BaseException or one of them, also through a name bound to a tuple) is
run on an abstract exception of exactly that class: tests of its type are
decided, all other tests take both ways.  Each path has to end by raising
the same exception again or by asking for exit.  Handlers before it in the
same try statement which catch it first are taken into account.  Leaving a
finally block by return, break or continue, suppressing these classes with
contextlib.suppress, an __exit__ method returning a true value and replacing
the handler of an interrupt signal are violations as well.
"""
import ast

TECHNIQUE = 'path-sensitive abstract run of exception handlers (AST)'
PARENTS = {'KeyboardInterrupt': {'KeyboardInterrupt', 'BaseException'},
           'SystemExit': {'SystemExit', 'BaseException'}}
BUILTIN = {n for n, x in vars(__import__('builtins')).items()
           if isinstance(x, type) and issubclass(x, BaseException)}


class Names:
    """names of classes an expression in a module stands for"""

    def __init__(self, K, mod, fn):
        self.K, self.mod, self.fn = K, mod, fn

    def __call__(self, e, seen=()):
        if e is None:
            return {'BaseException'}
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return set().union(*[self(x, seen) for x in e.elts])
        if isinstance(e, ast.Starred):
            return self(e.value, seen)
        if isinstance(e, ast.BinOp):
            return self(e.left, seen) | self(e.right, seen)
        if isinstance(e, ast.IfExp):
            return self(e.body, seen) | self(e.orelse, seen)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id in ('tuple', 'list', 'set') and len(e.args) == 1:
            return self(e.args[0], seen)
        if isinstance(e, ast.Attribute):
            return {e.attr} if isinstance(e.value, ast.Name) and \
                e.value.id == 'builtins' else {'.' + e.attr}
        if isinstance(e, ast.Name):
            if e.id in seen:
                return set()
            out = set()
            for n in list(ast.walk(self.fn) if self.fn else ()) + list(
                    self.mod.tree.body):
                if isinstance(n, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == e.id
                        for t in n.targets):
                    out |= self(n.value, seen + (e.id,))
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        if (a.asname or a.name) == e.id:
                            m = self.K.P.modules.get(n.module)
                            if m is None:
                                out.add(a.name if n.module == 'builtins'
                                        else '.' + a.name)
                                continue
                            out |= Names(self.K, m, None)(ast.Name(
                                id=a.name), seen + (e.id,))
            for n in ast.walk(self.mod.tree):
                if isinstance(n, ast.ClassDef) and n.name == e.id:
                    return {'.' + e.id}
            return out or ({e.id} if e.id in BUILTIN else {'?' + e.id})
        return {'?' + ast.unparse(e)}


class Run:
    """paths of a handler for an exception of one class;
    ends: 'raise' again, 'other' exception, 'fall' through, 'leave'"""

    def __init__(self, names, exc, bound):
        self.names, self.exc, self.bound = names, exc, {bound} - {None}

    def block(self, body):
        """-> set of (end, node)"""
        for i, s in enumerate(body):
            r = self.stmt(s)
            if ('fall', None) not in r:
                return r
            rest = self.block(body[i + 1:])
            return (r - {('fall', None)}) | rest
        return {('fall', None)}

    def stmt(self, s):
        fall = {('fall', None)}
        if isinstance(s, ast.Raise):
            return {('raise' if self.again(s) else 'other', s)}
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return {('leave', s)}
        if isinstance(s, ast.If):
            v = self.test(s.test)
            a = self.block(s.body) if v is not False else set()
            b = self.block(s.orelse) if v is not True else set()
            return a | b
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            r = {x for x in self.block(s.body) if not isinstance(
                x[1], (ast.Break, ast.Continue))}
            always = isinstance(s, ast.While) and self.test(s.test)
            return (r - fall if always else r | fall)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.block(s.body)
        if isinstance(s, ast.Try):
            r = self.block(s.body + s.orelse)
            for h in s.handlers:
                own = Run(self.names, self.exc, None)
                own.bound = set(self.bound)
                r |= {x for x in own.block(h.body)}
            f = self.block(s.finalbody)
            if ('fall', None) not in f:
                return f
            return r
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Name) and \
                s.value.id in self.bound:
            self.bound |= {t.id for t in s.targets
                           if isinstance(t, ast.Name)}
        if isinstance(s, ast.Expr) and exits(s.value):
            return {('raise', s)}
        if isinstance(s, ast.Assert):
            return {('other', s)} | fall if self.test(s.test) is not True \
                else fall
        return fall

    def again(self, s):
        if s.exc is None:
            return True
        e = s.exc
        if isinstance(e, ast.Name) and e.id in self.bound:
            return True
        if isinstance(e, ast.Call) and isinstance(
                e.func, ast.Attribute) and e.func.attr == 'with_traceback':
            return isinstance(e.func.value, ast.Name) and \
                e.func.value.id in self.bound
        if isinstance(e, ast.Call):
            e = e.func
        return isinstance(e, ast.Name) and e.id in (
            'SystemExit', 'KeyboardInterrupt')

    def test(self, t):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.test(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.BoolOp):
            vs = [self.test(x) for x in t.values]
            stop = isinstance(t.op, ast.Or)
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and \
                len(t.args) == 2:
            a = t.args[0]
            if t.func.id == 'issubclass' and self.typeof(a) or \
                    t.func.id == 'isinstance' and isinstance(
                        a, ast.Name) and a.id in self.bound:
                return self.among(t.args[1])
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                self.typeof(t.left):
            n = self.names(t.comparators[0])
            if any(x.startswith('?') for x in n):
                return None
            v = self.exc in n
            if isinstance(t.ops[0], (ast.Is, ast.Eq, ast.In)):
                return v
            if isinstance(t.ops[0], (ast.IsNot, ast.NotEq, ast.NotIn)):
                return not v
        return None

    def typeof(self, a):
        if isinstance(a, ast.Attribute) and a.attr == '__class__':
            a = a.value
        elif isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and \
                a.func.id == 'type' and len(a.args) == 1:
            a = a.args[0]
        else:
            return False
        return isinstance(a, ast.Name) and a.id in self.bound

    def among(self, e):
        n = self.names(e)
        if n & PARENTS[self.exc]:
            return True
        return None if any(x.startswith('?') for x in n) else False


def exits(e):
    if not isinstance(e, ast.Call):
        return False
    f = ast.unparse(e.func)
    return f in ('sys.exit', 'os._exit', 'exit', 'quit', 'os.abort')


def check(K):
    n = 0
    for name in sorted(K.P.own):
        n += module(K, K.P.modules[name])
    K.floor('try statements', n, 15)


def enclosing(tree):
    up = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    return up


def module(K, mod):
    up = enclosing(mod.tree)

    def fn(node):
        while node in up:
            node = up[node]
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return node
    n = 0
    for node in ast.walk(mod.tree):
        if isinstance(node, ast.Try):
            n += 1
            handlers(K, mod, node, Names(K, mod, fn(node)))
            final(K, mod, node)
        elif isinstance(node, ast.Call):
            call(K, mod, node, Names(K, mod, fn(node)))
        elif isinstance(node, ast.FunctionDef) and node.name in (
                '__exit__', '__aexit__'):
            leaving(K, mod, node, Names(K, mod, node))
    return n


def handlers(K, mod, node, names):
    for exc in PARENTS:
        for h in node.handlers:
            K.oblige('%s:%d %s' % (mod.rel, h.lineno, exc))
            got = names(h.type)
            if not got & PARENTS[exc]:
                odd = [x for x in got if x.startswith('?')]
                if odd:
                    K.undecided('handlers', '%s:%d: which errors %s stands '
                                'for' % (mod.rel, h.lineno, odd[0][1:]))
                continue
            for end, at in sorted(Run(names, exc, h.name).block(h.body),
                                  key=str):
                if end == 'raise':
                    continue
                if end == 'fall' and later(node, h, names.fn):
                    K.undecided('handlers', '%s:%d: the error is kept, it '
                                'may be raised later' % (mod.rel, h.lineno))
                    continue
                K.violation('handlers', (mod, at or h), '%s is caught in '
                            'line %d and %s' % (exc, h.lineno, {
                                'fall': 'not raised again',
                                'leave': 'not raised again on this path',
                                'other': 'replaced by another error'}[end]))
            break
    return True


def later(node, h, fn):
    """is the error bound to a name which is raised outside the handler?"""
    kept = {t.id for s in ast.walk(h) if isinstance(s, ast.Assign) and
            isinstance(s.value, ast.Name) and s.value.id == h.name
            for t in s.targets if isinstance(t, ast.Name)}
    here = set(ast.walk(h))
    return any(isinstance(r, ast.Raise) and r not in here and isinstance(
        r.exc, ast.Name) and r.exc.id in kept for r in ast.walk(fn or node))


def final(K, mod, node):
    if not node.finalbody:
        return
    K.oblige('%s:%d finally' % (mod.rel, node.lineno))
    todo = [(s, False) for s in node.finalbody]
    while todo:
        s, loop = todo.pop()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda,
                          ast.AsyncFunctionDef)):
            continue
        if isinstance(s, ast.Return) or not loop and isinstance(
                s, (ast.Break, ast.Continue)):
            K.violation('finally', (mod, s), 'leaving the finally block '
                        'swallows an interrupt')
        inner = loop or isinstance(s, (ast.For, ast.While))
        todo += [(c, inner) for c in ast.iter_child_nodes(s)]


def call(K, mod, node, names):
    f = ast.unparse(node.func)
    if f.split('.')[-1] == 'suppress' and f in ('suppress',
                                                'contextlib.suppress'):
        K.oblige('%s:%d suppress' % (mod.rel, node.lineno))
        got = set().union(set(), *[names(a) for a in node.args])
        if got & {'BaseException', 'KeyboardInterrupt', 'SystemExit'}:
            K.violation('suppress', (mod, node), 'interrupts are suppressed')
    if f in ('signal.signal', 'signal') and len(node.args) == 2:
        sig = ast.unparse(node.args[0]).split('.')[-1]
        if sig in ('SIGINT', 'SIGTERM', '2', '15') and ast.unparse(
                node.args[1]).split('.')[-1] not in (
                    'default_int_handler', 'SIG_DFL'):
            K.violation('signals', (mod, node), 'the handler of %s is '
                        'replaced' % sig)


def leaving(K, mod, node, names):
    K.oblige('%s:%d %s' % (mod.rel, node.lineno, node.name))
    args = [a.arg for a in node.args.args]
    for exc in PARENTS:
        r = Run(names, exc, args[2] if len(args) > 2 else None)
        cls = args[1] if len(args) > 1 else None
        old = r.typeof
        r.typeof = lambda a: isinstance(a, ast.Name) and a.id == cls or \
            old(a)
        for end, at in r.block(node.body):
            if end == 'leave' and isinstance(at, ast.Return) and \
                    at.value is not None:
                v = r.test(at.value)
                if v is True:
                    K.violation('exit', (mod, at), '%s is swallowed by this '
                                'context manager' % exc)
                elif v is None:
                    K.undecided('exit', '%s:%d: value returned for %s' % (
                        mod.rel, at.lineno, exc))
