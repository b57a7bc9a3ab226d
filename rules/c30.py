"""
C30: unset variables, path-sensitive definite assignment.

Every function of the package (also nested ones) is run abstractly with all
arguments symbolic and the other functions of the package kept as unknown
results: a variable read on a feasible path on which it was not assigned, or
was deleted, is a violation; conditions are kept as boolean functions, so
that tests of the same value are related to each other, loops may be left
without a round and calls inside a try statement may fail.  In addition each
name must be bound in the function, an enclosing function, the module (not
only in the part of a try statement which failed) or be a builtin, names
imported from modules of the package must exist in them, and attributes of
modules of the package too.
"""
import ast
import builtins
from sa.terms import show
from sa.program import AnalysisError
from rules import c28

TECHNIQUE = 'path-sensitive definite assignment (abstract interpretation)'
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
SPECIAL = {'__file__', '__name__', '__doc__', '__path__', '__package__',
           '__spec__', '__loader__', '__builtins__', '__debug__',
           '__class__', '__annotations__', 'WindowsError'}


def check(K):
    n = 0
    all_ = {f.qual for f in K.P.own_functions()}
    for fi in sorted(K.P.own_functions(nested=True), key=lambda f: f.qual):
        if isinstance(fi.node, ast.Lambda):
            continue
        n += paths(K, fi, all_)
    K.floor('functions', n, 60)
    m = 0
    for name in sorted(K.P.own):
        m += Names(K, K.P.modules[name]).check()
    K.floor('names', m, 2000)


def unset(K, fi, inline, all_):
    """events of unset variables when a function is run"""
    A, r = K.run(fi, opaque=all_ - inline)
    for e in r.events:
        if e.kind not in ('unbound', 'undefined'):
            continue
        if e.module is not None and getattr(
                e.module, 'name', None) not in K.P.own:
            continue
        if e.kind == 'undefined' and (
                e.name in SPECIAL or
                e.name in enclosing_names(e.node or fi.node)):
            continue
        if A.feasible(e.pc):
            yield A, e


def paths(K, fi, all_):
    K.oblige('%s reads only assigned variables' % fi.qual)
    try:
        found = list(unset(K, fi, {fi.qual}, all_))
    except (AnalysisError, RecursionError) as ex:
        K.undecided('paths', '%s: %s' % (fi.qual, ex))
        return 0
    seen = set()
    if any(e.kind == 'unbound' for A, e in found):
        # values which helpers do not let pass
        try:
            inl = {fi.qual} | callees(K, fi, all_)
            if len(inl) > 1:
                keep = {(e.node, e.name) for A, e in unset(
                    K, fi, inl, all_) if e.module is fi.module}
                found = [(A, e) for A, e in found if e.kind != 'unbound' or
                         (e.node, e.name) in keep]
        except (AnalysisError, RecursionError) as ex:
            K.undecided('paths', '%s: %s' % (fi.qual, ex))
            return 0
    for A, e in found:
        if e.name in seen:
            continue
        seen.add(e.name)
        if e.kind == 'unbound' and fi.qual.split('#')[0] not in c28.ROOTS:
            # a helper: in the conditions of its callers
            try:
                if not in_context(K, fi, e, all_):
                    continue
            except (AnalysisError, RecursionError) as ex:
                K.undecided('paths', '%s: %s' % (fi.qual, ex))
                continue
        K.violation('unset variable', e, 'variable %s is not assigned%s' % (
            e.name, '' if e.pc == 1 else ' when ' + A.bdd.show(
                e.pc, show)[:300]))
    return 1


def callees(K, fi, all_):
    """functions of the package called from a function"""
    G = K.__dict__.setdefault('graph', None) or c28.Graph(K)
    K.graph = G
    return {f.qual for f in G.edges(fi) if f.qual in all_ and
            f.name != '__init__'}


def in_context(K, fi, event, all_):
    G = K.__dict__.setdefault('graph', None) or c28.Graph(K)
    K.graph = G
    todo, done, any_caller = [(fi, {fi.qual})], {fi}, False
    while todo:
        f, inline = todo.pop()
        for g in K.P.own_functions():
            if g in done or g is f or f not in G.edges(g):
                continue
            done.add(g)
            any_caller = True
            inl = inline | {g.qual}
            hit = any(e.node is event.node and e.name == event.name
                      for A, e in unset(K, g, inl, all_))
            if not hit:
                continue
            if g.qual.split('#')[0] in c28.ROOTS or len(inl) > 4:
                return True
            more = [h for h in K.P.own_functions()
                    if g in G.edges(h) and h is not g]
            if not more:
                return True
            todo.append((g, inl))
    return not any_caller


def targets(node):
    """names bound by the statements of one scope"""
    out, glob = set(), set()
    body = node.body if isinstance(node.body, list) else [node.body]
    todo = list(body)
    if isinstance(node, SCOPES):
        a = node.args
        out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        out |= {x.arg for x in (a.vararg, a.kwarg) if x}
    while todo:
        n = todo.pop()
        if isinstance(n, SCOPES[:2] + (ast.ClassDef,)):
            out.add(n.name)
            todo += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, COMPS):
            todo += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        todo += list(ast.iter_child_nodes(n))
    return out, glob


def enclosing_names(node):
    out = set()
    while hasattr(node, '_parent'):
        node = node._parent
        if isinstance(node, SCOPES):
            out |= targets(node)[0]
    return out


class Names:
    def __init__(self, K, mod):
        self.K, self.mod = K, mod
        self.top = targets(mod.tree)[0]
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Global):
                self.top |= set(n.names)
        self.star = any(isinstance(n, ast.ImportFrom) and any(
            a.name == '*' for a in n.names) for n in ast.walk(mod.tree))
        self.n = 0

    def check(self):
        self.partial()
        self.scope(self.mod.tree, ())
        self.imported()
        return self.n

    def known(self, name, chain):
        return name in self.top or any(name in c for c in chain) or \
            hasattr(builtins, name) or name in SPECIAL or self.star

    def scope(self, node, chain):
        """check the expressions of one scope, then those inside it"""
        body = node.body if isinstance(node.body, list) else [node.body]
        self.visit(body, chain)

    def visit(self, todo, chain):
        todo = list(todo)
        while todo:
            n = todo.pop()
            if isinstance(n, SCOPES):
                a = n.args
                self.visit(a.defaults + [x for x in a.kw_defaults if x] +
                           getattr(n, 'decorator_list', []), chain)
                self.scope(n, chain + (targets(n)[0],))
                continue
            if isinstance(n, ast.ClassDef):
                self.visit(n.bases + n.decorator_list + [
                    k.value for k in n.keywords], chain)
                own = targets(n)[0]
                for s in n.body:
                    if isinstance(s, SCOPES):
                        self.visit(s.decorator_list, chain + (own,))
                        a = s.args
                        self.visit(a.defaults + [
                            x for x in a.kw_defaults if x], chain + (own,))
                        self.scope(s, chain + (targets(s)[0],))
                    else:
                        self.visit([s], chain + (own,))
                continue
            if isinstance(n, COMPS):
                own = {x.id for g in n.generators
                       for x in ast.walk(g.target)
                       if isinstance(x, ast.Name)}
                self.visit(list(ast.iter_child_nodes(n)), chain + (own,))
                continue
            if isinstance(n, ast.AnnAssign):
                todo += [x for x in (n.target, n.value) if x]
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.n += 1
                if not self.known(n.id, chain) and not self.caught(n):
                    self.K.violation('names', (self.mod, n), 'the name %s '
                                     'does not exist' % n.id)
            todo += list(ast.iter_child_nodes(n))

    def caught(self, node):
        """is a missing name expected here?"""
        child = node
        while hasattr(child, '_parent'):
            up = child._parent
            if isinstance(up, SCOPES):
                return False
            if isinstance(up, ast.Try) and child in up.body and any(
                    h.type is None or any(
                        isinstance(x, ast.Name) and x.id in (
                            'NameError', 'Exception')
                        for x in ast.walk(h.type)) for h in up.handlers):
                return True
            child = up
        return False

    def partial(self):
        """names bound only in the failing part of a module-level try"""
        for t in self.mod.tree.body:
            if not isinstance(t, ast.Try):
                continue
            first = targets(ast.Module(t.body + t.orelse, []))[0]
            rest = [s for s in self.mod.tree.body if s is not t]
            other = targets(ast.Module(rest, []))[0]
            for h in t.handlers:
                if any(isinstance(s, ast.Raise) for s in h.body):
                    continue
                lost = first - targets(h)[0] - other
                for name in sorted(lost):
                    self.K.oblige('%s: %s after a failure' % (
                        self.mod.rel, name))
                    uses = [n for n in ast.walk(self.mod.tree) if isinstance(
                        n, ast.Name) and n.id == name and isinstance(
                            n.ctx, ast.Load) and not inside(n, t)]
                    if uses and not any(guarded(u) for u in uses):
                        self.K.violation('names', (self.mod, uses[0]),
                                         'the name %s does not exist if the '
                                         'statement in line %d fails' % (
                                             name, t.lineno))

    def imported(self):
        P = self.K.P
        for n in ast.walk(self.mod.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            base = n.module or ''
            if n.level:
                b = self.mod.name.split('.')
                if not self.mod.rel.endswith('__init__.py'):
                    b = b[:-1]
                b = b[:len(b) - (n.level - 1)]
                base = '.'.join(b + ([n.module] if n.module else []))
            if base not in P.own:
                if base == P.package or base.startswith(P.package + '.'):
                    if not base.startswith(P.package + '.tests'):
                        self.K.violation('names', (self.mod, n), 'there is '
                                         'no module %s' % base)
                continue
            other = targets(P.modules[base].tree)[0]
            for a in n.names:
                self.n += 1
                if a.name != '*' and a.name not in other and \
                        base + '.' + a.name not in P.own:
                    self.K.violation('names', (self.mod, n), '%s has no '
                                     '%s' % (base, a.name))


def inside(n, t):
    while hasattr(n, '_parent'):
        if n is t:
            return True
        n = n._parent
    return False


def guarded(n):
    """is the use under some condition or handler?"""
    while hasattr(n, '_parent'):
        if isinstance(n, (ast.If, ast.IfExp, ast.Try, ast.BoolOp)):
            return True
        n = n._parent
    return False
