"""
Mechanical edits of the whole package that keep its behaviour; every check
has to stay quiet on each of them:

    refactor.py [NAME ...] [-p C01,C02]     (all edits, all checks)
"""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = '/tmp/verif_refactor'
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, FUNCS)]


def bodies(tree):
    for n in ast.walk(tree):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, f, b


def has_doc(f):
    return bool(f.body) and isinstance(f.body[0], ast.Expr) and \
        isinstance(f.body[0].value, ast.Constant) and \
        isinstance(f.body[0].value.value, str)


def stmts(s):
    return ast.parse(s).body


class Names:
    def __init__(self):
        self.n = 0

    def __call__(self, base='value'):
        self.n += 1
        return '%s_%d' % (base, self.n)


NEW = Names()


def own(f):
    """nodes of a function, without those of nested functions and classes"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNCS + (ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def uses_yield(f):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(f))


# ------------------------------------------------------------------- edits
def nothing(tree):
    pass


def rename_locals(tree):
    tops = [n for n in tree.body if isinstance(n, FUNCS)] + [
        m for c in tree.body if isinstance(c, ast.ClassDef)
        for m in c.body if isinstance(m, FUNCS)]
    for f in tops:
        params, stored, keep = set(), set(), set()
        for n in ast.walk(f):
            if isinstance(n, ast.arg):
                params.add(n.arg)
            elif isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                stored.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                keep |= {(a.asname or a.name).split('.')[0]
                         for a in n.names}
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                keep |= set(n.names)
            elif isinstance(n, FUNCS + (ast.ClassDef,)) and n is not f:
                keep.add(n.name)
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in stored - params - keep:
                n.id = n.id + '_v'
            elif isinstance(n, ast.ExceptHandler) and n.name and \
                    n.name not in params | keep | stored:
                old, n.name = n.name, n.name + '_v'
                for m in ast.walk(n):
                    if isinstance(m, ast.Name) and m.id == old:
                        m.id = n.name


def result_variable(tree):
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and \
                    not isinstance(s.value, (ast.Name, ast.Constant)):
                v = NEW('result')
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.value))
                out.append(ast.Return(ast.Name(v, ast.Load())))
            else:
                out.append(s)
        setattr(n, f, out)


def swap_branches(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse:
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def nest_else(tree):
    """if c: ... return; rest  ->  if c: ... return else: rest"""
    for n, f, b in list(bodies(tree)):
        b = getattr(n, f)
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and \
                    b[i + 1:]:
                s.orelse = b[i + 1:]
                setattr(n, f, b[:i + 1])
                break


def early_exit(tree):
    """if c: ... return else: rest  ->  if c: ... return; rest"""
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(
                    s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                out.extend(s.orelse)
                s.orelse = []
        setattr(n, f, out)


def guard_continue(tree):
    """last statement of a loop: if c: X  ->  if not c: continue; X"""
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and \
                not n.body[-1].orelse:
            s = n.body[-1]
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                  [ast.Continue()], [])] + s.body


def arguments_of(f, method):
    a = f.args
    call = [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args]
    if a.vararg:
        call.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()),
                                ast.Load()))
    kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load()))
          for x in a.kwonlyargs]
    if a.kwarg:
        kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
    return call, kw


def helper(tree):
    """the body of every function moves to a helper"""
    def private(f):
        return any(isinstance(n, ast.Name) and n.id in (
            'super', '__class__') or isinstance(n, (
                ast.Attribute, ast.Name)) and getattr(
                    n, 'attr', getattr(n, 'id', '')).startswith('__') and
            not getattr(n, 'attr', getattr(n, 'id', '')).endswith('__')
            for n in ast.walk(f)) or uses_yield(f)
    out = []
    for n in tree.body:
        fs = [n] if isinstance(n, FUNCS) else [
            m for m in n.body if isinstance(m, FUNCS)] if isinstance(
                n, ast.ClassDef) else []
        for f in fs:
            if private(f) or isinstance(n, ast.ClassDef) and (
                    f.decorator_list or f.name == '__init__'):
                continue
            h = copy.deepcopy(f)
            h.name = ('%s_%s' % (n.name, f.name) if n is not f
                      else f.name).strip('_') + '_body'
            h.decorator_list = []
            h.args.defaults = []
            h.args.kw_defaults = [None] * len(h.args.kwonlyargs)
            if has_doc(h):
                h.body = h.body[1:] or [ast.Pass()]
            if any(isinstance(x, ast.arg) and x.arg.startswith('__')
                   for x in ast.walk(h)):
                continue
            out.append(h)
            call, kw = arguments_of(f, n is not f)
            f.body = (f.body[:1] if has_doc(f) else []) + [ast.Return(
                ast.Call(ast.Name(h.name, ast.Load()), call, kw))]
        out.append(n)
    tree.body = out


def temporaries(tree):
    """nested calls get names first"""
    def simple(x):
        return isinstance(x, (ast.Name, ast.Constant)) or \
            isinstance(x, ast.Starred)
    for n, f, b in list(bodies(tree)):
        if isinstance(n, ast.ClassDef) or isinstance(n, ast.Module):
            continue
        out = []
        for s in b:
            c = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and \
                    isinstance(c, ast.Call) and not any(
                        isinstance(a, ast.Starred) for a in c.args) and \
                    not isinstance(c.func, ast.Call):
                if isinstance(c.func, ast.Attribute) and not isinstance(
                        c.func.value, (ast.Name, ast.Attribute)):
                    out.append(s)
                    continue
                for i, a in enumerate(c.args):
                    if not simple(a) and not isinstance(
                            a, ast.GeneratorExp):
                        v = NEW('arg')
                        out.append(ast.Assign([ast.Name(v, ast.Store())], a))
                        c.args[i] = ast.Name(v, ast.Load())
                for k in c.keywords:
                    if k.arg and not simple(k.value):
                        v = NEW('option')
                        out.append(ast.Assign([ast.Name(v, ast.Store())],
                                              k.value))
                        k.value = ast.Name(v, ast.Load())
            out.append(s)
        setattr(n, f, out)


def loops(tree):
    """list comprehensions become loops"""
    for n, f, b in list(bodies(tree)):
        if isinstance(n, (ast.ClassDef, ast.Module)):
            continue
        out = []
        for s in b:
            c = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                    c, ast.ListComp) and len(c.generators) == 1 and \
                    not any(isinstance(x, ast.Lambda) for x in ast.walk(c)):
                g = c.generators[0]
                names = {x.id: x.id + '_item' for x in ast.walk(g.target)
                         if isinstance(x, ast.Name)}
                for part in [g.target, c.elt] + g.ifs:
                    for x in ast.walk(part):
                        if isinstance(x, ast.Name) and x.id in names:
                            x.id = names[x.id]
                v = NEW('items')
                add = ast.Expr(ast.Call(ast.Attribute(
                    ast.Name(v, ast.Load()), 'append', ast.Load()),
                    [c.elt], []))
                body = [add]
                for t in reversed(g.ifs):
                    body = [ast.If(t, body, [])]
                out.append(ast.Assign([ast.Name(v, ast.Store())],
                                      ast.List([], ast.Load())))
                out.append(ast.For(g.target, g.iter, body, []))
                s.value = ast.Name(v, ast.Load())
            out.append(s)
        setattr(n, f, out)


def enumerated(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name):
            n.target = ast.Tuple([ast.Name(NEW('index'), ast.Store()),
                                  n.target], ast.Store())
            n.iter = ast.Call(ast.Name('enumerate', ast.Load()),
                              [n.iter], [])


def keywords_reversed(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and all(k.arg for k in n.keywords):
            n.keywords.reverse()


def dict_by_items(tree):
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.Assign) and isinstance(
                    s.value, ast.Dict) and s.value.keys and all(
                        s.value.keys) and len(s.targets) == 1 and isinstance(
                            s.targets[0], ast.Name):
                d, s.value = s.value, ast.Dict([], [])
                name = s.targets[0].id
                if any(isinstance(x, ast.Name) and x.id == name
                       for x in ast.walk(d)):
                    s.value = d
                    continue
                for k, v in zip(d.keys, d.values):
                    out.append(ast.Assign([ast.Subscript(
                        ast.Name(name, ast.Load()), k, ast.Store())], v))
        setattr(n, f, out)


def flipped(tree):
    ops = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
           ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in ops:
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = ops[type(n.ops[0])]()


def de_morgan(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.If, ast.IfExp)) and isinstance(
                n.test, ast.BoolOp):
            b = n.test
            b.op = ast.Or() if isinstance(b.op, ast.And) else ast.And()
            b.values = [ast.UnaryOp(ast.Not(), v) for v in b.values]
            n.test = ast.UnaryOp(ast.Not(), b)


def conditional_statement(tree):
    """x = a if c else b  ->  if c: x = a else: x = b"""
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(
                    s.value, ast.IfExp):
                e, t = s.value, copy.deepcopy(s)
                s.value, t.value = e.body, e.orelse
                out.append(ast.If(e.test, [s], [t]))
            else:
                out.append(s)
        setattr(n, f, out)


def conditional_expression(tree):
    """if c: x = a else: x = b  ->  x = a if c else b"""
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 \
                    and isinstance(s.body[0], ast.Assign) and isinstance(
                        s.orelse[0], ast.Assign) and ast.dump(ast.Module(
                            s.body[0].targets, [])) == ast.dump(ast.Module(
                                s.orelse[0].targets, [])):
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(
                    s.test, s.body[0].value, s.orelse[0].value)))
            elif isinstance(s, ast.If) and len(s.body) == len(
                    s.orelse) == 1 and isinstance(s.body[0], ast.Return) \
                    and isinstance(s.orelse[0], ast.Return) and \
                    s.body[0].value and s.orelse[0].value:
                out.append(ast.Return(ast.IfExp(
                    s.test, s.body[0].value, s.orelse[0].value)))
            else:
                out.append(s)
        setattr(n, f, out)


def does_nothing(tree):
    for i, f in enumerate(functions(tree)):
        s = ['pass', 'unused_value = None', 'assert True', 'if False: pass',
             'logging.getLogger(__name__).debug("called")',
             'for unused_value in (): pass', '"a string"', '0',
             'try:\n    pass\nfinally:\n    pass'][i % 9]
        at = 1 if has_doc(f) else 0
        f.body[at:at] = stmts(s)
    add_import(tree, 'logging')


def logs_everywhere(tree):
    for f in functions(tree):
        at = 1 if has_doc(f) else 0
        f.body[at:at] = stmts('logging.getLogger(__name__).debug("called")')
    add_import(tree, 'logging')


def add_import(tree, name):
    at = 1 if tree.body and isinstance(tree.body[0], ast.Expr) else 0
    while at < len(tree.body) and isinstance(
            tree.body[at], ast.ImportFrom) and \
            tree.body[at].module == '__future__':
        at += 1
    tree.body[at:at] = stmts('import ' + name)


def stats_alias(tree):
    for n in ast.walk(tree):
        if not (isinstance(n, ast.For) and isinstance(n.target, ast.Name)):
            continue
        v = n.target.id
        use = [x for s in n.body for x in ast.walk(s)
               if isinstance(x, ast.Attribute) and x.attr == 'stats' and
               isinstance(x.value, ast.Name) and x.value.id == v]
        rebound = [x for s in n.body for x in ast.walk(s)
                   if isinstance(x, ast.Name) and x.id == v and
                   isinstance(x.ctx, ast.Store)]
        if not use or rebound or any(
                isinstance(x.ctx, ast.Store) for x in use):
            continue
        name = NEW('header')

        class R(ast.NodeTransformer):
            def visit_Attribute(self, x):
                self.generic_visit(x)
                if x in use:
                    return ast.Name(name, x.ctx)
                return x
        n.body = [R().visit(s) for s in n.body]
        n.body[0:0] = stmts('%s = %s.stats' % (name, v))


def constants(tree):
    """numbers and tuples of constants in functions become module constants"""
    out = []

    class R(ast.NodeTransformer):
        def const(self, x):
            name = NEW('CONSTANT')
            out.append(ast.Assign([ast.Name(name, ast.Store())], x))
            return ast.Name(name, ast.Load())

        def visit_JoinedStr(self, x):
            return x

        def visit_Constant(self, x):
            if type(x.value) in (float, int) and x.value not in (0, 1):
                return self.const(x)
            return x

        def visit_Tuple(self, x):
            if isinstance(x.ctx, ast.Load) and x.elts and all(
                    isinstance(e, ast.Constant) for e in x.elts):
                return self.const(x)
            return self.generic_visit(x)
    for f in functions(tree):
        f.body = [R().visit(s) for s in f.body]
    at = next((i for i, s in enumerate(tree.body) if isinstance(
        s, FUNCS + (ast.ClassDef,))), len(tree.body))
    while at > 0 and not isinstance(tree.body[at - 1], (
            ast.Import, ast.ImportFrom)):
        at -= 1
    tree.body[at:at] = out


def annotations(tree):
    for f in functions(tree):
        for a in f.args.args:
            if a.arg not in ('self', 'cls'):
                a.annotation = ast.Name('object', ast.Load())
        if has_doc(f) and len(f.body) > 1:
            f.body = f.body[1:]


def reordered(tree):
    """neighbouring independent assignments without calls are swapped"""
    def names(x, ctx):
        return {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and
                isinstance(n.ctx, ctx)}

    def plain(s):
        return isinstance(s, ast.Assign) and all(
            isinstance(t, ast.Name) for t in s.targets) and not any(
                isinstance(x, (ast.Call, ast.Yield, ast.Subscript,
                               ast.BinOp)) for x in ast.walk(s.value))
    for n, f, b in list(bodies(tree)):
        if isinstance(n, (ast.ClassDef, ast.Module)):
            continue
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if plain(s) and plain(t) and not (
                    names(s, ast.Store) & names(t, (ast.Load, ast.Store)) or
                    names(t, ast.Store) & names(s, ast.Load)):
                b[i], b[i + 1] = t, s
                i += 1
            i += 1


def nested_ifs(tree):
    """if a and b: X  ->  if a: if b: X"""
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and not n.orelse and isinstance(
                n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            v = n.test.values
            n.test = v[0]
            rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
            n.body = [ast.If(rest, n.body, [])]


def test_variable(tree):
    """conditions get a name"""
    for n, f, b in list(bodies(tree)):
        if isinstance(n, (ast.ClassDef, ast.Module)) or \
                isinstance(n, ast.If) and f == 'orelse' and len(b) == 1:
            continue
        out = []
        for s in b:
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                v = NEW('condition')
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.test))
                s.test = ast.Name(v, ast.Load())
            out.append(s)
        setattr(n, f, out)


def format_method(tree):
    """'%s %s' % (a, b)  ->  '{} {}'.format(a, b)"""
    class R(ast.NodeTransformer):
        def visit_BinOp(self, x):
            self.generic_visit(x)
            if isinstance(x.op, ast.Mod) and isinstance(
                    x.left, ast.Constant) and isinstance(
                        x.left.value, str) and \
                    x.left.value.count('%') == x.left.value.count('%s') and \
                    '{' not in x.left.value:
                args = x.right.elts if isinstance(
                    x.right, ast.Tuple) else [x.right]
                if len(args) != x.left.value.count('%s') or not isinstance(
                        x.right, ast.Tuple):
                    return x
                return ast.Call(ast.Attribute(ast.Constant(
                    x.left.value.replace('%s', '{}')), 'format',
                    ast.Load()), args, [])
            return x
    R().visit(tree)


def f_strings(tree):
    """'%s %s' % (a, b)  ->  f'{a} {b}'"""
    class R(ast.NodeTransformer):
        def visit_BinOp(self, x):
            self.generic_visit(x)
            if isinstance(x.op, ast.Mod) and isinstance(
                    x.left, ast.Constant) and isinstance(
                        x.left.value, str) and isinstance(
                            x.right, ast.Tuple) and \
                    x.left.value.count('%') == x.left.value.count('%s') == \
                    len(x.right.elts):
                parts = x.left.value.split('%s')
                out = [ast.Constant(parts[0])]
                for a, p in zip(x.right.elts, parts[1:]):
                    out += [ast.FormattedValue(a, 115, None),
                            ast.Constant(p)]
                return ast.JoinedStr(out)
            return x
    R().visit(tree)


def zipped_ranges(tree):
    """for i, x in enumerate(y): ...  ->  i = 0; for x in y: ...; i += 1"""
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(
                    s.iter, ast.Call) and isinstance(
                        s.iter.func, ast.Name) and \
                    s.iter.func.id == 'enumerate' and len(
                        s.iter.args) == 1 and not s.iter.keywords and \
                    isinstance(s.target, ast.Tuple) and not any(
                        isinstance(x, (ast.Continue,)) for x in ast.walk(s)):
                i, x = s.target.elts
                v = i.id
                s.target, s.iter = x, s.iter.args[0]
                out.extend(stmts('%s = 0' % v))
                s.body.extend(stmts('%s += 1' % v))
            out.append(s)
        setattr(n, f, out)


def get_with_default(tree):
    """x.setdefault(k, v) as a statement -> if k not in x: x[k] = v"""
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            c = getattr(s, 'value', None)
            if isinstance(s, ast.Expr) and isinstance(c, ast.Call) and \
                    isinstance(c.func, ast.Attribute) and \
                    c.func.attr == 'setdefault' and len(c.args) == 2 and \
                    isinstance(c.func.value, ast.Name):
                x, (k, v) = c.func.value, c.args
                out.append(ast.If(
                    ast.Compare(k, [ast.NotIn()], [x]),
                    [ast.Assign([ast.Subscript(x, k, ast.Store())], v)], []))
            else:
                out.append(s)
        setattr(n, f, out)


# ---------------------------------------------------------- helper functions
def loads(xs):
    return {n.id for x in xs for n in ast.walk(x) if isinstance(n, ast.Name)
            and isinstance(n.ctx, ast.Load)}


def stores(xs):
    out = {n.id for x in xs for n in ast.walk(x) if isinstance(n, ast.Name)
           and not isinstance(n.ctx, ast.Load)}
    for x in xs:
        for n in ast.walk(x):
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in n.names}
            elif isinstance(n, FUNCS + (ast.ClassDef,)):
                out.add(n.name)
    return out


def parameters(f):
    a = f.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {
        x.arg for x in (a.vararg, a.kwarg) if x}


def leaves(xs, kinds):
    """control flow which would leave these statements"""
    def walk(n, loop):
        if isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(n, kinds) and not (loop and isinstance(
                n, (ast.Break, ast.Continue))):
            return True
        inner = loop or isinstance(n, (ast.For, ast.While))
        return any(walk(c, inner) for c in ast.iter_child_nodes(n))
    return any(walk(x, False) for x in xs)


def private_names(xs):
    return any(isinstance(n, ast.Name) and n.id in ('super', '__class__') or
               isinstance(n, (ast.Global, ast.Nonlocal)) or
               (getattr(n, 'attr', None) or getattr(n, 'id', None) or ''
                ).startswith('__') for x in xs for n in ast.walk(x))


def top_functions(tree):
    for n in tree.body:
        if isinstance(n, FUNCS):
            yield n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, FUNCS):
                    yield m


def definition(name, params, body):
    return ast.FunctionDef(name, ast.arguments(
        [], [ast.arg(p) for p in params], None, [], [], None, []),
        body, [], None, None, [])


def call_of(name, params):
    return ast.Call(ast.Name(name, ast.Load()),
                    [ast.Name(p, ast.Load()) for p in params], [])


def nested(f):
    return [n for n in ast.walk(f) if isinstance(
        n, FUNCS + (ast.Lambda, ast.ClassDef)) and n is not f]


def split_tail(tree):
    """the second half of every function moves to a helper"""
    out = []
    for f in top_functions(tree):
        start = 1 if has_doc(f) else 0
        k = start + (len(f.body) - start + 1) // 2
        head, tail = f.body[:k], f.body[k:]
        if not tail or uses_yield(f) or nested(f) or private_names([f]):
            continue
        known = parameters(f) | stores(head)
        need = sorted(known & (loads(tail) | stores(tail)))
        name = NEW('rest')
        out.append(definition(name, need, tail))
        # names which may be unset at this point are no parameters
        sure = parameters(f) | {
            t.id for s in head if isinstance(s, ast.Assign)
            for x in s.targets for t in ast.walk(x)
            if isinstance(t, ast.Name)}
        if set(need) - sure:
            out.pop()
            continue
        f.body = head + [ast.Return(call_of(name, need))]
    tree.body.extend(out)


def loop_bodies(tree):
    """bodies of loops which set no variable move to helpers"""
    out = []
    for f in top_functions(tree):
        if private_names([f]) or nested(f):
            continue
        local = parameters(f) | stores(f.body)
        for n in ast.walk(f):
            if isinstance(n, ast.For) and not leaves(n.body, (
                    ast.Return, ast.Break, ast.Yield, ast.YieldFrom)):
                inside = stores(n.body)
                # variables of the body used elsewhere stay
                used = [x for x in ast.walk(f) if isinstance(x, ast.Name) and
                        x.id in inside]
                here = [x for s in n.body for x in ast.walk(s)
                        if isinstance(x, ast.Name) and x.id in inside]
                if len(used) != len(here) or any(
                        isinstance(x, ast.AugAssign) and isinstance(
                            x.target, ast.Name)
                        for s in n.body for x in ast.walk(s)):
                    continue
                if inside & parameters(f) or not inside <= {
                        x.id for x in here}:
                    continue
                body = [Continue().visit(copy.deepcopy(s)) for s in n.body]
                # a body variable read before it is set keeps its old value
                first = {}
                for x in sorted(here, key=lambda x: (x.lineno,
                                                     x.col_offset)):
                    first.setdefault(x.id, x)
                if any(isinstance(x.ctx, ast.Load) for x in first.values()):
                    continue
                need = sorted((loads(n.body) & local) - inside)
                name = NEW('step')
                out.append(definition(name, need, body))
                n.body = [ast.Expr(call_of(name, need))]
    tree.body.extend(out)


class Continue(ast.NodeTransformer):
    """continue of the outer loop becomes return"""
    def visit_For(self, n):
        return n
    visit_While = visit_FunctionDef = visit_Lambda = visit_For

    def visit_Continue(self, n):
        return ast.Return(None)


def branch_helpers(tree):
    """bodies of if statements move to helpers returning what they set"""
    out = []
    for f in top_functions(tree):
        if private_names([f]) or nested(f):
            continue
        local = parameters(f) | stores(f.body)
        for n in ast.walk(f):
            if not isinstance(n, ast.If) or len(n.body) < 2 or leaves(
                    n.body, (ast.Return, ast.Break, ast.Continue, ast.Yield,
                             ast.YieldFrom)):
                continue
            if any(isinstance(x, (ast.Import, ast.ImportFrom, ast.Try,
                                  ast.If, ast.For, ast.While, ast.With))
                   for s in n.body for x in ast.walk(s)):
                continue
            comp = {x.id for s in n.body for c in ast.walk(s) if isinstance(
                c, ast.comprehension) for x in ast.walk(c.target)
                if isinstance(x, ast.Name)}
            sets = sorted(stores(n.body) - comp)
            need = sorted((loads(n.body) & local) - comp)
            before = set()
            for s in n.body:
                if (loads([s]) & set(sets)) - before - parameters(f):
                    before.add('?')
                before |= stores([s])
            if '?' in before:
                continue
            need = [p for p in need if p in parameters(f) or p not in sets]
            name = NEW('part')
            body = list(n.body)
            call = call_of(name, need)
            if not sets:
                n.body = [ast.Expr(call)]
            elif len(sets) == 1:
                body.append(ast.Return(ast.Name(sets[0], ast.Load())))
                n.body = [ast.Assign([ast.Name(sets[0], ast.Store())], call)]
            else:
                body.append(ast.Return(ast.Tuple(
                    [ast.Name(x, ast.Load()) for x in sets], ast.Load())))
                n.body = [ast.Assign([ast.Tuple(
                    [ast.Name(x, ast.Store()) for x in sets],
                    ast.Store())], call)]
            out.append(definition(name, need, body))
    tree.body.extend(out)


def expression_helpers(tree):
    """right sides of assignments move to helpers"""
    out = []
    for f in top_functions(tree):
        if private_names([f]) or nested(f):
            continue
        local = parameters(f) | stores(f.body)
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and isinstance(n.value, (
                    ast.BinOp, ast.Call, ast.ListComp)) and not any(
                        isinstance(x, (ast.Yield, ast.YieldFrom))
                        for x in ast.walk(n.value)):
                comp = {x.id for c in ast.walk(n.value) if isinstance(
                    c, ast.comprehension) for x in ast.walk(c.target)
                    if isinstance(x, ast.Name)}
                need = sorted((loads([n.value]) & local) - comp)
                name = NEW('calculate')
                out.append(definition(name, need, [ast.Return(n.value)]))
                n.value = call_of(name, need)
    tree.body.extend(out)


# ------------------------------------------------------------- other spellings
def inlined(tree):
    """variables used once, in the next statement, disappear"""
    for f in functions(tree):
        if nested(f):
            continue
        count = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                count[n.id] = count.get(n.id, 0) + 1
        for n, field, b in list(bodies(f)):
            i = 0
            b = getattr(n, field)
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Name) and \
                        count[s.targets[0].id] == 2 and isinstance(
                            t, (ast.Assign, ast.Return, ast.Expr)):
                    name = s.targets[0].id
                    hits = [x for x in ast.walk(t) if isinstance(
                        x, ast.Name) and x.id == name]
                    bad = any(isinstance(c, (
                        ast.comprehension, ast.IfExp, ast.BoolOp))
                        for c in ast.walk(t))
                    if len(hits) == 1 and isinstance(
                            hits[0].ctx, ast.Load) and not bad:
                        class R(ast.NodeTransformer):
                            def visit_Name(self, x, hits=hits, s=s):
                                return s.value if x is hits[0] else x
                        b[i + 1] = R().visit(t)
                        del b[i]
                        continue
                i += 1


def item_access(tree):
    """x.stats.name -> x.stats['name']"""
    class R(ast.NodeTransformer):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Attribute) and \
                    n.value.attr == 'stats' and n.attr not in (
                        'update', 'pop', 'get', 'setdefault', 'copy',
                        'items', 'keys', 'values'):
                return ast.Subscript(n.value, ast.Constant(n.attr), n.ctx)
            return n
    R().visit(tree)


def attribute_access(tree):
    """x.stats['name'] -> x.stats.name"""
    class R(ast.NodeTransformer):
        def visit_Subscript(self, n):
            self.generic_visit(n)
            if isinstance(n.value, ast.Attribute) and \
                    n.value.attr == 'stats' and isinstance(
                        n.slice, ast.Constant) and isinstance(
                            n.slice.value, str) and \
                    n.slice.value.isidentifier() and isinstance(
                        n.ctx, ast.Store):
                return ast.Attribute(n.value, n.slice.value, n.ctx)
            return n
    R().visit(tree)


def numpy_name(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name == 'numpy':
                    a.asname = None
        elif isinstance(n, ast.Name) and n.id == 'np':
            n.id = 'numpy'


def commuted(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            n.left, n.right = n.right, n.left


def squares(tree):
    class R(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Pow) and isinstance(
                    n.right, ast.Constant) and n.right.value == 2 and \
                    isinstance(n.left, (ast.Name, ast.Attribute)):
                return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
            return n
    R().visit(tree)


def while_loops(tree):
    """for i in range(n): ...  ->  i = 0; while i < n: ...; i += 1"""
    for n, f, b in list(bodies(tree)):
        if isinstance(n, (ast.ClassDef, ast.Module)):
            continue
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(
                    s.iter, ast.Call) and isinstance(
                        s.iter.func, ast.Name) and \
                    s.iter.func.id == 'range' and not s.orelse and \
                    isinstance(s.target, ast.Name) and \
                    len(s.iter.args) in (1, 2) and not leaves(
                        s.body, (ast.Continue,)):
                a = s.iter.args
                i, end = s.target.id, NEW('end')
                out.append(ast.Assign([ast.Name(end, ast.Store())], a[-1]))
                out.append(ast.Assign(
                    [ast.Name(i, ast.Store())],
                    a[0] if len(a) == 2 else ast.Constant(0)))
                out.append(ast.While(ast.Compare(
                    ast.Name(i, ast.Load()), [ast.Lt()],
                    [ast.Name(end, ast.Load())]),
                    s.body + stmts('%s += 1' % i), []))
            else:
                out.append(s)
        setattr(n, f, out)


def indexed(tree):
    """for i, x in enumerate(y)  ->  for i in range(len(y)): x = y[i]"""
    for n in ast.walk(tree):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and \
                isinstance(n.iter.func, ast.Name) and \
                n.iter.func.id == 'enumerate' and isinstance(
                    n.iter.args[0], ast.Name) and len(
                        n.iter.args) == 1 and isinstance(
                            n.target, ast.Tuple) and isinstance(
                                n.target.elts[0], ast.Name):
            y = n.iter.args[0]
            i, x = n.target.elts
            n.target = i
            n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(
                ast.Name('len', ast.Load()), [y], [])], [])
            n.body.insert(0, ast.Assign([x], ast.Subscript(
                copy.deepcopy(y), ast.Name(i.id, ast.Load()), ast.Load())))


def membership(tree):
    """x in (a, b) -> x == a or x == b"""
    class R(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (
                    ast.In, ast.NotIn)) and isinstance(
                        n.comparators[0], ast.Tuple) and isinstance(
                            n.left, (ast.Name, ast.Attribute)):
                inn = isinstance(n.ops[0], ast.In)
                return ast.BoolOp(ast.Or() if inn else ast.And(), [
                    ast.Compare(copy.deepcopy(n.left),
                                [ast.Eq() if inn else ast.NotEq()]
                                if not (isinstance(e, ast.Constant) and
                                        e.value is None) else
                                [ast.Is() if inn else ast.IsNot()], [e])
                    for e in n.comparators[0].elts])
            return n
    R().visit(tree)


def chains(tree):
    """a <= b <= c -> a <= b and b <= c"""
    class R(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 2:
                m = n.comparators[0]
                return ast.BoolOp(ast.And(), [
                    ast.Compare(n.left, [n.ops[0]], [m]),
                    ast.Compare(copy.deepcopy(m), [n.ops[1]],
                                [n.comparators[1]])])
            return n
    R().visit(tree)


def listed(tree):
    """generator expressions as arguments become lists"""
    class R(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            n.args = [ast.ListComp(a.elt, a.generators) if isinstance(
                a, ast.GeneratorExp) and not (isinstance(
                    n.func, ast.Name) and n.func.id in ('any', 'all'))
                else a for a in n.args]
            return n
    R().visit(tree)


def mapped(tree):
    """[f(x) for x in y] -> list(map(lambda x: f(x), y))"""
    class R(ast.NodeTransformer):
        def visit_ListComp(self, n):
            self.generic_visit(n)
            g = n.generators[0]
            if len(n.generators) == 1 and not g.ifs and isinstance(
                    g.target, ast.Name) and not private_names([n]):
                return ast.Call(ast.Name('list', ast.Load()), [ast.Call(
                    ast.Name('map', ast.Load()), [ast.Lambda(
                        ast.arguments([], [ast.arg(g.target.id)], None, [],
                                      [], None, []), n.elt), g.iter],
                    [])], [])
            return n
    R().visit(tree)


def tuples_split(tree):
    """a, b = x, y -> two assignments"""
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Tuple) and isinstance(
                        s.value, ast.Tuple) and len(s.value.elts) == len(
                            s.targets[0].elts) and not (
                                stores(s.targets) & loads([s.value])) and \
                    not any(isinstance(x, ast.Starred)
                            for x in s.targets[0].elts):
                for t, v in zip(s.targets[0].elts, s.value.elts):
                    out.append(ast.Assign([t], v))
            else:
                out.append(s)
        setattr(n, f, out)


def unpacked(tree):
    """x = t[0] ... : a, b = f() -> t = f(); a = t[0]; b = t[1]"""
    for n, f, b in list(bodies(tree)):
        if isinstance(n, (ast.ClassDef, ast.Module)):
            continue
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Tuple) and isinstance(
                        s.value, ast.Call) and not any(
                            isinstance(x, ast.Starred)
                            for x in s.targets[0].elts) and getattr(
                                s.value.func, 'id', '') not in (
                                    'zip', 'map', 'iter'):
                v = NEW('both')
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.value))
                for i, t in enumerate(s.targets[0].elts):
                    out.append(ast.Assign([t], ast.Subscript(
                        ast.Name(v, ast.Load()), ast.Constant(i),
                        ast.Load())))
            else:
                out.append(s)
        setattr(n, f, out)


def augmented(tree):
    """x += 1 with numbers -> x = x + 1"""
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            if isinstance(s, ast.AugAssign) and isinstance(
                    s.value, ast.Constant) and isinstance(
                        s.target, (ast.Name, ast.Attribute)):
                t = copy.deepcopy(s.target)
                t.ctx = ast.Load()
                out.append(ast.Assign([s.target],
                                      ast.BinOp(t, s.op, s.value)))
            else:
                out.append(s)
        setattr(n, f, out)


def negated_tests(tree):
    """x is not None -> not x is None, a not in b -> not a in b"""
    class R(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], (
                    ast.IsNot, ast.NotIn, ast.NotEq)):
                op = {ast.IsNot: ast.Is, ast.NotIn: ast.In,
                      ast.NotEq: ast.Eq}[type(n.ops[0])]
                return ast.UnaryOp(ast.Not(), ast.Compare(
                    n.left, [op()], n.comparators))
            return n
    R().visit(tree)


def handlers_reraise(tree):
    """except X as e: ... with a name"""
    for n in ast.walk(tree):
        if isinstance(n, ast.ExceptHandler) and n.type is not None and \
                n.name is None:
            n.name = NEW('error')


def try_else(tree):
    """try: x = f() ... except: leave  ->  rest of the block into else"""
    for n, f, b in list(bodies(tree)):
        b = getattr(n, f)
        for i, s in enumerate(b):
            if isinstance(s, ast.Try) and not s.orelse and \
                    not s.finalbody and b[i + 1:] and all(isinstance(
                        h.body[-1], (ast.Return, ast.Raise, ast.Continue))
                        for h in s.handlers):
                s.orelse = b[i + 1:]
                setattr(n, f, b[:i + 1])
                break


def try_no_else(tree):
    """inverse of try_else"""
    for n, f, b in list(bodies(tree)):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.Try) and s.orelse and \
                    not s.finalbody and all(isinstance(
                        h.body[-1], (ast.Return, ast.Raise, ast.Continue))
                        for h in s.handlers):
                out.extend(s.orelse)
                s.orelse = []
        setattr(n, f, out)


EDITS = [nothing, rename_locals, result_variable, swap_branches, nest_else,
         early_exit, guard_continue, helper, temporaries, loops, enumerated,
         keywords_reversed, dict_by_items, flipped, de_morgan,
         conditional_statement, conditional_expression, does_nothing,
         logs_everywhere, stats_alias, constants, annotations, reordered,
         nested_ifs, test_variable, format_method, f_strings, zipped_ranges,
         get_with_default, split_tail, loop_bodies, branch_helpers,
         expression_helpers, inlined, item_access, attribute_access,
         numpy_name, commuted, squares, while_loops, indexed, membership,
         chains, listed, mapped, tuples_split, unpacked, augmented,
         negated_tests, handlers_reraise, try_else, try_no_else]


def name_of(edit):
    if isinstance(edit, tuple):
        return '+'.join(e.__name__ for e in edit)
    return edit.__name__


def make(edit):
    edits = edit if isinstance(edit, tuple) else (edit,)
    d = os.path.join(WORK, name_of(edit))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(
        '.git', '*.pyc', '__pycache__'))
    changed = 0
    for name in sorted(os.listdir(os.path.join(d, 'rf'))):
        p = os.path.join(d, 'rf', name)
        if not name.endswith('.py'):
            continue
        with open(p) as f:
            s = f.read()
        tree = ast.parse(s)
        before = ast.unparse(tree)
        after = before
        for e in edits:
            tree = ast.parse(after)
            e(tree)
            ast.fix_missing_locations(tree)
            after = ast.unparse(tree) + '\n'
        compile(after, p, 'exec')
        changed += after.strip() != before.strip()
        with open(p, 'w') as f:
            f.write(after)
    return d, changed


def run(d, prop):
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + '/.evidence')
    try:
        r = subprocess.run(
            [sys.executable, os.path.join(HERE, 'check.py'), prop],
            env=env, capture_output=True, text=True, timeout=900)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def main():
    args = sys.argv[1:]
    props = ['C%02d' % i for i in range(1, 100) if os.path.exists(
        os.path.join(HERE, 'rules', 'c%02d.py' % i))]
    if '-p' in args:
        i = args.index('-p')
        props = args[i + 1].split(',')
        del args[i:i + 2]
    if '-m' in args:
        for a in args[1:]:
            e = tuple(x for n in a.split('+') for x in EDITS
                      if x.__name__ == n)
            print(make(e if len(e) > 1 else e[0]))
        return
    edits = EDITS
    if '-c' in args:        # COUNT edits, each of them several at once
        i = args.index('-c')
        rnd = random.Random(args[i + 2])
        edits = [tuple(rnd.sample(EDITS, rnd.choice([2, 3, 5])))
                 for j in range(int(args[i + 1]))]
        del args[i:i + 3]
    named = {e.__name__: e for e in EDITS}
    edits = [tuple(named[x] for x in a.split('+')) for a in args
             if '+' in a] or edits
    for e in edits:
        if args and name_of(e) not in args:
            continue
        d, changed = make(e)
        with ThreadPoolExecutor(8) as pool:
            res = list(pool.map(lambda p: run(d, p), props))
        bad = [(p, r, o) for p, (r, o) in zip(props, res)
               if r != 0 or ' 0 undecided' not in o]
        print('%-24s %2d files changed, %d checks, not quiet: %s' % (
            name_of(e), changed, len(props), ' '.join(
                p if r == 1 else '%s(%s)' % (p, r) if r else p + '(undecided)'
                for p, r, o in bad) or '-'), flush=True)
        for p, r, o in bad:
            print('   ', p, (o.strip().split('\n') or [''])[0][:300])
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
