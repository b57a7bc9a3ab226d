"""
C29: processing history, value-dependence analysis of the recorder.

The decorator of each documented operation which reaches obspy's
_internal_add_processing_info is run abstractly with the operation itself as
argument, once with all arguments given, once with defaults.  The recorded
text must depend on the version, the name of the operation and every
parameter (its name together with its value, in all cases of the value), be
added exactly once to each trace of the result, for any arguments; the
operation must be called once with unchanged arguments and its result
returned even if recording fails at any call.
"""
import ast
from sa.bdd import TRUE, FALSE
from sa.terms import T, Term, is_str, cval, show
from sa.program import AnalysisError

TECHNIQUE = 'value-dependence analysis of the recording decorator'
ADD = '_internal_add_processing_info'
OPS = {
    'rf.rfstream.RFStream.rf': ('one_argument', 'keywords', 'no_arguments'),
    'rf.deconvolve.deconvolve': ('one_argument', 'keywords',
                                 'no_arguments'),
    'rf.rfstream.RFStream.moveout': ('moveout', 'moveout_keywords',
                                     'one_argument', 'no_arguments'),
    'rf.rfstream.RFStream.stack': ('no_arguments',),
    'rf.profile.profile': ('profile', 'one_argument'),
    'rf.harmonics.harmonics': ('one_argument', 'keywords',
                               'no_arguments'),
}


def names(K, mod):
    out = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                base = 'rf' + ('.' + base if base else '')
            for a in n.names:
                out.setdefault(a.asname or a.name, set()).add(
                    base + '.' + a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                out.setdefault(a.asname or a.name.split('.')[0], set()).add(
                    a.name if a.asname else a.name.split('.')[0])
    return out


def resolve(K, mod, e):
    """own functions an expression may stand for"""
    s = ast.unparse(e.func if isinstance(e, ast.Call) else e)
    head, _, rest = s.partition('.')
    tail = '.' + rest if rest else ''
    qs = {mod.name + '.' + s} | {q + tail for q in names(K, mod).get(
        head, ())}
    return [K.P.functions[q] for q in sorted(qs) if q in K.P.functions]


def reaches(K, fi, seen=None):
    """does a function (or one it calls) add to the history?"""
    seen = set() if seen is None else seen
    if fi in seen:
        return False
    seen.add(fi)
    body = fi.node.body if isinstance(fi.node.body, list) else [fi.node.body]
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and n.attr in (ADD,
                                                           'processing'):
                return True
            if isinstance(n, ast.Name):
                for g in resolve(K, fi.module, n):
                    if reaches(K, g, seen):
                        return True
    return False


def recorder(K, fi):
    for d in fi.node.decorator_list:
        for g in resolve(K, fi.module, d):
            if reaches(K, g):
                return g, d
    # op = recorder(op) after the definition
    for n in ast.walk(fi.module.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and \
                ast.unparse(n.targets[0]).split('.')[-1] == fi.name and \
                any(ast.unparse(a).split('.')[-1] == fi.name
                    for a in n.value.args):
            for g in resolve(K, fi.module, n.value):
                if reaches(K, g):
                    return g, n
    return None, None


def check(K):
    n = 0
    found = {}
    for q in OPS:
        fi = K.P.function(q)
        K.oblige('%s is recorded' % q)
        g, d = recorder(K, fi)
        if g is None:
            if any(isinstance(x, ast.Attribute) and x.attr == ADD
                   for x in ast.walk(fi.node)):
                K.undecided('recorded', '%s records itself' % q)
            else:
                K.violation('recorded', (fi.module, fi.node), '%s is not '
                            'recorded in the processing history' % q)
            continue
        n += 1
        found.setdefault(g, []).append(fi)
    for g, ops in found.items():
        style = 'decorator' if any(
            ast.unparse(d).split('.')[-1] == 'decorator'
            for d in g.node.decorator_list) else 'closure'
        if style == 'decorator':
            transparent(K, g)
        for fi in ops:
            for driver in OPS[fi.qual]:
                operation(K, g, style, fi, driver)
    K.floor('recorded operations', n, 4)


def value(K, fi):
    return T('func', fi.id, 'mod:' + fi.module.name)


def transparent(K, g):
    if len(g.params) != 1 or not g.vararg or not g.kwarg:
        K.undecided('result', 'arguments of %s' % g.qual)
        return
    args = {'_func_': T('sym', '_func_'), g.params[0]: T('sym', '_func_')}
    if (g.vararg, g.kwarg) != ('args', 'kwargs'):
        args.update({'args': T('sym', 'args'), 'kwargs': T('sym', 'kwargs'),
                     g.vararg: T('sym', 'args'), g.kwarg: T('sym', 'kwargs')})
    c = K.case(g.qual, 'c29.record', args=args, keep=('*' + ADD,))
    A, r = K.run(g.qual, args=args, exits=True)
    for st, exc in r.exits:
        K.oblige('failure of %s' % show(exc)[:80])
        if A.feasible(st.pc) and not operation_failed(exc):
            K.violation('failing record', (g.module, g.node), 'a failure of '
                        'the record hides the result: %s' % show(exc)[:200])
            break
    c.calls('operation', '_func_', dup=True)
    c.returns('result')
    c.ret('result')


def operation_failed(exc):
    t = exc.args[0] if exc.op == 'exc' else None
    return isinstance(t, Term) and t.op == 'call' and \
        t.args[0] is T('sym', '_func_') or exc.op == 'exc' and \
        t.op == 'unk'


def operation(K, g, style, fi, driver):
    A, r = K.run('spec.c29.' + driver, args={
        'style': style, 'recorder': value(K, g), 'op': value(K, fi)},
        opaque=(fi.qual,), mode='[%s]' % fi.qual)
    bd = A.bdd
    what = '%s [%s]' % (fi.qual, driver)
    K.oblige(what + ' entry')
    if r.state is None:
        raise AnalysisError('%s does not return' % what)
    ops = [e for e in r.events if e.kind == 'call' and e.name == fi.qual]
    adds = [e for e in r.events if e.kind == 'call' and
            str(e.name).endswith('.' + ADD)]
    odd = [e for e in r.events if e.kind in ('call', 'setitem') and (
        e.name is None or e.name == 'processing')]
    if not ops:
        (K.undecided if odd else K.violation)(
            *(('operation',) + ((what + ' is not called',) if odd else
                                (None, what + ' is not called'))))
        return
    val = A.strip(r.value) if r.value is not None else None
    if val is None or fi.qual not in show(val):
        K.violation('result', ops[0], '%s: the result is not returned' %
                    what)
        return
    if not adds:
        if odd:
            K.undecided('recorded', '%s: no known way of recording' % what)
        else:
            K.violation('recorded', ops[0], '%s is not recorded' % what)
        return
    doms = {}
    some = FALSE
    for e in adds:
        if len(e.loops) != 1 or not e.args:
            K.undecided('each trace', '%s: loops of %s' % (what, e.where))
            return
        dom = e.loops[0][0]
        t = A.strip(dom[0] if isinstance(dom, tuple) else dom)
        if fi.qual not in show(t):
            K.violation('each trace', e, '%s: the entry is added to %s' % (
                what, show(t)[:200]))
            return
        if A.feasible(bd.and_(some, e.pc)):
            K.violation('once', e, '%s: more than one entry is added' % what)
        some = bd.or_(some, e.pc)
        text(K, A, fi, driver, r, e, ops[0], what)
    lost = bd.neg(bd.exists(some, lambda a: a.op in ('raises', 'excis')))
    if fi.qual != 'rf.profile.profile' and A.feasible(lost):
        K.violation('always', adds[0], '%s: nothing is recorded when %s' % (
            what, bd.show(lost, show)[:300]))


def text(K, A, fi, driver, r, e, op, what):
    info = e.args[0]
    version = [n.value for n in K.P.modules['rf'].tree.body if isinstance(
        n, ast.Assign) and ast.unparse(n.targets[0]) == '__version__']
    texts = ' '.join(cval(x) for x in walk(info) if is_str(x))
    for label, ok in (('version', not version or not isinstance(
            version[0], ast.Constant) or str(version[0].value) in texts or
            any(x.op == 'fld' and '__version__' in show(x)
                for x in walk(info))),
            ('name of the operation', fi.name in texts or any(
                '__name__' in show(x) for x in walk(info)))):
        K.oblige('%s: %s' % (what, label))
        if not ok:
            bad(K, e, info, '%s: the entry lacks the %s' % (what, label))
    env = arguments(A, fi, op)
    for p, v in env.items():
        K.oblige('%s: argument %s' % (what, p))
        if p == 'boxes':
            ok = any(x is v for x in walk(info))
        else:
            ok = has(A, info, p, v)
        if not ok:
            bad(K, e, info, '%s: the entry lacks argument %s with its value'
                % (what, p))


def bad(K, e, info, msg):
    if closed(info):
        K.violation('arguments', e, msg)
    else:
        K.undecided('arguments', msg)


def closed(info):
    """no part of the text is unknown"""
    for x in walk(info):
        if x.op in ('unk', 'each', 'rest', 'loopval', 'call', 'star'):
            return False
        if x.op == 'mcall' and x.args[1] not in ('join', 'format'):
            return False
    return True


def arguments(A, fi, op):
    """parameters of the operation, as it is called"""
    out = {}
    vals = dict(zip(fi.params, op.args))
    for k, v in op.kw:
        if k is not None and k != '**':
            vals[k] = v
    for i, p in enumerate(fi.params):
        if i == 0:
            continue
        if p in vals:
            out[p] = vals[p]
    given = A.spec_kw if hasattr(A, 'spec_kw') else {}
    out.update(given)
    for k, v in op.kw:
        if k is None or k in ('**', fi.kwarg):
            out.pop(k, None)
            s = A.snap(v)
            if s.op == 'dict':
                for x in s.args[0]:
                    out[x[0]] = x[2]
    return out


def walk(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            yield x
            todo.extend(x.args)
        elif isinstance(x, tuple):
            todo.extend(x)


def within(t, v):
    return any(x is v for x in walk(t))


def has(A, t, p, v):
    """is 'p' with its value part of the text in all cases?"""
    return not A.feasible(A.bdd.neg(when(A, t, p, v)))


def when(A, t, p, v):
    """condition under which 'p' with its value is part of a text"""
    bd = A.bdd
    if t.op == 'phi':
        return bd.or_(*[bd.and_(c, when(A, x, p, v)) for c, x in t.args[0]])
    if t.op == 'opt':
        return bd.and_(t.args[0], when(A, t.args[1], p, v))
    if is_str(t):
        s = cval(t)
        return TRUE if p in s and v.op == 'const' and (
            repr(cval(v)) in s or str(cval(v)) in s) else FALSE
    if t.op == 'const':
        return FALSE
    out = FALSE
    if t.op == 'fmt':
        for i, x in enumerate(t.args):
            if is_str(x) and p in cval(x) and any(
                    within(y, v) for y in t.args[i:i + 2]):
                return TRUE
            if within(x, T('const', 'str', p)) and any(
                    within(y, v) for y in t.args[i + 1:i + 3]):
                return TRUE
    for x in t.args:
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, Term):
                out = bd.or_(out, when(A, y, p, v))
    return out
