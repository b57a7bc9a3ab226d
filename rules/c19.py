"""
C19: inputs unchanged, effect and alias analysis.

Each operation is interpreted abstractly on symbolic input; all effects on
feasible paths (stores of attributes and items, deletions, mutations of
containers, in-place arithmetic) are enumerated with the object they act on.
The object has to be created by the operation itself or be a copy.  Objects
taken out of own containers are own objects only if own objects were put in.
In-place arithmetic on arrays of own objects is allowed if no array of the
input was put into an own object without a copy.  The processing history (a
list) and whole headers have to be copied into the result.
"""
import ast
from sa.terms import T, Term, is_str, cval, show, is_num
from sa.interp import MUTATORS, CONTAINER_MUT
from sa.program import AnalysisError

TECHNIQUE = 'effect and alias analysis over all paths'
OPS = {
    # operation: inputs which must not change
    'rf.rfstream.RFStream.stack': ('self',),
    'rf.profile.profile': ('stream', 'boxes', 'crs'),
    'rf.harmonics.harmonics': ('stream', 'components', 'azim'),
    'rf.rfstream.RFStream.slice2': ('self',),
    'rf.rfstream.obj2stats': ('event', 'station'),
    'rf.rfstream.rfstats': ('event', 'station'),
    'rf.profile.get_profile_boxes': ('latlon0', 'bins'),
    'rf.harmonics.decomp_two': None,
    'rf.harmonics.decomp_one': None,
}
RESULT = {'rf.rfstream.RFStream.stack', 'rf.profile.profile',
          'rf.harmonics.harmonics'}
MUTABLE = ('processing',)
EFFECTS = ('store', 'setitem', 'mutate', 'inplace', 'delete', 'augold',
           'setprop')
OWN = ('ref', 'new', 'copyof', 'list', 'dict', 'tuple', 'set', 'lit', 'seq',
       'obj', 'group', 'fmt', 'poly', 'sum', 'mean', 'zeros', 'hcat')
STEP = ('fld', 'item', 'elem', 'mut', 'last', 'first', 'after', 'iter',
        'each', 'values', 'items', 'keys', 'getattr', 'upd', 'view')
SCALAR = {'num', 'npts', 'sampling_rate', 'delta', 'onset', 'starttime',
          'endtime', 'slowness', 'distance', 'back_azimuth', 'inclination',
          'channel', 'station', 'network', 'location', 'phase', 'moveout',
          'type', 'event_time', 'event_magnitude'}


class Alias:
    def __init__(self, A, events, inputs):
        self.A, self.inputs = A, inputs
        self.memo = {}
        self.put = []          # objects put into own containers
        self.arrays = []       # arrays put into own objects
        for e in events:
            if not A.feasible(e.pc):
                continue
            if e.kind == 'setitem' and isinstance(e.value, Term):
                if self.owner(e.recv) == 'own':
                    self.put.append((e, e.value))
            elif e.kind == 'mutate' and e.name in ('append', 'extend', 'add',
                                                   'insert', 'setdefault',
                                                   'update'):
                if self.owner(e.recv) == 'own':
                    for a in e.args or ():
                        if isinstance(a, Term):
                            self.put.append((e, a))
            if e.kind == 'new' and e.value in A.rawnew:
                self.arrays.append((e, A.rawnew[e.value][0][1]))
            if e.kind == 'store' and e.name == 'data' and \
                    isinstance(e.value, Term) and \
                    self.owner(e.recv) in ('own', 'element'):
                self.arrays.append((e, e.value))

    def base(self, t):
        """input name, 'own', 'element' (of an own container) or None"""
        steps = 0
        while True:
            o = t.op
            if o == 'sym':
                return str(t.args[0]), steps
            if o == 'dict' and any(
                    isinstance(a, Term) and a.op == 'rest' for a in t.args):
                return ('element' if steps else 'own'), steps
            if o == 'phi':
                return None, steps
            if o == 'new' and steps and isinstance(t.args[1], Term) and \
                    t.args[1].op == 'mcall':
                t = t.args[1]
                continue
            if o in ('ref', 'new', 'copyof', 'obj'):
                return 'own', steps
            if o in ('list', 'dict', 'seq', 'tuple'):
                return ('element' if steps else 'own'), steps
            if o in ('first', 'last', 'after') and t.args and \
                    isinstance(t.args[-1], Term):
                t = t.args[-1]
                continue
            if o == 'mcall' and t.args and isinstance(t.args[0], Term) and \
                    len(t.args) > 1 and t.args[1] == 'select':
                # a new stream which holds the same traces
                if not steps:
                    return 'own', steps
                t = t.args[0]
                continue
            if o == 'mcall':
                return 'own', steps
            if o == 'item' and len(t.args) > 1 and not steps and \
                    isinstance(t.args[1], Term) and t.args[1].op == 'slice':
                return 'own', steps
            if o in STEP and t.args and isinstance(t.args[0], Term):
                if o in ('item', 'elem', 'values', 'items', 'first', 'last',
                         'each', 'iter'):
                    steps += 1
                t = t.args[0]
                if o == 'mut' and t.op in ('list', 'dict'):
                    return ('element' if steps else 'own'), steps
                continue
            return None, steps

    def owner(self, t):
        if not isinstance(t, Term):
            return None
        k = self.memo.get(t)
        if k is None:
            k = self.memo[t] = self.owner_(t)
        return k

    def owner_(self, t):
        if t.op == 'phi':
            ks = {self.owner(v) for c, v in t.args[0]}
            for k in ks:
                if k not in ('own', 'element', None):
                    return k
            return None if None in ks else \
                'element' if 'element' in ks else 'own'
        b, n = self.base(t)
        if b in ('own', 'element', None):
            return b
        return 'input:' + b

    def inputlike(self, t):
        """input a value is (not a copy of), or None"""
        k = self.owner(t)
        if k and k.startswith('input:') and k[6:] in self.inputs:
            return k[6:]
        if t.op in ('list', 'tuple', 'each', 'seq', 'one', 'opt', 'concat'):
            for a in t.args:
                if isinstance(a, Term):
                    r = self.inputlike(a)
                    if r:
                        return r
        return None


def scalar(e, A):
    """in-place arithmetic on a number or text"""
    if e.kind == 'augold' and e.name in SCALAR:
        return True
    t = e.recv
    return is_num(t) or is_str(t) or t.op in ('poly', 'fmt', 'len', 'count')


def check(K):
    nops = nev = 0
    for qual, inputs in sorted(OPS.items()):
        fi = K.P.functions.get(qual)
        if fi is None:
            if inputs is None:
                continue
            raise AnalysisError('%s not found' % qual)
        if inputs is None:
            inputs = tuple(a.arg for a in fi.node.args.args)
        nops += 1
        A, r, al, n = operation(K, fi, inputs)
        nev += n
        if qual in RESULT:
            K.oblige('%s: mutable header entries are copied' % qual)
            headers(K, A, al, r, qual, inputs)
    K.floor('operations', nops, 7)
    K.floor('effects', nev, 30)


def operation(K, fi, inputs, **kw):
    """effects of one function on its arguments"""
    qual, n = fi.qual, 0
    A, r = K.run(fi, **kw)
    al = Alias(A, r.events, inputs)
    K.oblige('%s: no effect on %s' % (qual, ', '.join(inputs)))
    for e in r.events:
        if not isinstance(e.recv, Term) or not (
                e.kind in EFFECTS or e.kind == 'call' and
                isinstance(e.name, str) and e.name[:1] == '.' and
                (e.name[1:] in MUTATORS or
                 e.name[1:] in CONTAINER_MUT)) or \
                not A.feasible(e.pc):
            continue
        n += 1
        effect(K, A, al, e, qual, inputs)
    return A, r, al, n


def effect(K, A, al, e, qual, inputs):
    recv = e.recv
    if e.kind in ('inplace', 'augold') and scalar(e, A):
        return
    k = al.owner(recv)
    name = e.name if isinstance(e.name, str) else 'item'
    what = {'store': 'sets %s of' % name, 'setitem': 'sets an item of',
            'delete': 'deletes %s of' % name, 'mutate': 'changes (%s)' % name,
            'inplace': 'changes in place', 'augold': 'changes in place',
            'setprop': 'sets %s of' % name,
            'call': 'changes (%s)' % name[1:]}[e.kind]
    fn = qual.split('.')[-1]
    if k and k.startswith('input:'):
        if k[6:] in inputs:
            if e.kind == 'inplace' and recv.op == 'sym' or \
                    e.kind in ('inplace', 'augold') and \
                    not arrayish(recv):
                return
            K.violation('input unchanged', e, '%s %s %s, which belongs to '
                        'its argument %r' % (fn, what, show(recv)[:90],
                                             k[6:]))
        return
    if k == 'element' and e.kind in ('store', 'setitem', 'delete', 'mutate',
                                     'setprop'):
        for p, v in al.put:
            i = al.inputlike(v)
            if i and kindof(v) == kindof(recv):
                K.violation('input unchanged', e, '%s %s objects of a '
                            'container which holds %s of its argument %r'
                            % (fn, what, show(v)[:60], i))
                return
    if e.kind in ('augold', 'inplace') and arrayish(recv) and \
            k in ('own', 'element'):
        # array of an own object: is it one of the input?
        if recv.op in ('new', 'copyof'):
            return
        for p, v in al.arrays:
            i = al.inputlike(v)
            if i and arrayish(v):
                K.violation('input unchanged', e, '%s changes data in place '
                            'which may be %s of its argument %r (put there '
                            'without a copy, %s)' % (fn, show(v)[:60], i,
                                                     p.where))
                return


def kindof(t):
    if t.op == 'fld':
        return t.args[1]
    if t.op == 'ref':
        return t.args[1]
    if t.op in ('item', 'elem', 'first', 'last', 'each'):
        return 'item'
    return t.op


def arrayish(t):
    return t.op == 'fld' and t.args[1] == 'data'


def headers(K, A, al, r, qual, inputs):
    fn = qual.split('.')[-1]
    seen = set()

    def bad(key, v, e):
        if isinstance(v, Term) and v.op == 'phi':
            for c, x in v.args[0]:
                bad(key, x, e)
            return
        if not isinstance(v, Term) or v.op not in ('fld', 'item', 'mcall'):
            return
        i = al.inputlike(v) if v.op != 'mcall' else None
        if v.op == 'mcall' and v.args and len(v.args) > 1 and \
                v.args[1] in ('get', 'setdefault', 'pop') and \
                isinstance(v.args[0], Term):
            i = al.inputlike(v.args[0])
        if i and (key, e.where) not in seen:
            seen.add((key, e.where))
            K.violation('metadata not shared', e, '%s puts %s of its '
                        'argument %r into the result without a copy'
                        % (fn, show(v)[:80], i))

    for e in r.events:
        if not A.feasible(e.pc):
            continue
        if e.kind in ('store', 'setitem'):
            key = e.name if isinstance(e.name, str) else \
                cval(e.name) if isinstance(e.name, Term) and \
                is_str(e.name) else None
            if key in MUTABLE:
                bad(key, e.value, e)
            if key == 'stats' and al.owner(e.recv) != 'input':
                bad('stats', e.value, e)
        if e.kind == 'new':
            for key, v in A.rawnew.get(e.value, ()):
                if key in MUTABLE:
                    bad(key, v, e)
                if key == '$header' and isinstance(v, Term) and \
                        v.op == 'fld':
                    bad('stats', v, e)
