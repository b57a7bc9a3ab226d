"""
Value-dependence and ordering analysis of RFStream.write for HDF5: under which
condition which index is set before the traces are written, and which entries
this index consists of (the replacement fields of the pattern), are compared
with the kind of stream. No entry of a trace is changed for this format.
"""
import re
import string

from sa.bdd import TRUE
from sa.compare import Item
from sa.terms import Term, const, cval, is_str

W = 'rf.rfstream.RFStream.write'
KINDS = (('record', {'network', 'station', 'location', 'channel whole',
                     'event_time', 'starttime', 'endtime'}),
         ('profile', {'channel', 'box_pos'}))
# the parts of a time to the second
DATE = (('%Y', '%c', '%x', '%D', '%F', '%G', '%s', '%y'),
        ('%m', '%j', '%c', '%x', '%D', '%F', '%s', '%b', '%B'),
        ('%d', '%j', '%c', '%x', '%D', '%F', '%s'),
        ('%H', '%X', '%c', '%T', '%s'), ('%M', '%X', '%c', '%T', '%s'),
        ('%S', '%X', '%c', '%T', '%s'))


def exact(field, spec):
    """does a replacement field keep different values apart?"""
    base, rest = re.match(r'(\w*)(.*)', field).groups()
    if base.endswith('time'):
        if rest not in ('', '.datetime', '.timestamp', '.ns', '._ns'):
            return False
        return '%' not in spec or all(any(f in spec for f in part)
                                      for part in DATE)
    if rest and not (base == 'channel' and rest in ('[2]', '[-1]')):
        return False
    m = re.fullmatch(r'(?:.?[<>^=])?[+ -]?#?0?\d*,?(\.\d+)?([a-zA-Z%]?)',
                     spec)
    if m is None:
        return True
    digits, typ = m.groups()
    if typ in ('d', 'n', 'x', 'o', 'b', 'X', 'c'):
        return False
    if digits is None:
        return typ in ('', 's', 'f', 'F')
    return typ in ('f', 'F', 'e', 'E', 'g', 'G') and int(digits[1:]) >= 3


def kind(text):
    """which kind of traces a pattern keeps apart"""
    names = set()
    try:
        for lit, name, spec, conv in string.Formatter().parse(text):
            if name is None or not exact(name, spec or ''):
                continue
            base = re.match(r'\w*', name).group()
            names.add(base)
            if name == base:
                names.add(base + ' whole')
    except ValueError:
        return None
    for k, need in KINDS:
        if need <= names:
            return k
    return None


def indices(side):
    out = []
    for e in side.res.events:
        if e.kind == 'call' and str(e.name).endswith('set_index') and \
                not e.exceptional and e.args:
            v = side.N(e.args[0])
            if not side.before(e):
                continue
            pc = side.N.node(e.pc)
            for c, x in v.args[0] if v.op == 'phi' else ((TRUE, v),):
                k = kind(cval(x)) if is_str(x) else None
                out.append(Item(('index',), (const(k) if k else x,), (),
                                side.A.bdd.and_(pc, c), side.fl(e), e))
    return out


class Side:
    def __init__(self, side):
        self.side = side
        evs = list(side.res.events)
        self.last = max([i for i, e in enumerate(evs) if e.kind == 'call' and
                         str(e.name) == 'super.write'], default=-1)
        self.pos = {id(e): i for i, e in enumerate(evs)}

    def __getattr__(self, n):
        return getattr(self.side, n)

    def before(self, e):
        return self.pos[id(e)] < self.last


def check(K):
    n = 0
    for f in ('H5', 'h5'):
        c = K.case(W, 'c47.write', args={'format': const(f)},
                   types={'self': 'rf.rfstream.RFStream'},
                   mode='[format=%s]' % f)
        got = indices(Side(c.code))
        c.cover('index', got, indices(Side(c.spec)), normal=True)
        n += len(got)
        K.oblige('no entry is changed %s' % f)
        for e in c.code.res.events:
            if e.kind in ('store', 'setitem', 'delete', 'setdefault') and \
                    isinstance(e.recv, Term) and e.recv.op == 'fld' and \
                    e.recv.args[1] == 'stats' and e.name != 'station' and \
                    c.A.feasible(e.pc):
                K.violation('entries', e, 'the entry %s of a trace is '
                            'changed for HDF5' % (e.name,))
    K.floor('indices set', n, 2)
