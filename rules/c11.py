"""
Path condition analysis of deconvolve() and harmonics(): for every method, the
unknown ones included, and with and without response components the conditions
of the errors about unsupported input are compared with the documented ones,
and no trace may be changed before the last of these errors can be raised.
"""
from sa.terms import Term, const

from rules.c12 import DECONV, STREAM, METHODS

ERRORS = ('ValueError', 'NotImplementedError')


def check(K):
    n = 0
    for m in METHODS + ('other', None):
        for r in (None, 'given'):
            args, ty = {}, dict(STREAM)
            if m is not None:
                args['method'] = const(m)
            if r is None:
                args['response_components'] = const(None)
            else:
                ty['response_components'] = 'str'
            n += judge(K, 'rf.deconvolve.deconvolve', 'c11.deconvolve', args,
                       ty, DECONV, '[%s, responses %s]' % (m, r))
    for comp in ('R', 'Q', 'T', 'RT', 'QT', 'TR', 'L', '', None):
        for m in ('time', 'freq', 'other', None):
            args = {}
            if comp is None and m not in ('time', 'freq'):
                continue
            if comp is not None:
                args['components'] = const(comp)
            if m is not None:
                args['method'] = const(m)
            n += judge(K, 'rf.harmonics.harmonics', 'c11.harmonics', args,
                       STREAM, ('rf.harmonics.decomp_one',
                                'rf.harmonics.decomp_two'),
                       '[%s, %s]' % (comp, m))
    K.floor('errors', n, 60)


def judge(K, qual, spec, args, types, opaque, mode):
    c = K.case(qual, spec, args=args, types=types, opaque=opaque, mode=mode)
    c.raises('rejected input', classes=ERRORS)
    return order(K, c, mode)


def changes(e):
    if e.kind in ('setitem', 'store', 'inplace', 'delete', 'mutate',
                  'setdefault'):
        b = e.recv
        return isinstance(b, Term) and b.op not in ('ref', 'dict', 'new')
    return e.kind == 'call' and e.name in (
        '.trim', '.taper', '.filter', '.detrend', '.decimate', '.resample',
        '.interpolate', '.normalize', '.rotate', '.trim2', '.sort',
        '.append', '.extend', '.pop', '.remove', '.clear') and \
        isinstance(e.recv, Term) and e.recv.op not in ('ref', 'new')


def order(K, c, mode):
    """nothing changes before an error"""
    bd, n = c.bd, 0
    evs = list(c.code.res.events)
    for j, e in enumerate(evs):
        if e.kind != 'raise' or e.name not in ERRORS:
            continue
        n += 1
        K.oblige('nothing changes before %s %s' % (e.loc, mode))
        for f in evs[:j]:
            if changes(f) and c.A.feasible(bd.and_(e.pc, f.pc)):
                K.violation('order', f, 'the stream is changed before it can '
                            'be rejected at %s' % e.where)
                return n
    return n
