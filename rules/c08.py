"""
Value-dependence and ordering analysis of RFStream.rf for method P, method S
and a method taken from the phase, with all other options symbolic: the calls
of the processing steps with their arguments, conditions and loops are
compared with the documented processing; in addition no event of an earlier
step may follow an event of a later step on a common path, and nothing
happens to the stream before the method was accepted.
"""
OPAQUE = ('rf.util.IterMultipleComponents', 'rf.rfstream.RFStream.trim2')
STREAM = {'self': 'rf.rfstream.RFStream'}


def modes():
    for m in ('P', 'S', None):
        yield ('spec.c08.drive_given', 'c08.given', {'method': m},
               '[method %s]' % m)
        yield ('spec.c08.drive_untrimmed', 'c08.untrimmed', {'method': m},
               '[method %s, no trim]' % m)
    yield 'spec.c08.drive_given', 'c08.given', {}, '[any method]'
    yield 'spec.c08.drive_defaults', 'c08.defaults', {}, '[defaults]'


STAGES = ('filter', 'trim', 'downsample', 'rotate', 'negate', 'deconvolve',
          'mirror')


def stage(e):
    """processing step an event belongs to"""
    if e.kind == 'call':
        n = str(e.name)
        for s, names in (('filter', ('.filter',)),
                         ('trim', ('.trim', '.trim2',
                                   'rf.rfstream.RFStream.trim2')),
                         ('downsample', ('.decimate', '.resample')),
                         ('rotate', ('.rotate',)),
                         ('deconvolve', ('.deconvolve',
                                         'rf.deconvolve.deconvolve'))):
            if n in names:
                return s
    return None


def check(K):
    for q, spec, args, mode in modes():
        c = K.case(q, spec, args=args, types=STREAM, opaque=OPAQUE,
                   mode=mode)
        some = 'no trim' not in mode and 'defaults' not in mode
        if 'defaults' not in mode:
            c.calls('filter', '.filter')
            c.calls('downsample', '.decimate')
        if some:
            c.calls('trim', '*.trim2')
        c.calls('rotate', '.rotate')
        c.calls('deconvolve', '.deconvolve', 'rf.deconvolve.deconvolve')
        if mode == '[any method]' or 'None' in mode or 'def' in mode:
            c.raises('method is P or S', classes=('ValueError',))
        order(K, c, mode)


def order(K, c, mode):
    A, bd = c.A, c.A.bdd
    evs = []
    for e in c.code.res.events:
        s = stage(e)
        if s:
            evs.append((STAGES.index(s), e))
    for i, (s, e) in enumerate(evs):
        for t, f in evs[i + 1:]:
            if t < s and A.feasible(bd.and_(e.pc, f.pc)):
                K.violation('order of steps', f, '%s is called after %s' % (
                    STAGES[t], STAGES[s]))
                return
        K.oblige('order of %s in %s' % (STAGES[s], mode))
    first = None
    for e in c.code.res.events:
        if first is None and (stage(e) or e.kind in ('store', 'inplace') and
                              e.name == 'data'):
            first = e
        if e.kind == 'raise' and e.name == 'ValueError' and \
                first is not None and not e.loops:
            K.violation('method is checked first', e, 'the stream is '
                        'changed at %s before the method is rejected' %
                        first.where)
            return
