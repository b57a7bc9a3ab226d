"""
Value-dependence analysis of SimpleModel.moveout and stretch_delay_times: the
delay times of a new model for both slownesses, where they are cut and how
they continue before the onset, and the samples written into every trace, are
compared as normal forms over interpolations with those of the documented
mapping of times.
"""
from sa.compare import Item
from sa.terms import T, Term, const

from rules.c15 import STREAM

P = 'rf.simple_model.SimpleModel.'


def check(K):
    n = 0
    for ph in ('Ps', 'Sp', 'ppss', 'SSpp', None):
        c = K.case('spec.c44.stretch', 'c44.stretch_ref',
                   args={'phase': const(ph)} if ph else {},
                   types={'phase': 'str'}, mode='[%s]' % (ph or 'any phase'))
        c.ret('delay times')
        n += 1
    for ph in ('Ps', 'Sp', 'Ppss', 'Sspp', 'SSPP', None):
        c = K.case('spec.c44.correct', 'c44.correct_ref',
                   args={'phase': const(ph)} if ph else {},
                   types=dict(STREAM, phase='str'),
                   opaque=(P + 'stretch_delay_times',),
                   mode='[%s]' % (ph or 'any phase'))
        c.calls('delay times used', '*.stretch_delay_times', normal=True)
        c.cover('samples', samples(c.code), samples(c.spec), dup=False,
                normal=True)
        n += 1
    K.floor('cases', n, 11)


def samples(side):
    """samples written, and what is written there"""
    N = side.N
    out = []
    for e in side.res.events:
        if e.exceptional or not isinstance(e.recv, Term) or \
                e.recv.op == 'ref':
            continue
        if e.kind in ('setitem', 'inplace') and e.name is not None:
            k = ('samples',)
            vals = (N(e.recv), N(e.name), N(e.sv or e.value))
        elif e.kind == 'store' and e.name == 'data':
            k, vals = ('data',), (N(e.recv), N(e.sv or e.value))
        else:
            continue
        out.append(Item(k, vals, (), N.node(e.pc), side.fl(e), e))
    return out
