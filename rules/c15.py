"""
Value-dependence and ordering analysis of RFStream.moveout together with
SimpleModel.moveout: for a given phase, the default phase and all defaults,
the slowness, phase and reference used for stretching the times of every
trace, the condition of the error about the onset, the samples overwritten in
every trace and the final metadata are compared with the documented ones. No
metadata may be recorded, and no data of a trace overwritten, before a check
that can still reject the trace.
"""
from sa.compare import Item
from sa.terms import Term

STREAM = {'stream': 'rf.rfstream.RFStream',
          'model': 'rf.simple_model.SimpleModel'}
OPAQUE = ('rf.simple_model.load_model',
          'rf.simple_model.SimpleModel.stretch_delay_times')
MODEL = {'rf.simple_model.load_model': 'rf.simple_model.SimpleModel'}
BOOK = ('moveout', 'slowness_before_moveout', 'slowness')


def check(K):
    for f, ref, args, mode in (
            ('given', 'given', {'phase': 'Ppss'}, '[phase given]'),
            ('kw', 'given', {'phase': 'Sp'}, '[keywords]'),
            ('given', 'given', {}, '[any phase]'),
            ('method', 'method', {'method': 'P'}, '[phase for P]'),
            ('method', 'method', {'method': 'S'}, '[phase for S]'),
            ('defaults', 'defaults', {'method': 'P'}, '[defaults, P]'),
            ('defaults', 'defaults', {'method': 'S'}, '[defaults, S]'),
            ('model', 'model_given', {}, '[model]'),
            ('model_defaults', 'model_defaults', {}, '[model, defaults]')):
        book = 'model' not in mode
        c = K.case('spec.c15.drive_' + f, 'c15.' + ref, args=args,
                   types=STREAM if not book else
                   {'stream': 'rf.rfstream.RFStream', 'phase': 'str'},
                   opaque=OPAQUE, atypes=MODEL, mode=mode)
        c.calls('stretched times', '*.stretch_delay_times', normal=True)
        c.raises('onset inside of data', classes=('ValueError',))
        c.cover('samples', regions(c.code), regions(c.spec), dup=False,
                normal=True)
        if book:
            c.calls('model', '*.load_model', normal=True)
            c.fields('book-keeping', lambda b, n: n in BOOK)
        order(K, c, mode)


def regions(side):
    """parts of the data which are overwritten"""
    N = side.N
    out = []
    for e in side.res.events:
        if e.exceptional or not isinstance(e.recv, Term) or \
                e.recv.op == 'ref':
            continue
        if e.kind in ('setitem', 'inplace') and e.name is not None:
            k, vals = ('overwritten samples',), (N(e.recv), N(e.name))
        elif e.kind == 'store' and e.name == 'data':
            k, vals = ('replaced samples',), (N(e.recv), N(e.value))
        else:
            continue
        out.append(Item(k, vals, (), N.node(e.pc), side.fl(e), e))
    return out


def order(K, c, mode):
    """recording or changing comes after everything that can fail"""
    bd = c.bd
    evs = list(c.code.res.events)
    for j, e in enumerate(evs):
        if e.kind == 'raise' and e.name == 'ValueError':
            K.oblige('nothing changes before %s %s' % (e.loc, mode))
            for f in evs[:j]:
                if f.kind in ('setitem', 'store', 'inplace') and \
                        changes(f) and (
                            f.loops == e.loops or f.name in BOOK) and \
                        c.A.feasible(bd.and_(e.pc, f.pc)):
                    K.violation('order', e, 'the trace is changed at %s '
                                'before it can be rejected' % f.where)
                    return


def changes(e):
    return e.kind != 'store' or e.name in BOOK + ('data',)
