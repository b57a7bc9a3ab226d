"""
Value-dependence and effect analysis of the attributes type and method of a
stream and of its constructor: the entries of all traces which they are read
from, the warning about different values, the entries of all traces which are
set, and the traces of a new stream, are compared with the documented ones.
"""
from sa.compare import Item

STREAM = 'rf.rfstream.RFStream'


def check(K):
    n = 0
    for f in ('kind', 'method'):
        c = K.case('spec.c46.' + f, 'c46.%s_ref' % f)
        c.ret(f)
        c.cover('warning', warned(c.code), warned(c.spec))
        c = K.case('spec.c46.set_' + f, 'c46.set_%s_ref' % f)
        c.fields('entries', lambda b, n: b.op == 'fld' and
                 b.args[1] == 'stats')
        n += 2
    for mode, ty in (('any', {}), ('stream', {'traces': STREAM}),
                     ('trace', {'traces': 'rf.rfstream.RFTrace'}),
                     ('ObsPy trace', {'traces': 'obspy.Trace'})):
        c = K.case(STREAM + '.__init__', 'c46.init_ref', types=ty,
                   opaque=('rf.rfstream.RFTrace.__init__',
                           'rf.rfstream.RFTrace'), mode='[%s]' % mode)
        c.fields('traces', lambda b, n: n == 'traces')
        n += 1
    K.floor('cases', n, 8)


def warned(side):
    """that there is a warning, not its text"""
    return [Item(it.key, (), (), it.pc, it.loops, it.ev)
            for it in side.calls(('warnings.warn',))]
