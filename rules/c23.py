"""
Value-dependence analysis of harmonics() on streams with a known number of
records, of samples and order of events, symbolic in data, azimuths, direction
and weights: matrix and right-hand side of every fit, order, labels and
remaining metadata of the harmonics and the transforms before and after the
fit, compared role by role with the documented decomposition. Both design
matrices for symbolic azimuths.
"""
from sa.terms import T, const
from rules.c20 import syms

NPTS = 2


def rows(order):
    out = []
    for i, (c, time) in enumerate(order):
        out.append(T('tuple', const('BH' + c), const(time),
                     T('sym', 'baz%d' % time),
                     syms('d%d_' % i, NPTS)))
    return T('tuple', *out)


ORDERS = {
    'R': [('R', 1), ('R', 2)], 'R2': [('R', 2), ('R', 1), ('R', 3)],
    'RT': [('R', 1), ('T', 1), ('R', 2), ('T', 2)],
    'RT2': [('R', 2), ('T', 1), ('T', 2), ('R', 1)],
    'RTL': [('L', 1), ('R', 2), ('T', 2), ('L', 2), ('R', 1), ('T', 1)],
    'QT': [('T', 2), ('Q', 1), ('Q', 2), ('T', 1)],
    'Q': [('T', 1), ('Q', 1), ('T', 2), ('Q', 2)],
}


def check(K):
    n = 0

    def case(fn, label, order, **args):
        c = K.case('spec.c23.' + fn, 'c23.%s_ref' % fn, args=dict(
            args, traces=syms('tr', len(order)), rows=rows(order)),
            symtypes={'tr%d' % i: 'rf.rfstream.RFTrace'
                      for i in range(len(order))},
            shapes=True, mode='[%s]' % label)
        c.ret('harmonics (%s)' % label)
        return 1

    for method in ('time', 'freq'):
        for comp, orders in (('R', ('R', 'R2', 'RTL')), ('T', ('RT', 'RTL')),
                             ('Q', ('Q',)), ('RT', ('RT', 'RT2', 'RTL')),
                             ('QT', ('QT',))):
            for o in orders:
                n += case('decompose', '%s of %s, %s' % (comp, o, method),
                          ORDERS[o], components=const(comp),
                          method=const(method))
    for o in ('RT', 'RT2'):
        n += case('scaled', 'weights, %s' % o, ORDERS[o],
                  components=const('RT'), method=const('time'))
    n += case('default', 'default', ORDERS['R2'])
    for fn in ('one', 'one_default', 'two', 'two_default'):
        K.case('spec.c23.' + fn, 'c23.%s_ref' % fn,
               args={'baz': syms('baz', 3), 'scalars': syms('w', 2)},
               shapes=True).ret('design matrix')
        n += 1
    K.floor('decompositions', n, 20)
