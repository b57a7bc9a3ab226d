"""
Value-dependence analysis of the deconvolution routines against themselves:
for one, two and three responses and every choice of the response used for
normalisation, every result is the one which the same routine gives without
normalisation times the inverse of the maximum of the selected result. The
default, single arrays and the source as reference are compared likewise. The
choice of the reference in deconvolve() is compared with the documented one.
"""
from sa.terms import T, const

from rules.c12 import cases, routine


def arrays(n, name='rsp', op='tuple'):
    return T(op, *[T('sym', '%s%d' % (name, i)) for i in range(n)])


def check(K):
    n = 0
    for fn, more in (('time', {}), ('waterlevel', {}), ('iterative', {}),
                     ('multitaper', {})):
        for k in (1, 2, 3):
            args = {'rsp': arrays(k)}
            if fn == 'multitaper':
                args['nse'] = arrays(k, 'nse')
            for i in range(k):
                n += case(K, fn, dict(args, normalize=const(i)),
                          '[%d of %d]' % (i + 1, k))
            n += case(K, fn + '_default', args, '[default of %d]' % k)
        if fn != 'multitaper':
            for i in (None, 0):
                n += case(K, fn + '_single', {'normalize': const(i)},
                          '[single, %s]' % i)
    for k in (1, 2, 3):
        n += case(K, 'waterlevel_src', {'rsp': arrays(k)},
                  '[source, %d]' % k)
        n += case(K, 'waterlevel_info', {'rsp': arrays(k),
                                         'normalize': const(0)},
                  '[info, %d]' % k)
    for c, m in cases(K, windows=('P',)):
        c.cover('reference', *[routine(x, ('normalize',)) for x in (
            c.code, c.spec)], normal=True)
    K.floor('results compared', n, 25)


def case(K, fn, args, mode):
    types = {'r': 'numpy.ndarray', 'src': 'numpy.ndarray'}
    c = K.case('spec.c14.' + fn, 'c14.%s_ref' % fn, args=args, types=types,
               mode=mode)
    c.ret('normalisation')
    return 1
