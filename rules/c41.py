"""
Value-dependence analysis of deconv_waterlevel: every result is an algebraic
normal form over the Fourier transforms of response and source, the water
level, the Gauss parameter, the time shift and the lengths, compared with the
normal form of the documented quotient; for one and two responses, a single
array, all parameters given and all defaults.
"""
from sa.terms import const

from rules.c14 import arrays


def check(K):
    n = 0
    for k in (1, 2):
        for gauss in ((), (None,)):
            a = {'rsp': arrays(k)}
            if gauss:
                a['gauss'] = const(None)
            K.case('spec.c41.waterlevel', 'c41.waterlevel_ref', args=a,
                   mode='[%d%s]' % (k, ', no filter' if gauss else '')
                   ).ret('quotients')
            n += 1
        K.case('spec.c41.waterlevel_default', 'c41.waterlevel_default_ref',
               args={'rsp': arrays(k)}, mode='[%d, defaults]' % k
               ).ret('quotients')
        n += 1
    K.case('spec.c41.waterlevel_single', 'c41.waterlevel_single_ref',
           types={'r': 'numpy.ndarray', 'src': 'numpy.ndarray'},
           mode='[single]').ret('quotient')
    K.floor('results compared', n + 1, 7)
