"""
Value-dependence analysis of deconv_time: matrix and vector handed to the
solver and the results, for one and two responses, a single array, any shift,
every solver, all parameters given and all defaults,
are compared as normal forms with those of the documented normal equations.
"""
from sa.terms import T, const, show

from rules.c14 import arrays

TYPES = {'r': 'numpy.ndarray', 'src': 'numpy.ndarray', 'shift': 'int'}


def check(K):
    n = 0
    for k in (1, 2):
        for solver in (T('sym', 'solver'), const('scipy'),
                       const('toeplitz')):
            c = K.case('spec.c42.time', 'c42.time_ref', types=TYPES,
                       args={'rsp': arrays(k), 'solver': solver},
                       mode='[%d, %s]' % (k, show(solver)))
            c.ret('solutions')
            n += 1
        K.case('spec.c42.time_default', 'c42.time_default_ref',
               types=TYPES, args={'rsp': arrays(k)},
               mode='[%d, defaults]' % k).ret('solutions')
        n += 1
    K.case('spec.c42.time_single', 'c42.time_single_ref', types=TYPES,
           mode='[single]').ret('solution')
    K.floor('results compared', n + 1, 9)
