"""
Value-dependence analysis of deconv_multitaper: the loops over windows and
tapers are summarised (initial values and one generic step) and every result
is compared, as a normal form over the Fourier transforms of tapered windows,
with a reference which estimates one response at a time.
"""
from sa.terms import T, const

from rules.c14 import arrays


def check(K):
    n = 0
    for k in (1, 2):
        for tapers in (const(1), const(2), const(3), T('sym', 'K')):
            a = {'rsp': arrays(k), 'nse': arrays(k, 'nse'), 'K': tapers}
            K.case('spec.c43.multitaper', 'c43.multitaper_ref', args=a,
                   types={'K': 'int'}, mode='[%d, %s tapers]' % (
                       k, tapers.args[0])).ret('estimates')
            n += 1
    K.floor('results compared', n, 8)
