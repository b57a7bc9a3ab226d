"""
C35: bounds of the iterative deconvolution.

The loop of deconv_iterative is summarised (initial values, one generic step,
condition of a further step) for one and two responses with symbolic data.
The spike trains, the iteration counts and the misfits returned have to be
those of a reference loop: at most itmax steps, no step after the improvement
falls below minderr, and the count equal to the number of steps made for this
response.
"""
from rules.c14 import arrays


def check(K):
    for k in (1, 2):
        K.case('spec.c35.iterate', 'c35.iterate_ref',
               args={'rsp': arrays(k)}).ret(
                   'spike trains, counts and misfits of %d' % k)
