"""
Value-dependence analysis of load_model and SimpleModel: which file is read
for a name, and from which of its columns depths, velocities and numbers of
supporting points come, with three and with four columns, are compared with
the documented ones, for a model which is not remembered yet.
"""
from sa.terms import T, const


def check(K):
    n = 0
    for f, mode in ((const('iasp91'), 'iasp91'), (T('sym', 'fname'), 'any')):
        c = K.case('spec.c45.layers', 'c45.layers_ref', args={'fname': f},
                   mode='[%s]' % mode)
        c.fresh = True
        c.calls('file', '*.loadtxt')
        c.ret('layers')
        n += 1
    c = K.case('spec.c45.layers_default', 'c45.layers_default_ref')
    c.fresh = True
    c.ret('layers')
    K.floor('cases', n, 2)
