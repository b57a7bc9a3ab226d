"""
Value-dependence analysis of deconvolve(): for every method, kind of window
and choice of responses the final data, iteration count and onset of every
trace is compared with the documented one, as are the copies which are taken
of the source and of the stream for the noise.
"""
from rules.c12 import cases, routine, DATA


def check(K):
    n = 0
    for c, m in cases(K, windows=('P',)):
        n += 1
        c.fields('results', lambda b, k: k in ('data', 'iterations'))
        c.fields('onset', lambda b, k: k == 'onset')
        c.cover('data and source', *[routine(x, DATA) for x in (
            c.code, c.spec)], normal=True)
        c.calls('window', '.trim', '.taper', normal=True)
        c.ret('result')
    K.floor('combinations', n, 12)
