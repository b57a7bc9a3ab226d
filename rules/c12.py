"""
Value-dependence analysis of deconvolve(): for every method name and every
kind of window the routine which is called, its sampling rate, shift and
further options, and the window and taper of the source are compared with the
documented ones.
"""
from sa.compare import Item
from sa.terms import T, const

DECONV = tuple('rf.deconvolve.deconv_' + n for n in (
    'time', 'waterlevel', 'iterative', 'multitaper'))
STREAM = {'stream': 'rf.rfstream.RFStream'}
METHODS = ('time', 'freq', 'waterlevel', 'iterative', 'multitaper', 'func')
WINDOW = T('tuple', *[T('sym', n) for n in ('start', 'end', 'taper')])


def cases(K, methods=METHODS, windows=('P', 'S', WINDOW)):
    for m in methods:
        for w in windows:
            for r in (None, 'given'):
                a = dict(method=const(m),
                         winsrc=w if w is WINDOW else const(w))
                ty = dict(STREAM)
                if r is None:
                    a['response_components'] = const(None)
                else:
                    ty['response_components'] = 'str'
                yield K.case('rf.deconvolve.deconvolve', 'c12.reference',
                             args=a, types=ty, opaque=DECONV,
                             mode='[%s, %s, responses %s]' % (
                                 m, 'window' if w is WINDOW else w, r)), m


def routine(side, keys=None, but=()):
    """calls of the routines, with some of the arguments"""
    out = []
    for it in side.calls(('*.deconv_*',)):
        names = it.shape[:-1]
        kw = dict(zip(names, it.vals[-len(names):] if names else ()))
        kw = {k: v for k, v in kw.items() if k not in but and
              (keys is None or k in keys)}
        out.append(Item(it.key, tuple(kw[k] for k in sorted(kw)),
                        tuple(sorted(kw)), it.pc, it.loops, it.ev))
    return out


DATA = ('rsp', 'rsp_list', 'src', 'nse')


def check(K):
    n = 0
    for c, m in cases(K):
        n += 1
        c.cover('routine', *[routine(x, but=DATA + ('normalize',))
                             for x in (c.code, c.spec)], normal=True)
        c.calls('window', '.trim', '.taper', normal=True)
        if m == 'func':
            c.calls('custom function', 'func', normal=True)
            c.ret('custom function')
    K.floor('combinations', n, 36)
