"""Reference for C11: rejected input of deconvolution and harmonics."""


def deconvolve(stream, method='time', func=None, source_components='LZ',
               response_components=None, winsrc='P', **kwargs):
    if method not in ('time', 'freq', 'waterlevel', 'iterative', 'multitaper',
                      'func'):
        raise NotImplementedError
    n = 0
    for tr in stream:
        if tr.stats.channel[-1] in source_components:
            n += 1
    if n != 1:
        raise ValueError
    m = 0
    for tr in stream:
        if response_components is None or \
                tr.stats.channel[-1] in response_components:
            m += 1
    if m < 1 or m > 3:
        raise ValueError


def harmonics(stream, components='R', azim=0, method='time', **kwargs):
    if components not in ('R', 'RT', 'Q', 'QT', 'T'):
        raise NotImplementedError
    if method != 'time' and method != 'freq':
        raise NotImplementedError
    for c in components:
        if len(stream.select(channel='*%s' % c)) == 0:
            raise ValueError
