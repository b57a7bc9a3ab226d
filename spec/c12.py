"""Reference for C11, C12, C13 and C14: RFStream.deconvolve."""
import numpy as np

from rf.deconvolve import (deconv_time, deconv_waterlevel, deconv_iterative,
                           deconv_multitaper)
from rf.util import _add_processing_info


def nearest(times, t):
    """index of the time nearest to t"""
    i = np.searchsorted(times, t, side='left')
    if i > 0 and (i == len(times) or
                  np.abs(t - times[i - 1]) < np.abs(t - times[i])):
        return i - 1
    return i


def default_window(name, method, before, after):
    """in seconds relative to the onset"""
    if method == 'iterative':
        return -before, after, 0
    if method == 'waterlevel' and name == 'P':
        return -before, after, 5
    if method == 'waterlevel':
        return -10, after, 5
    return -10, 30, 5


def check_input(stream, method, source_components, response_components):
    if method not in ('time', 'freq', 'waterlevel', 'iterative', 'multitaper',
                      'func'):
        raise NotImplementedError
    src = [tr for tr in stream if tr.stats.channel[-1] in source_components]
    if len(src) != 1:
        raise ValueError
    if response_components is None:
        rsp = [tr for tr in stream]
    else:
        rsp = [tr for tr in stream
               if tr.stats.channel[-1] in response_components]
    if len(rsp) == 0 or len(rsp) >= 4:
        raise ValueError
    return src[0], rsp


@_add_processing_info
def reference(stream, method='time', func=None, source_components='LZ',
              response_components=None, winsrc='P', **kwargs):
    src, rsp = check_input(stream, method, source_components,
                           response_components)
    if method == 'freq':
        method = 'waterlevel'
    if 'normalize' not in kwargs and src in rsp:
        kwargs['normalize'] = rsp.index(src)
    start = src.stats.starttime
    rate = src.stats.sampling_rate
    duration = src.stats.endtime - start
    onset = start + nearest(src.times(), src.stats.onset - start) * \
        src.stats.delta
    src.stats.onset = onset
    for tr in rsp:
        tr.stats.onset = onset
    before = onset - start
    if winsrc == 'P' or winsrc == 'S':
        winsrc = default_window(winsrc, method, before, duration - before)
    if src in rsp:
        src = src.copy()
    src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0.)
    src.taper(max_percentage=None, max_length=winsrc[2])
    tshift = -winsrc[0]
    if method == 'func':
        return stream.__class__(func(stream.__class__(rsp), src,
                                     tshift=tshift, **kwargs))
    if method == 'multitaper':
        noise = kwargs.pop('noise', None)
        if noise is None:
            noise = stream.copy()
            noise = noise.trim2(
                -(rsp[0].stats.onset - rsp[0].stats.starttime), -5, 'onset')
        noise = [tr.data for tr in noise if response_components is None or
                 tr.stats.channel[-1] in response_components]
    data = [tr.data for tr in rsp]
    if method == 'time':
        result = deconv_time(data, src.data,
                             int(round(tshift * rate - len(src) // 2)),
                             **kwargs)
    elif method == 'waterlevel':
        result = deconv_waterlevel(data, src.data, rate, tshift=tshift,
                                   **kwargs)
    elif method == 'iterative':
        result, count, _ = deconv_iterative(data, src.data, rate,
                                            tshift=tshift, **kwargs)
    else:
        result = deconv_multitaper(data, src.data, noise, rate, -tshift,
                                   **kwargs)
    for i, tr in enumerate(rsp):
        tr.data = result[i].real
        if method == 'iterative':
            tr.stats['iterations'] = count[i]
    return stream.__class__(rsp)
