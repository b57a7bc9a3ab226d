"""
C44: times of the samples, moved from the delay times of the slowness of the
trace to those of the reference slowness.
"""
from math import floor

import numpy as np

from rf.simple_model import SimpleModel


def stretch(z, vp, vs, slowness, phase, ref):
    return SimpleModel(z, vp, vs).stretch_delay_times(slowness, phase, ref)


def stretch_ref(z, vp, vs, slowness, phase, ref):
    if len(phase) % 2 == 1:
        raise ValueError('number of letters has to be even')
    m = SimpleModel(z, vp, vs)
    name = phase.upper()
    new = m.calculate_delay_times(ref, name)
    old = m.calculate_delay_times(slowness, name)
    if name[0] == 'S':
        old, new = -old, -new
    missing = np.nonzero(np.isnan(old))[0]
    try:
        n = missing[0] - 1
    except IndexError:
        n = len(old)
    return before(old[:n]), before(new[:n])


def before(t):
    """the same times with negative sign before the onset"""
    return np.hstack((-t[1:10][::-1], t))


def correct(model, stream, phase, ref):
    return model.moveout(stream, phase=phase, ref=ref)


def correct_ref(model, stream, phase, ref):
    for tr in stream:
        st = tr.stats
        if st.onset < st.starttime or st.onset > st.endtime:
            raise ValueError('onset outside of data')
        pre = st.onset - st.starttime
        i = int(floor(pre * st.sampling_rate))
        old, new = model.stretch_delay_times(st.slowness, phase=phase,
                                             ref=ref)
        n = len(tr)
        if phase[0].upper() == 'S' and len(phase) > 3:
            t = np.arange(i) * st.delta + (i * st.delta - pre)
            moved = np.interp(t, -old, -new, left=0, right=0)
            tr.data[:i] = np.interp(t, moved, tr.data[:i][::-1], left=0,
                                    right=0)[::-1]
        else:
            if old[-1] > new[-1]:
                i = i + 1
            t = np.arange(n - i) * st.delta + (i * st.delta - pre)
            moved = np.interp(t, old, new, left=0, right=None)
            tr.data[i:] = np.interp(t, moved, tr.data[i:], left=None,
                                    right=0)
    return stream
