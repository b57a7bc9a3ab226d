"""Reference for C15: moveout correction."""
from math import floor

import numpy as np
from rf.simple_model import load_model


def correct(self, stream, phase='Ps', ref=6.4):
    for tr in stream:
        st = tr.stats
        if st.onset < st.starttime or st.onset > st.endtime:
            raise ValueError('onset outside of data')
        i = int(floor((st.onset - st.starttime) * st.sampling_rate))
        t0, t1 = self.stretch_delay_times(st.slowness, phase=phase, ref=ref)
        if phase[0].upper() == 'S' and len(phase) > 3:
            tr.data[:i] = new_data(tr)
        elif t0[-1] > t1[-1]:
            tr.data[i + 1:] = new_data(tr)
        else:
            tr.data[i:] = new_data(tr)
    return stream


def new_data(tr):
    return np.interp(tr.data, tr.data, tr.data)


def drive_given(stream, phase, ref, model):
    return stream.moveout(phase, ref, model)


def given(stream, phase, ref, model):
    correct(load_model(model), stream, phase, ref)
    for tr in stream:
        old = tr.stats.slowness
        tr.stats.moveout = phase
        tr.stats.slowness = ref
        tr.stats.slowness_before_moveout = old
    return stream


def drive_method(stream, method, ref, model):
    if stream.method == method:
        return stream.moveout(ref=ref, model=model)


def method(stream, method, ref, model):
    if stream.method == method:
        return given(stream, 'Ps' if method == 'P' else 'Sp', ref, model)


def drive_defaults(stream, method):
    if stream.method == method:
        return stream.moveout()


def defaults(stream, method):
    if stream.method == method:
        return given(stream, 'Ps' if method == 'P' else 'Sp', 6.4, 'iasp91')


def drive_kw(stream, phase, ref, model):
    return stream.moveout(model=model, ref=ref, phase=phase)


def drive_model(model, stream, phase, ref):
    return model.moveout(stream, phase, ref)


def drive_model_defaults(model, stream):
    return model.moveout(stream)


def model_given(model, stream, phase, ref):
    return correct(model, stream, phase, ref)


def model_defaults(model, stream):
    return correct(model, stream, 'Ps', 6.4)
