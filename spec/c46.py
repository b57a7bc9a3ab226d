"""C46: entries which hold for the whole stream."""
import warnings

from obspy import Trace

from rf.rfstream import RFTrace


def kind(stream):
    return stream.type


def kind_ref(stream):
    return common(stream, 'type')


def common(stream, name):
    found = {tr.stats[name] for tr in stream if name in tr.stats}
    if len(found) > 1:
        warnings.warn('different values in stream')
    elif len(found) == 1:
        return found.pop()


def method(stream):
    return stream.method


def method_ref(stream):
    phase = common(stream, 'phase')
    if phase is not None:
        return phase[-1].upper()


def set_kind(stream, value):
    stream.type = value


def set_kind_ref(stream, value):
    for tr in stream:
        tr.stats.type = value


def set_method(stream, value):
    stream.method = value


def set_method_ref(stream, value):
    for tr in stream:
        tr.stats.phase = value


def init_ref(self, traces=None):
    out = []
    if isinstance(traces, Trace):
        traces = [traces]
    if traces:
        for tr in traces:
            out.append(tr if isinstance(tr, RFTrace) else RFTrace(trace=tr))
    self.traces = out
