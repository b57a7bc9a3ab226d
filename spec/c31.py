"""Reference for C31: times relative to a reference time."""
from collections.abc import Iterable
from obspy import UTCDateTime


def absolute(tr, seconds, reftime):
    if isinstance(seconds, UTCDateTime) or seconds is None or \
            reftime is None:
        return seconds
    if isinstance(reftime, UTCDateTime):
        return reftime + seconds
    return tr.stats[reftime] + seconds


def drive_time(tr, seconds, reftime):
    if not isinstance(seconds, Iterable):
        return tr._seconds2utc(seconds, reftime=reftime)


def time(tr, seconds, reftime):
    if not isinstance(seconds, Iterable):
        return absolute(tr, seconds, reftime)


def drive_times(tr, a, b, reftime):
    if not isinstance(a, Iterable) and not isinstance(b, Iterable):
        return tr._seconds2utc((a, b), reftime=reftime)


def times(tr, a, b, reftime):
    if not isinstance(a, Iterable) and not isinstance(b, Iterable):
        return [absolute(tr, a, reftime), absolute(tr, b, reftime)]


def plain(*times):
    return not any(isinstance(t, Iterable) for t in times)


def drive_trim(stream, starttime, endtime, reftime, **kwargs):
    if plain(starttime, endtime):
        return stream.trim2(starttime, endtime, reftime=reftime, **kwargs)


def trim(stream, starttime, endtime, reftime, **kwargs):
    if plain(starttime, endtime):
        return trimmed(stream, starttime, endtime, reftime, **kwargs)


def trimmed(self, starttime, endtime, reftime, **kwargs):
    for tr in self.traces:
        tr.trim(absolute(tr, starttime, reftime),
                absolute(tr, endtime, reftime), **kwargs)
    kept = []
    for tr in self.traces:
        if tr.stats.npts:
            kept.append(tr)
    self.traces = kept
    return self


def drive_slice(stream, starttime, endtime, reftime, keep_empty_traces,
          **kwargs):
    if plain(starttime, endtime):
        return stream.slice2(starttime, endtime, reftime=reftime,
                             keep_empty_traces=keep_empty_traces, **kwargs)


def slice(stream, starttime, endtime, reftime, keep_empty_traces,
          **kwargs):
    if plain(starttime, endtime):
        return sliced(stream, starttime, endtime, reftime, keep_empty_traces,
                      **kwargs)


def sliced(self, starttime, endtime, reftime, keep_empty_traces, **kwargs):
    kept = []
    for tr in self:
        part = tr.slice(absolute(tr, starttime, reftime),
                        absolute(tr, endtime, reftime), **kwargs)
        if keep_empty_traces or part.stats.npts:
            kept.append(part)
    return self.__class__(kept)


def drive_defaults(stream, starttime):
    if plain(starttime):
        return stream.trim2(starttime), stream.slice2(starttime)


def defaults(stream, starttime):
    if plain(starttime):
        return (trimmed(stream, starttime, None, None),
                sliced(stream, starttime, None, None, False))
