"""Reference for C08 and C09: processing of RFStream.rf."""
from rf.rfstream import RFStream
from rf.util import IterMultipleComponents


def process(self, method, filter, trim, downsample, rotate, deconvolve,
            source_components, **kwargs):
    if method is None:
        method = self.method
    if method != 'P' and method != 'S':
        raise ValueError('method must be P or S')
    if source_components is None:
        if method == 'P':
            source_components = 'LZ'
        else:
            source_components = 'QR'
    if filter:
        self.filter(**filter)
    if trim:
        self.trim2(trim[0], trim[1], reftime='onset')
    if downsample:
        for tr in self:
            rate = tr.stats.sampling_rate
            if rate >= downsample:
                tr.decimate(int(rate // downsample))
    if rotate:
        for group in IterMultipleComponents(self, key='onset',
                                            number_components=(2, 3)):
            group.rotate(rotate)
    for tr in self:
        if tr.stats.channel[-1:] == 'Q':
            tr.data = -tr.data
    if deconvolve:
        if 'winsrc' not in kwargs:
            kwargs['winsrc'] = method
        for group in IterMultipleComponents(self, key='onset',
                                            number_components=(2, 3)):
            group.deconvolve(method=deconvolve,
                             source_components=source_components, **kwargs)
    if method == 'S':
        for tr in self:
            tr.data = tr.data[::-1]
            # the sample at the onset is as far from the end as it was
            # from the start
            shift = tr.stats.onset - tr.stats.starttime
            tr.stats.onset = tr.stats.endtime - shift
    for tr in self:
        tr.stats.type = 'rf'
    if self.method != method:
        for tr in self:
            tr.stats.phase = method
    return self


def drive_defaults(self):
    return self.rf()


def defaults(self):
    return process(self, None, None, None, None, 'ZNE->LQT', 'time', None)


def drive_given(self, method, filter, start, end, downsample, rotate,
                deconvolve, source_components, **kwargs):
    return self.rf(method=method, filter=filter, trim=(start, end),
                   downsample=downsample, rotate=rotate,
                   deconvolve=deconvolve,
                   source_components=source_components, **kwargs)


def given(self, method, filter, start, end, downsample, rotate, deconvolve,
          source_components, **kwargs):
    return process(self, method, filter, (start, end), downsample, rotate,
                   deconvolve, source_components, **kwargs)


def drive_untrimmed(self, method, filter, downsample, rotate, deconvolve,
                    source_components, **kwargs):
    return self.rf(method, filter, downsample=downsample, rotate=rotate,
                   deconvolve=deconvolve,
                   source_components=source_components, **kwargs)


def untrimmed(self, method, filter, downsample, rotate, deconvolve,
              source_components, **kwargs):
    return process(self, method, filter, None, downsample, rotate,
                   deconvolve, source_components, **kwargs)
