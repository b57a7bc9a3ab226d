"""
C04: files written and read by the batch tool.
"""
import os

from rf import RFStream, read_rf
from rf import batch
from rf.util import iter_event_metadata

SEED = '{network}.{station}.{location}'
TIME = '{event_time.datetime:%Y-%m-%dT%H:%M:%S}'
EVENT = {'Q': os.path.join('{root}', SEED, SEED + '_' + TIME + '.QHD'),
         'SAC': os.path.join('{root}', SEED,
                             SEED + '.{channel}_' + TIME + '.SAC'),
         'H5': '{root}.h5'}
STACK = {'Q': os.path.join('{root}', SEED + '.QHD'),
         'SAC': os.path.join('{root}', SEED + '.{channel}.SAC'),
         'H5': '{root}.h5'}
PROFILE = {'Q': '{root}.QHD',
           'SAC': os.path.join('{root}',
                               'profile_{channel[2]}_{box_pos}.SAC'),
           'H5': '{root}.h5'}


def write(stream, root, format):
    batch.write(stream, root, format)


def write_ref(stream, root, format):
    put(stream, root, format, EVENT)


def write_type(stream, root, format, type):
    batch.write(stream, root, format, type)


def write_type_ref(stream, root, format, type):
    put(stream, root, format, STACK if type == 'stack' else
        PROFILE if type == 'profile' else EVENT)


def put(stream, root, format, patterns):
    if len(stream) == 0:
        return
    format = format.upper()
    name = patterns[format].format(root=root, **stream[0].stats)
    head = os.path.dirname(name)
    if head != '' and not os.path.isdir(head):
        os.makedirs(head)
    if format == 'H5':
        stream.write(name, 'H5', mode='a', ignore=('mseed',))
    elif format == 'Q':
        stream.write(name, 'Q')
    else:
        for tr in stream:
            tr.write(patterns[format].format(root=root, **tr.stats), 'SAC')


def read(events, inventory, root, format, yield_traces):
    for x in batch.iter_event_processed_data(events, inventory, root, format,
                                             yield_traces):
        yield x


def read_ref(events, inventory, root, format, yield_traces):
    for meta in iter_event_metadata(events, inventory):
        meta['channel'] = '???'
        if format == 'H5':
            del meta['channel']
            args = {'readonly': meta}
            name = root + '.h5'
        else:
            args = {}
            name = EVENT[format].split('{event_time')[0].format(
                root=root, **meta)
            if 'event_time' in meta:
                name = name + '{:%Y-%m-%dT%H:%M:%S}'.format(
                    meta['event_time'].datetime)
            else:
                name = name + '*'
            name = name + '.' + {'Q': 'QHD', 'SAC': 'SAC'}[format]
        try:
            stream = read_rf(name, format, **args)
        except Exception:
            continue
        if yield_traces:
            for tr in stream:
                yield tr
        else:
            yield stream


def profile(path_in, path_out, format):
    batch.run_commands('plot-profile', events='events.xml',
                       inventory='inventory.xml', path_in=path_in,
                       path_out=path_out, format=format)


def profile_ref(path_in, path_out, format):
    if format == 'SAC':
        name = os.path.join(path_in, 'profile_?_*.SAC')
    elif format == 'Q':
        name = path_in + '.QHD'
    else:
        name = path_in + '.h5'
    read_rf(name)
