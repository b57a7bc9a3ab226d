"""
C24: streams of all combinations of events and stations.
"""
from importlib import import_module

import numpy as np
import obspy
from rf import RFStream
from rf.batch import init_data, load_func
from rf.rfstream import rfstats
from rf.util import iter_event_data


def records(events, inventory, get_waveforms, phase, request_window, pad,
            pbar, options):
    for stream in iter_event_data(events, inventory, get_waveforms, phase,
                                  request_window, pad, pbar, **options):
        yield stream


def default(events, inventory, get_waveforms):
    for stream in iter_event_data(events, inventory, get_waveforms):
        yield stream


def default_ref(events, inventory, get_waveforms):
    for stream in records_ref(events, inventory, get_waveforms, 'P', None,
                              10, None, {}):
        yield stream


def headers(events, inventory, get_waveforms):
    for stream in iter_event_data(events, inventory, get_waveforms,
                                  request_window=(-10, 20)):
        yield [tr.stats.onset for tr in stream]


def headers_ref(events, inventory, get_waveforms):
    for stream in records_ref(events, inventory, get_waveforms, 'P',
                              (-10, 20), 10, None, {}):
        yield [tr.stats.onset for tr in stream]


def ids(inventory):
    """last channel of each station and band"""
    out = {}
    for channel in inventory.get_contents()['channels']:
        out[channel[:-1]] = channel
    return out.values()


def records_ref(events, inventory, get_waveforms, phase, request_window, pad,
                pbar, options):
    if request_window is None:
        if phase[-1] in 'pP':
            request_window = (-50, 150)
        else:
            request_window = (-100, 50)
    for event in events:
        for seedid in ids(inventory):
            try:
                origin = event.preferred_origin() or event.origins[0]
                coords = inventory.get_coordinates(seedid, origin['time'])
            except Exception:
                continue
            try:
                stats = rfstats(event=event, station=coords, phase=phase,
                                **options)
            except Exception:
                continue
            if not stats:
                continue
            net, sta, loc, cha = seedid.split('.')
            start = stats.onset + request_window[0]
            end = stats.onset + request_window[1]
            try:
                stream = get_waveforms(network=net, station=sta, location=loc,
                                       channel=cha[:2] + '?',
                                       starttime=start - pad,
                                       endtime=end + pad)
            except Exception:
                continue
            if stream is None:
                continue
            stream.trim(start, end)
            stream.merge()
            if len(stream) != 3:
                continue
            if any(isinstance(tr.data, np.ma.masked_array) for tr in stream):
                continue
            for tr in stream:
                tr.stats.update(stats)
            yield RFStream(stream)


def source(data, client_options, plugin, network, station, location, channel,
           starttime, endtime):
    get = init_data(data, client_options, plugin)
    return get(network=network, station=station, location=location,
               channel=channel, starttime=starttime, endtime=endtime)


def source_ref(data, client_options, plugin, network, station, location,
               channel, starttime, endtime):
    try:
        module = import_module('obspy.clients.%s' % data)
    except ImportError:
        module = None
    options = {} if client_options is None else client_options
    if module:
        client = module.Client(**options)
    elif data == 'plugin':
        name, func = plugin.split(':')
        func = load_func(name.strip(), func.strip())
    else:
        stream = obspy.read(data)
    try:
        if module:
            return client.get_waveforms(
                network=network, station=station, location=location,
                channel=channel, starttime=starttime, endtime=endtime)
        elif data == 'plugin':
            return func(network=network, station=station, location=location,
                        channel=channel, starttime=starttime,
                        endtime=endtime)
        st = stream.select(network=network, station=station,
                           location=location, channel=channel)
        return st.slice(starttime, endtime)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as ex:
        print('channel %s: error while retrieving data: %s' %
              ('.'.join((network, station, location, channel)), ex))
    return None
