"""
C25, C26: what each command of the batch tool does.
"""
import json
import os

import numpy as np
import obspy
from rf import RFStream, read_rf
from rf import batch
from rf.batch import (init_data, iter_event_processed_data,
                      run_commands, write)
from rf.profile import get_profile_boxes, profile
from rf.util import iter_event_data

GROUPS = ('client_options', 'options', 'rf', 'moveout', 'boxbins', 'boxes',
          'profile', 'plot', 'plot_profile')


def run(command, commands, events, inventory, objects, get_waveforms, data,
        plugin, phase, moveout_phase, path_in, path_out, format, newformat,
        client_options, options, rf, moveout, boxbins, boxes, profile, plot,
        plot_profile):
    return run_commands(
        command, commands=commands, events=events, inventory=inventory,
        objects=objects, get_waveforms=get_waveforms, data=data,
        plugin=plugin, phase=phase, moveout_phase=moveout_phase,
        path_in=path_in, path_out=path_out, format=format,
        newformat=newformat, client_options=client_options, options=options,
        rf=rf, moveout=moveout, boxbins=boxbins, boxes=boxes,
        profile=profile, plot=plot, plot_profile=plot_profile)


def run_ref(command, commands, events, inventory, objects, get_waveforms,
            data, plugin, phase, moveout_phase, path_in, path_out, format,
            newformat, client_options, options, rf, moveout, boxbins, boxes,
            profile, plot, plot_profile):
    return action(command, commands, events, inventory, objects,
                  get_waveforms, data, plugin, phase, moveout_phase, path_in,
                  path_out, format, newformat, dict(
                      client_options=client_options, options=options, rf=rf,
                      moveout=moveout, boxbins=boxbins, boxes=boxes,
                      profile=profile, plot=plot, plot_profile=plot_profile))


def bare(command, commands, events, inventory, objects, get_waveforms,
         path_in, path_out):
    return run_commands(command, commands=commands, events=events,
                        inventory=inventory, objects=objects,
                        get_waveforms=get_waveforms, path_in=path_in,
                        path_out=path_out)


def bare_ref(command, commands, events, inventory, objects, get_waveforms,
             path_in, path_out):
    return action(command, commands, events, inventory, objects,
                  get_waveforms, None, None, None, None, path_in, path_out,
                  'Q', None, {})


def group(options, name):
    value = options.get(name, None if name == 'boxbins' else {})
    if isinstance(value, str):
        value = json.loads(value)
    return value


def tables(command, objects, events, inventory):
    if command in ('stack', 'plot'):
        events = None
    elif command != 'print' or objects[0] == 'events':
        events = table(events, obspy.Catalog, obspy.read_events)
    if command != 'print' or objects[0] == 'stations':
        inventory = table(inventory, obspy.Inventory, obspy.read_inventory)
    return events, inventory


def table(x, kind, read):
    if isinstance(x, str):
        return read(x, None)
    if isinstance(x, kind) or isinstance(x, list) and not isinstance(
            x[0], str):
        return x
    name, format_ = x
    return read(name, format_)


def action(command, commands, events, inventory, objects, get_waveforms,
           data, plugin, phase, moveout_phase, path_in, path_out, format,
           newformat, options):
    opts = {name: group(options, name) for name in GROUPS}
    if phase is not None:
        opts['options']['phase'] = phase
    if moveout_phase is not None:
        opts['moveout']['phase'] = moveout_phase
    if opts['boxbins'] is not None:
        opts['boxes']['bins'] = np.linspace(*opts['boxbins'])
    try:
        events, inventory = tables(command, objects, events, inventory)
    except Exception:
        print('cannot read events or stations')
        return
    if command == 'data' and get_waveforms is None:
        try:
            get_waveforms = init_data(
                data, client_options=opts['client_options'], plugin=plugin)
        except Exception:
            print('cannot initalize data')
            return
    if command == 'print':
        if objects[0] == 'events':
            print(events.__str__(True))
        elif objects[0] == 'stations':
            print(inventory)
        else:
            stream = sum((read_rf(fname) for fname in objects), RFStream())
            print(stream.__str__(True))
        return
    if command == 'data':
        records = iter_event_data(events, inventory, get_waveforms,
                                  pbar=batch.tqdm(), **opts['options'])
    elif command == 'plot-profile':
        name = {'SAC': os.path.join(path_in, 'profile_?_*.SAC'),
                'Q': path_in + '.QHD', 'H5': path_in + '.h5'}[format]
        records = [read_rf(name)]
    else:
        records = iter_event_processed_data(
            events, inventory, path_in, format, pbar=batch.tqdm(),
            yield_traces=command == 'profile')
    if command == 'profile':
        prof = profile(records, get_profile_boxes(**opts['boxes']),
                       **opts['profile'])
        write(prof, path_out, format, type='profile')
        return
    for stream in records:
        if command == 'convert':
            write(stream, path_out, newformat)
        elif command == 'stack':
            write(stream.stack(), path_out, format, type='stack')
        elif command in ('plot', 'plot-profile'):
            for channel in set([tr.stats.channel for tr in stream]):
                part = stream.select(channel=channel)
                if command == 'plot':
                    name = '{network}.{station}.{location}.{channel}.pdf'
                else:
                    name = 'profile_{channel[2]}.pdf'
                fname = os.path.join('{root}', name).format(
                    root=path_out, **part[0].stats)
                head = os.path.dirname(fname)
                if head != '' and not os.path.isdir(head):
                    os.makedirs(head)
                if command == 'plot':
                    part.sort(['back_azimuth'])
                    part.plot_rf(fname, **opts['plot'])
                else:
                    part.plot_profile(fname, **opts['plot_profile'])
        else:
            for step in (command,) + tuple(commands):
                if step == 'calc':
                    stream.rf(**opts['rf'])
                elif step == 'moveout':
                    stream.moveout(**opts['moveout'])
            write(stream, path_out, format)
