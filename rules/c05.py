"""
Value-dependence analysis of rfstats for one metadata object, for a new one
and for a stream: the final value of every entry of the metadata, the
arguments of the distance, travel time and piercing point calls, the error for
a missing arrival and the warning for several arrivals are compared with the
documented source of each value, under every combination of options.
"""
OPAQUE = ('rf.simple_model.load_model', 'rf.simple_model.SimpleModel.ppoint')
MODEL = {'rf.simple_model.load_model': 'rf.simple_model.SimpleModel'}


def stats(b, n):
    return not n.startswith('_')


def check(K):
    for mode, args, types, spec in (
            ('[metadata]', {}, {'obj': 'Stats'}, 'c05.single'),
            ('[new metadata]', {'obj': None},
             {'event': 'Event', 'station': 'Station'}, 'c05.single'),
            ('[stream]', {}, {'obj': 'rf.rfstream.RFStream'},
             'c05.stream')):
        c = K.case('rf.rfstream.rfstats', spec, args=args, types=types,
                   opaque=OPAQUE, atypes=MODEL, mode=mode)
        c.calls('distance and travel time', 'obspy.gps2dist_azimuth',
                '*gps2dist_azimuth', '*TauPyModel', '.get_travel_times')
        c.calls('piercing points', '*load_model', '*.ppoint')
        c.calls('several arrivals', 'warnings.warn', bare=True)
        if mode != '[new metadata]':
            c.fields('ray statistics', lambda b, n: n != 'traces')
        if mode == '[new metadata]':
            c.ret('ray statistics')
        c.raises('no arrival', classes=('Exception',))
