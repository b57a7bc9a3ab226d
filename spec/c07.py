"""Reference for C07: event and station metadata."""


def obj2stats(event=None, station=None):
    out = {}
    if event is not None:
        origin = event.preferred_origin()
        if not origin:
            if len(event.origins) == 0:
                raise ValueError('No origin')
            origin = event.origins[0]
        for key in ('latitude', 'longitude', 'depth', 'time'):
            if origin[key] is None:
                raise ValueError('No origin ' + key)
        magnitude = event.preferred_magnitude()
        if not magnitude:
            if len(event.magnitudes) == 0:
                raise ValueError('No magnitude')
            magnitude = event.magnitudes[0]
        out['event_latitude'] = origin['latitude']
        out['event_longitude'] = origin['longitude']
        out['event_depth'] = origin['depth'] / 1000
        out['event_time'] = origin['time']
        out['event_magnitude'] = magnitude['mag']
        evid = event.get('resource_id')
        out['event_id'] = None if evid is None else str(evid)
    if station is not None:
        out['station_latitude'] = station['latitude']
        out['station_longitude'] = station['longitude']
        out['station_elevation'] = station['elevation']
    return out
