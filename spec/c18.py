"""Reference for C18: piercing points."""
import numpy as np
from geographiclib.geodesic import Geodesic
from rf.simple_model import load_model


def direct(latlon, azi, dist):
    c = Geodesic.WGS84.Direct(latlon[0], latlon[1], azi, dist * 1000)
    return c['lat2'], c['lon2']


def point(self, stats, depth, phase='S'):
    dist = self.ppoint_distance(depth, stats['slowness'], phase=phase)
    start = (stats['station_latitude'], stats['station_longitude'])
    lat, lon = direct(start, stats['back_azimuth'], dist)
    stats['pp_latitude'] = lat
    stats['pp_longitude'] = lon
    stats['pp_depth'] = depth
    return lat, lon


def points(stream, depth, phase, model):
    m = load_model(model)
    for tr in stream:
        point(m, tr.stats, depth, phase)
    return np.array([(tr.stats.pp_latitude, tr.stats.pp_longitude)
                     for tr in stream])


def drive_given(stream, depth, phase, model):
    return stream.ppoints(depth, phase, model)


def drive_kw(stream, depth, phase, model):
    return stream.ppoints(pp_depth=depth, model=model, pp_phase=phase)


def given(stream, depth, phase, model):
    return points(stream, depth, phase, model)


def drive_method(stream, depth, method):
    if stream.method == method:
        return stream.ppoints(depth)


def method(stream, depth, method):
    if stream.method == method:
        return points(stream, depth, 'S' if method == 'P' else 'P', 'iasp91')
