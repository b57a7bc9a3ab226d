"""Reference for C05 and C06: ray statistics and distance range."""
import warnings

from obspy.geodetics import gps2dist_azimuth
from obspy.taup import TauPyModel
from rf.rfstream import rfstats
from rf.simple_model import load_model

from spec.c07 import obj2stats

DEG2KM = 111.2


def one(stats, event, station, phase, dist_range, tt_model, pp_depth,
        pp_phase, model):
    if dist_range == 'default':
        if phase.upper() == 'P':
            dist_range = (30, 90)
        elif phase.upper() == 'S':
            dist_range = (50, 85)
        else:
            raise ValueError('Please specify dist_range parameter')
    if stats is None:
        stats = {}
    if event is not None and station is not None:
        for key, value in obj2stats(event, station).items():
            stats[key] = value
    ray = gps2dist_azimuth(
        stats['station_latitude'], stats['station_longitude'],
        stats['event_latitude'], stats['event_longitude'])
    dist = ray[0] / 1000 / DEG2KM
    if dist_range:
        if dist < dist_range[0] or dist > dist_range[1]:
            return None
    arrivals = TauPyModel(model=tt_model).get_travel_times(
        source_depth_in_km=stats['event_depth'], distance_in_degree=dist,
        phase_list=(phase,))
    if len(arrivals) == 0:
        raise Exception('no arrival')
    if len(arrivals) > 1:
        warnings.warn('more than one arrival')
    stats['distance'] = dist
    stats['back_azimuth'] = ray[1]
    stats['inclination'] = arrivals[0].incident_angle
    stats['onset'] = stats['event_time'] + arrivals[0].time
    stats['slowness'] = arrivals[0].ray_param_sec_degree
    stats['phase'] = phase
    if pp_depth is not None:
        if pp_phase is None:
            pp_phase = 'S' if phase.upper().endswith('P') else 'P'
        load_model(model).ppoint(stats, pp_depth, phase=pp_phase)
    return stats


def single(obj, event, station, phase, dist_range, tt_model, pp_depth,
           pp_phase, model):
    return one(obj, event, station, phase, dist_range, tt_model, pp_depth,
               pp_phase, model)


def stream(obj, event, station, phase, dist_range, tt_model, pp_depth,
           pp_phase, model):
    obj.traces = [
        tr for tr in obj
        if one(tr.stats, event, station, phase, dist_range, tt_model,
               pp_depth, pp_phase, model) is not None]
    return obj


# ---- default options
def drive_defaults(obj, event, station):
    return rfstats(obj, event, station)


def defaults(obj, event, station):
    return one(obj, event, station, 'P', 'default', 'iasp91', None, None,
               'iasp91')


def drive_gate(obj, event, station, phase, dist_range):
    return rfstats(obj, event, station, phase=phase,
                   dist_range=dist_range) is None


def gate(obj, event, station, phase, dist_range):
    return one(obj, event, station, phase, dist_range, 'iasp91', None, None,
               'iasp91') is None


def drive_default_gate(obj, phase):
    return rfstats(obj, phase=phase) is None


def default_gate(obj, phase):
    return one(obj, None, None, phase, 'default', 'iasp91', None, None,
               'iasp91') is None
