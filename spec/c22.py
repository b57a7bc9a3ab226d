"""
C22: boxes along a profile. A box starts at its first edge, measured from the
start of the profile; its corners are found by going half a width to the left,
the length of the box forward, a width to the right and the length backward.
"""
from geographiclib.geodesic import Geodesic
from shapely.geometry import Polygon

from rf.profile import get_profile_boxes


def direct_geodetic(latlon, azi, dist):
    c = Geodesic.WGS84.Direct(latlon[0], latlon[1], azi, dist * 1000)
    return c['lat2'], c['lon2']


def boxes(latlon0, azimuth, bins, width):
    return get_profile_boxes(latlon0, azimuth, bins, width=width)


def boxes_default(latlon0, azimuth, bins):
    return get_profile_boxes(latlon0, azimuth, bins)


def boxes_default_ref(latlon0, azimuth, bins):
    return boxes_ref(latlon0, azimuth, bins, 2000)


def boxes_ref(latlon0, azimuth, bins, width):
    out = []
    for n in range(len(bins) - 1):
        edge = bins[n]
        size = bins[n + 1] - edge
        start = direct_geodetic(latlon0, azimuth, edge)
        c1 = direct_geodetic(start, (azimuth - 90) % 360, width / 2)
        c2 = direct_geodetic(c1, azimuth, size)
        c3 = direct_geodetic(c2, (azimuth + 90) % 360, width)
        c4 = direct_geodetic(c3, (azimuth + 180) % 360, size)
        ring = [(c[1], c[0]) for c in (c1, c2, c3, c4)]
        box = dict(poly=Polygon(ring), length=size,
                   pos=(bins[n] + bins[n + 1]) / 2,
                   latlon=direct_geodetic(start, azimuth, size / 2))
        if n == 0:
            box['profile'] = dict(latlon=latlon0, azimuth=azimuth,
                                  length=bins[len(bins) - 1] - bins[0],
                                  width=width)
        out.append(box)
    return out
