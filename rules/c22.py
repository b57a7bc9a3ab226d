"""
Value-dependence analysis of get_profile_boxes() for symbolic start, azimuth,
width and two to five symbolic bin edges: number, lengths, positions, polygons
(order of corners and of coordinates) and midpoints of the boxes and the
description of the profile, compared role by role with the documented ones.
"""
from rules.c20 import syms


def check(K):
    for n in (2, 3, 4, 5):
        for fn in ('boxes', 'boxes_default'):
            K.case('spec.c22.' + fn, 'c22.%s_ref' % fn,
                   args={'bins': syms('edge', n)},
                   mode='[%d edges]' % n).ret('boxes')
