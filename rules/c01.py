"""
Value-dependence analysis of RFStream.write with format SAC: the set of
writes into the SAC header of a generic trace (field, value, condition) is
compared with the documented table, entry by entry.  RFTrace.__init__ is
analysed for a trace read from SAC: the final value of each documented entry
is compared, under every combination of present, absent and undefined fields,
with the inverse conversion of the same field.
"""
from sa import terms as tm


HEADS = ('station_latitude station_longitude station_elevation '
         'event_latitude event_longitude event_depth event_magnitude '
         'event_time onset type phase moveout distance back_azimuth '
         'inclination slowness pp_latitude pp_longitude pp_depth box_pos '
         'box_length').split()


def sacstore(e):
    n = e.name
    if not isinstance(n, str):
        return True
    r = e.recv
    return not (r.op == 'fld' and r.args[1] == 'stats' and n != 'sac')


def check(K):
    for fmt in ('SAC', 'sac'):
        c = K.case('rf.rfstream.RFStream.write', 'c01.write',
                   args={'format': fmt}, mode='[format=%s]' % fmt)
        s = c.spec.stores(sacstore)
        K.floor('SAC fields of the reference', len(s), 22)
        c.stores('SAC header on writing', sacstore)
    c = K.case('spec.c01.drive_sac', 'c01.read_sac',
               types={'self': 'rf.rfstream.RFTrace'})
    c.fields('metadata after reading', lambda b, n: n in HEADS)
