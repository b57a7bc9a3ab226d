"""
Value-dependence analysis of obj2stats: every entry of the returned metadata,
with the condition under which it is present, and the condition of every value
error are compared with the documented source (preferred, otherwise first
origin and magnitude; depth divided by 1000; own station field).  rfstats is
analysed as well: with an event and a station the entries it stores are those
of obj2stats.
"""
ENTRIES = ('event_latitude event_longitude event_depth event_magnitude '
           'event_time event_id station_latitude station_longitude '
           'station_elevation').split()


def check(K):
    c = K.case('rf.rfstream.obj2stats', 'c07.obj2stats')
    c.ret('event and station metadata')
    c.raises('missing origin or magnitude', merge=False)
    c = K.case('rf.rfstream.obj2stats', 'c07.obj2stats',
               args={'event': None, 'station': None}, mode='[nothing given]')
    c.ret('event and station metadata')
