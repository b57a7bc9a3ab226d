"""Reference for C02: documented header <-> field of the Q format."""
import json

import numpy as np
from obspy.core import AttribDict

OWN = (('event_latitude', 'LAT'), ('event_longitude', 'LON'),
       ('event_depth', 'DEPTH'), ('event_magnitude', 'MAGNITUDE'),
       ('event_time', 'ORIGIN'), ('onset', 'P-ONSET'),
       ('distance', 'DISTANCE'), ('back_azimuth', 'AZIMUTH'),
       ('inclination', 'INCI'), ('slowness', 'SLOWNESS'))
TEXT = ('station_latitude', 'station_longitude', 'station_elevation',
        'type', 'phase', 'moveout', 'pp_latitude', 'pp_longitude',
        'pp_depth', 'box_pos', 'box_length')


def native(obj):
    return np.asarray(obj).item()


def write(self, filename, format, sh_compat=False, **kwargs):
    if len(self) == 0:
        return
    for tr in self:
        st = tr.stats
        if 'sh' not in st:
            st.sh = AttribDict({})
        text = {}
        for head in TEXT:
            if head in st:
                text[head] = st[head]
        for head, field in OWN:
            if head in st:
                st.sh[field] = st[head]
        if sh_compat:
            st.sh.pop('COMMENT', None)
        elif len(text) > 0:
            st.sh['COMMENT'] = json.dumps(text, separators=(',', ':'),
                                          default=native)
        st.station = tr.id
    super(self.__class__, self).write(filename, format, **kwargs)


def drive_read(self, trace, fmt='Q'):
    self.stats._format = fmt
    self.__init__(trace=trace)
    return [self.stats.get(head) for head in TEXT]


def read(self, trace, fmt='Q'):
    st = self.stats
    st._format = fmt
    if st.station.count('.') > 1:
        code = st.station.split('.')
        st.network = code[0]
        st.station = code[1]
        st.location = code[2]
    if 'sh' in st:
        for head, field in OWN:
            if field in st.sh:
                st[head] = st.sh[field]
        if 'COMMENT' in st.sh:
            try:
                st.update(json.loads(st.sh['COMMENT']))
            except json.JSONDecodeError:
                pass
    return [st.get(head) for head in TEXT]
