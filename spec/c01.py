"""Reference for C01: documented header <-> SAC field (rf/__init__.py)."""
from obspy.io.sac.util import get_sac_reftime, obspy_to_sac_header

FIELDS = (('station_latitude', 'stla'), ('station_longitude', 'stlo'),
          ('station_elevation', 'stel'), ('event_latitude', 'evla'),
          ('event_longitude', 'evlo'), ('event_depth', 'evdp'),
          ('event_magnitude', 'mag'), ('event_time', 'o'), ('onset', 'a'),
          ('type', 'kuser0'), ('phase', 'kuser1'), ('moveout', 'kuser2'),
          ('distance', 'gcarc'), ('back_azimuth', 'baz'),
          ('inclination', 'user0'), ('slowness', 'user1'),
          ('pp_latitude', 'user2'), ('pp_longitude', 'user3'),
          ('pp_depth', 'user4'), ('box_pos', 'user5'),
          ('box_length', 'user6'))


def write(self, filename, format, sh_compat=False, **kwargs):
    if len(self) == 0:
        return
    for tr in self:
        tr.stats.sac = obspy_to_sac_header(tr.stats)
        for head, field in FIELDS:
            if head in tr.stats:
                value = tr.stats[head]
                if head in ('event_time', 'onset'):
                    value = value - get_sac_reftime(tr.stats.sac)
                tr.stats.sac[field] = value


# ---- reading: drivers fix the format, the references state the result
def drive_sac(self, trace):
    self.stats._format = 'SAC'
    self.__init__(trace=trace)


def read_sac(self, trace):
    st = self.stats
    st._format = 'SAC'
    if 'sac' not in st:
        return
    for head, field in FIELDS:
        if field in st.sac and '-12345' not in str(st.sac[field]):
            if head in ('event_time', 'onset'):
                st[head] = get_sac_reftime(st.sac) + st.sac[field]
            else:
                st[head] = st.sac[field]
