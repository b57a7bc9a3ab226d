"""
C23: harmonic decomposition of records with known order, sizes symbolic in
everything else.
"""
import numpy as np

from rf import RFStream
from rf.harmonics import harmonics

EVENT = ('processing', 'event_id', 'event_depth', 'event_latitude',
         'event_longitude', 'event_magnitude', 'inclination', 'slowness',
         'event_time', 'back_azimuth')
TERMS = ('constant', 'cos', 'sin', 'cos2', 'sin2')


def prepare(traces, rows):
    for tr, (channel, time, baz, data) in zip(traces, rows):
        tr.stats.channel = channel
        tr.stats.event_time = time
        tr.stats.back_azimuth = baz
        tr.data = np.array(data)
    return RFStream(list(traces))


def row(tr):
    st = tr.stats
    return (tr.data, st.channel, st.term, st.location, st.components,
            st.type, [key in st for key in EVENT], st.onset, st.starttime,
            st.sampling_rate)


def default(traces, rows):
    return [row(tr) for tr in harmonics(prepare(traces, rows))]


def default_ref(traces, rows):
    return decompose_ref(traces, rows, 'R', 0, 'time')


def decompose(traces, rows, components, azim, method):
    return [row(tr) for tr in harmonics(
        prepare(traces, rows), components=components, azim=azim,
        method=method)]


def scaled(traces, rows, components, azim, method, s1, s2):
    return [row(tr) for tr in harmonics(
        prepare(traces, rows), components, azim, method, scalars=(s1, s2))]


def decompose_ref(traces, rows, components, azim, method):
    return scaled_ref(traces, rows, components, azim, method, 3, 0.3)


def scaled_ref(traces, rows, components, azim, method, s1, s2):
    prepare(traces, rows)
    lead = traces[0].stats
    two = len(components) == 2
    events = sorted(set(time for channel, time, baz, data in rows))
    matrix, values = [], []
    for n in range(len(components)):
        for event in events:
            for channel, time, baz, data in rows:
                if time == event and channel[-1] == components[n]:
                    matrix.append(line(baz, azim, two, n, s1, s2))
                    values.append(transform(data, method))
    npts = len(rows[0][3])
    fits = [np.linalg.lstsq(np.array(matrix),
                            np.array([v[i] for v in values]),
                            rcond=None)[0] for i in range(npts)]
    out = []
    for k in range(10 if two else 5):
        data = np.array([fit[k] for fit in fits])
        if method == 'freq':
            data = np.real(np.fft.ifft(data))
        out.append((data, str(k % 5), TERMS[k % 5],
                    'mod' if k < 5 else 'unmod', components, 'harmonic',
                    [False for key in EVENT], lead.onset, lead.starttime,
                    lead.sampling_rate))
    return out


def transform(data, method):
    return np.fft.fft(np.array(data)) if method == 'freq' else data


def line(baz, azim, two, n, s1, s2):
    """one event and component in the design matrix"""
    a = (baz - azim) * np.pi / 180
    c1, s_1, c2, s_2 = np.cos(a), np.sin(a), np.cos(2 * a), np.sin(2 * a)
    if not two:
        return [1, c1, s_1, c2, s_2]
    if n == 0:
        return [s1, c1, s_1, c2, s_2, 0, c1, s_1, c2, s_2]
    # the transverse part is shifted by a quarter period, with opposite
    # sign for the part which is not modelled
    return [0, -s_1, c1, -s_2, c2, s2, s_1, -c1, s_2, -c2]


def one(baz, azim):
    from rf.harmonics import decomp_one
    return decomp_one(np.array(baz), azim)


def one_ref(baz, azim):
    return np.array([line(b, azim, False, 0, 0, 0) for b in baz])


def one_default(baz):
    from rf.harmonics import decomp_one
    return decomp_one(np.array(baz))


def one_default_ref(baz):
    return one_ref(baz, 0)


def two(baz, azim, scalars):
    from rf.harmonics import decomp_two
    return decomp_two(np.array(baz), azim, scalars)


def two_ref(baz, azim, scalars):
    return np.array([line(b, azim, True, n, scalars[0], scalars[1])
                     for n in range(2) for b in baz])


def two_default(baz):
    from rf.harmonics import decomp_two
    return decomp_two(np.array(baz))


def two_default_ref(baz):
    return two_ref(baz, 0, (3, 0.3))
