"""
C21: profile traces as means over the traces of one box and component.
"""
from rf import RFStream
from rf.profile import profile

META = ('slowness', 'phase', 'moveout')


def prepare(traces, channels, with_meta, with_onset):
    for tr, cha in zip(traces, channels):
        tr.stats.channel = cha
        tr.stats.pp_latitude = tr.stats.pp_latitude
        tr.stats.pp_longitude = tr.stats.pp_longitude
        for name in META:
            if name not in with_meta:
                tr.stats.pop(name, None)
            else:
                tr.stats[name] = tr.stats[name]
        if with_onset:
            tr.stats.onset = tr.stats.onset
        else:
            tr.stats.pop('onset', None)


def make_boxes(positions, polys, lengths, places, start):
    boxes = [{'pos': pos, 'poly': poly, 'length': length, 'latlon': place}
             for pos, poly, length, place in zip(positions, polys, lengths,
                                                 places)]
    boxes[0]['profile'] = {'latlon': start.latlon, 'azimuth': start.azimuth,
                           'length': start.length, 'width': start.width}
    return boxes


def iterate(traces):
    first_pass()
    for tr in traces:
        yield tr


def first_pass():
    pass


def row(tr):
    st = tr.stats
    return [st.channel[-1], st.box_pos, st.box_length, st.box_latitude,
            st.box_longitude, st.profile_latitude, st.profile_longitude,
            st.profile_azimuth, st.profile_length, st.num, st.sampling_rate,
            tr.data, [(x in st, st.get(x)) for x in META],
            'onset' in st and st.onset - st.starttime]


def stacked(traces, channels, positions, polys, lengths, places, start,
            within, with_meta, with_onset, crs, what):
    prepare(traces, channels, with_meta, with_onset)
    boxes = make_boxes(positions, polys, lengths, places, start)
    if what == 'stream':
        stream = RFStream(list(traces))
    else:
        stream = iterate(traces)
    result = profile(stream, boxes, crs=crs)
    return [row(tr) for tr in result], [tr.stats.type for tr in result]


def stacked_ref(traces, channels, positions, polys, lengths, places, start,
                within, with_meta, with_onset, crs):
    prepare(traces, channels, with_meta, with_onset)
    boxes = make_boxes(positions, polys, lengths, places, start)
    rows = []
    for comp in sorted({c[-1] for c in channels}):
        for i in sorted(range(len(positions)), key=lambda j: positions[j]):
            member = [tr for tr, c, w in zip(traces, channels, within)
                      if c[-1] == comp and w == i]
            if not member:
                continue
            box = boxes[i]
            st = member[0].stats
            total = 0
            for tr in member:
                total = total + tr.data
            rows.append([
                comp, box['pos'], box['length'], box['latlon'][0],
                box['latlon'][1], start.latlon[0], start.latlon[1],
                start.azimuth, start.length, len(member), st.sampling_rate,
                total / len(member), [(x in st, st.get(x)) for x in META],
                'onset' in st and st.onset - st.starttime])
    return rows, ['profile' for r in rows]
