"""
C20: mean of the traces with the same seed id; members of a group agree in
their metadata.
"""
from rf import RFStream

META = ('phase', 'moveout', 'station_latitude', 'station_longitude',
        'station_elevation')


def prepare(traces, ids, with_meta, with_onset, values):
    """label the traces, traces of the same id have the same metadata"""
    first = {}
    for tr, id_ in zip(traces, ids):
        tr.id = id_
        net, sta, loc, cha = id_.split('.')
        tr.stats.network = net
        tr.stats.station = sta
        tr.stats.location = loc
        tr.stats.channel = cha
        lead = first.setdefault(id_, tr)
        if lead is not tr:
            tr.stats.sampling_rate = lead.stats.sampling_rate
        for name in META:
            if name in with_meta:
                tr.stats[name] = values[id_][name]
            else:
                tr.stats.pop(name, None)
        if with_onset:
            if lead is not tr:
                tr.stats.onset = (lead.stats.onset - lead.stats.starttime +
                                  tr.stats.starttime)
            else:
                tr.stats.onset = values[id_]['onset']
        else:
            tr.stats.pop('onset', None)
    return first


def row(tr):
    st = tr.stats
    return ([(name in st, st.get(name)) for name in META] +
            [st.sampling_rate, tr.data, st.location,
             'onset' in st and st.onset - st.starttime])


def stack(traces, ids, with_meta, with_onset, values):
    prepare(traces, ids, with_meta, with_onset, values)
    result = RFStream(list(traces)).stack()
    out = []
    for id_ in sorted(set(ids)):
        net, sta, loc, cha = id_.split('.')
        out.append([row(tr) for tr in result
                    if tr.stats.network == net and tr.stats.station == sta
                    and tr.stats.location == loc and
                    tr.stats.channel == cha])
    return len(result), out


def stack_ref(traces, ids, with_meta, with_onset, values):
    first = prepare(traces, ids, with_meta, with_onset, values)
    out = []
    for id_ in sorted(set(ids)):
        lead = first[id_]
        data = [tr.data for tr, i in zip(traces, ids) if i == id_]
        out.append([[(name in lead.stats, lead.stats.get(name))
                     for name in META] +
                    [lead.stats.sampling_rate, mean(data),
                     id_.split('.')[2],
                     'onset' in lead.stats and
                     lead.stats.onset - lead.stats.starttime]])
    return len(out), out


def mean(arrays):
    total = 0
    for x in arrays:
        total = total + x
    return total / len(arrays)
