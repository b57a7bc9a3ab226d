"""
Value-dependence analysis of RFStream.stack(): for streams of one to four
traces with every pattern of equal and different ids (differing in network,
station, location or channel) the stack holds one trace per id, whose data is
the mean over the traces with this id and whose metadata and onset relative
to the start are those of the traces with this id, each entry if and only if
it is set for them.
"""
from itertools import product

from sa.terms import T, const

META = ('phase', 'moveout', 'station_latitude', 'station_longitude',
        'station_elevation')
IDS = [('N.S1..BHZ', 'N.S1..BHN', 'N.S2..BHZ'),
       ('A.S.00.BHZ', 'B.S.00.BHZ', 'A.S.10.BHZ')]


def syms(name, n):
    return T('tuple', *[T('sym', '%s%d' % (name, i)) for i in range(n)])


def consts(xs):
    return T('tuple', *[const(x) for x in xs])


def patterns(n, k):
    """all ways to distribute n traces over at most k ids"""
    for p in product(range(k), repeat=n):
        seen = list(dict.fromkeys(p))
        if seen == list(range(len(seen))):
            yield p


def check(K):
    n = 0
    for names in IDS:
        for size in (1, 2, 3):
            for p in patterns(size, 3):
                n += case(K, [names[i] for i in p], META, True)
    a, b = IDS[0][:2]
    for p in ([a, a, b, b], [a, b, b, a], [a, b, a, b], [a, b, b, b]):
        n += case(K, p, META, True)
    for leave in META:
        n += case(K, [a, b, a], [x for x in META if x != leave], True)
        n += case(K, [a, b, a], [leave], False)
    n += case(K, [b, a, b], (), False)
    K.floor('stacks', n, 20)


def case(K, ids, meta, onset):
    c = K.case('spec.c20.stack', 'c20.stack_ref', args={
        'traces': syms('tr', len(ids)), 'ids': consts(ids),
        'with_meta': consts(meta), 'with_onset': const(onset)})
    c.ret('stack of %s' % ', '.join(ids))
    return 1
