"""
C21: profile traces.

Value-dependence analysis of profile() for streams of one to four traces, with
every assignment of their piercing points to boxes (or to none) and several
patterns of components, with and without a given projection.  Point-in-polygon
tests are answered by an oracle only if point and polygon are projected alike
with the documented centre.  The traces of the result, their data (mean over
exactly the traces of this box and component), their number and metadata are
compared with a reference.
"""
from sa.terms import NONE, T, const, subterms
from rules.c20 import syms, consts

META = ('slowness', 'phase', 'moveout')


def oracle(within, crs):
    """trace i lies in box within[i], if its piercing point (longitude first)
    and the polygon are projected alike"""
    def fn(name, recv, args, kw):
        if name == 'within' and len(args) == 1:
            p, poly = recv, args[0]
        elif name == 'contains' and len(args) == 1:
            poly, p = recv, args[0]
        else:
            return None
        t, b = projected(p), projected(poly)
        if t is None or b is None or t[0] is not b[0] or not centred(t[0], crs):
            return None
        b = b[1]
        if b.op != 'sym' or not b.args[0].startswith('poly'):
            return None
        t = point(t[1])
        if t is None:
            return None
        return const(within[t] == int(b.args[0][4:]))
    return fn


def projected(t):
    """projection and geometry of a projected geometry"""
    if t.op != 'mcall' or t.args[1] != 'project_geometry':
        return None
    d = dict(t.args[3])
    g, src = d.get('geometry'), d.get('src_crs')
    if g is None or src is None or called(src) != 'cartopy.crs.PlateCarree':
        return None
    return t.args[0], g


def called(t):
    if t.op == 'call' and t.args[0].op == 'ext':
        return t.args[0].args[0]


def point(g):
    """trace of a point built from its longitude and latitude"""
    if called(g) != 'shapely.geometry.Point' or g.args[2]:
        return None
    a = g.args[1]
    if len(a) == 1 and a[0].op in ('tuple', 'list'):
        a = a[0].args
    if len(a) != 2:
        return None
    for x, n in zip(a, ('pp_longitude', 'pp_latitude')):
        if x.op != 'fld' or x.args[1] != n or x.args[0].op != 'fld' or \
                x.args[0].args[1] != 'stats' or \
                x.args[0].args[0].op != 'sym':
            return None
    t = [x.args[0].args[0].args[0] for x in a]
    return int(t[0][2:]) if t[0] == t[1] and t[0][:2] == 'tr' else None


def centred(crs, given):
    """given projection or one centred at latitude, longitude of a place"""
    if given is not NONE:
        return crs is given
    if called(crs) != 'cartopy.crs.AzimuthalEquidistant':
        return False
    a, kw = crs.args[1], dict(crs.args[2])
    if len(a) == 1 and not kw and a[0].op == 'star':
        a = a[0].args[0]
        return a.op == 'rev' and origin(a.args[0])
    if len(a) + len(kw) == 2:
        a = dict(zip(('central_longitude', 'central_latitude'), a), **kw)
        lon, lat = (a.get('central_longitude', crs),
                    a.get('central_latitude', crs))
        return lon.op == lat.op == 'item' and lon.args[0] is lat.args[0] \
            and lon.args[1] is const(1) and lat.args[1] is const(0) and \
            origin(lon.args[0])
    return False


def origin(t):
    """a place of the boxes"""
    return any(x.op == 'sym' and x.args[0].startswith('place')
               for x in subterms(t))


def check(K):
    n = once(K)
    boxes = ([10], [0, 20], [20.25, 20.0625], [10.5, -10, 10.25])
    for pos in boxes:
        for k in (1, 2, 3):
            for chs in (['BHQ'] * k, ['BHQ', 'BHT', 'BHQ'][:k],
                        ['BHT', 'BHQ', 'BHQ'][:k]):
                for w in places(k, len(pos)):
                    n += case(K, chs, w, pos)
    for c in 'ZRLSN1':
        n += case(K, ['BH' + c, 'BH' + c, 'HH' + c], [0, 0, 0], [10])
    for name in META:
        n += case(K, ['BHQ'], [0], [10],
                  [x for x in META if x != name], True)
        n += case(K, ['BHQ'], [0], [10], [name], False)
    K.floor('profiles', n, 20)


def places(k, m):
    """boxes of k traces (-1: outside of all)"""
    if k == 1:
        return [[i] for i in range(-1, m)]
    if k == 2:
        return [[i, j] for i in range(-1, m) for j in range(-1, m)]
    return [[0, 0, 0], [0, 0, -1], [0, -1, 0], [-1, 0, 0],
            [m - 1, 0, 0], [0, m - 1, 0], [0, 0, m - 1],
            [m - 1, 0, m - 1], [-1, -1, m - 1], [-1, -1, -1]]


def case(K, channels, within, positions, meta=META, onset=True):
    for crs in (T('sym', 'crs'), NONE):
        one(K, channels, within, positions, meta, onset, crs)
    return 1


def one(K, channels, within, positions, meta, onset, crs, what='stream'):
    n, m = len(channels), len(positions)
    c = K.case('spec.c21.stacked', 'c21.stacked_ref', args={
        'traces': syms('tr', n), 'channels': consts(channels),
        'positions': consts(positions), 'polys': syms('poly', m),
        'lengths': syms('len', m), 'places': syms('place', m),
        'within': consts(within), 'with_meta': consts(meta),
        'with_onset': const(onset), 'crs': crs, 'what': const(what)}, oracle=oracle(within, crs),
        opaque=('spec.c21.first_pass',),
        symtypes=dict({'tr%d' % i: 'rf.rfstream.RFTrace' for i in range(n)},
                      crs='cartopy.crs'),
        mode='[%s, %s, %s]' % (channels, within, what))
    c.ret('profile of %s in %s' % (channels, within))
    return c


def once(K):
    """a one-pass iterator is iterated once and nothing else is asked"""
    rule = 'one-pass iterators'
    crs = T('sym', 'crs')
    for chs, w in ((['BHQ', 'BHQ'], [0, 0]), (['BHT', 'BHQ'], [0, 1])):
        c = one(K, chs, w, [10, 20], META, True, crs, 'iterator')
        K.oblige(rule)
        e = [e for e in c.code.res.events if e.kind == 'call' and
             str(e.name).endswith('first_pass')]
        K.floor(rule, len(e), 1)
        if len(e) > 1:
            K.violation(rule, loops(c), 'the stream is iterated %d times, an '
                        'iterator is exhausted after the first' % len(e))
    return 2


def loops(c):
    """second iteration over a generator"""
    e = [e for e in c.code.res.events if e.kind == 'loop' and
         e.value.op == 'gencall']
    return e[1] if len(e) > 1 else None
