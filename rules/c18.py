"""
Value-dependence analysis of direct_geodetic, SimpleModel.ppoint and
RFStream.ppoints (with given and default phase, for P and S receiver
functions): arguments of the geodesic calculation and of the distance of the
ray, the metadata entries written for every trace and the returned
coordinates, compared role by role with the documented ones.
"""
OPAQUE = ('rf.simple_model.load_model',
          'rf.simple_model.SimpleModel.ppoint_distance')
MODEL = {'rf.simple_model.load_model': 'rf.simple_model.SimpleModel'}
P = 'rf.simple_model.SimpleModel.'


def entry(b, n):
    return n in ('pp_depth', 'pp_latitude', 'pp_longitude')


def check(K):
    c = K.case('rf.util.direct_geodetic', 'c18.direct')
    c.ret('coordinates')
    for mode, ty in (('[stats]', {'stats': 'Stats'}), ('[dictionary]', {})):
        c = K.case(P + 'ppoint', 'c18.point', types=ty, opaque=OPAQUE[1:],
                   mode=mode)
        c.ret('coordinates')
        c.fields('stored entries', entry)
        c.calls('distance', '*.ppoint_distance')
        c.calls('geodesic', '*.Direct')
    S = {'stream': 'rf.rfstream.RFStream', 'phase': 'str'}
    for f, ref, args, mode in (
            ('given', 'given', {}, '[phase given]'),
            ('kw', 'given', {}, '[keywords]'),
            ('method', 'method', {'method': 'P'}, '[defaults, P]'),
            ('method', 'method', {'method': 'S'}, '[defaults, S]')):
        c = K.case('spec.c18.drive_' + f, 'c18.' + ref, args=args, types=S,
                   opaque=OPAQUE, atypes=MODEL, mode=mode)
        c.ret('coordinates')
        c.fields('stored entries', entry)
        c.calls('distance', '*.ppoint_distance')
        c.calls('model', '*.load_model')
        c.calls('geodesic', '*.Direct')
