"""
C33: plots, what is drawn, saved and left alone.

Each plot function is interpreted abstractly and its drawing, saving and
closing calls are compared, with everything they receive and the conditions
they happen under, to reference functions written from the statement
(spec/c33.py): order of the traces, time relative to the onset, common
normalising amplitude, own colours of positive and negative parts, metadata of
the trace of the same row, both panels of the harmonics plot with their own
amplitude.  Figures are saved after the drawing and closed after the saving.
The plotted stream, inventory and boxes are not changed (effect analysis of
C19).
"""
from sa.terms import T, const, NONE
from rules.c19 import operation

TECHNIQUE = ('gated value-dependence analysis of drawing calls and effect '
             'analysis')
I = 'rf.imaging.'
S = 'rf.rfstream.RFStream'
LIB = (S + '.slice2', S + '.stack', I + '_label', 'rf.simple_model.load_model',
       'rf.simple_model.SimpleModel.calculate_delay_times')


TRIMS = {'': NONE, '[trimmed]': T('tuple', const(-5), const(20))}


COLORS = T('tuple', T('sym', 'positive'), T('sym', 'negative'))


def entry(n):
    return T('tuple', T('sym', 'key%d' % n), T('sym', 'label%d' % n),
             T('sym', 'color%d' % n))


def check(K):
    for mode, trim in TRIMS.items():
        for n, info in enumerate((NONE, T('tuple', entry(1)),
                                  T('tuple', entry(1), entry(2)))):
            c = K.case(I + 'plot_rf', 'c33.plot_rf', types={'stream': S},
                       opaque=LIB, args={'trim': trim, 'info': info,
                             'fillcolors': COLORS},
                       mode='%s[%d entries]' % (mode, n))
            c.calls('wiggles and metadata', '*.plot')
            c.calls('fillings', '*.fill_between')
            c.calls('saving', '*.savefig')
            c.calls('closing', '*.close')
            c.order('drawn, saved, closed', '*.plot', '*.fill_between',
                    '*.savefig', '*.close')
            c.ret('figure')
        c = K.case(I + 'plot_profile', 'c33.plot_profile',
                   types={'profile': S}, opaque=LIB,
                   args={'trim': trim, 'fillcolors': COLORS},
                   mode=mode)
        c.calls('wiggles', '*.plot')
        c.calls('fillings', '*.fill_betweenx')
        c.calls('histogram', '*.bar')
        c.calls('saving', '*.savefig')
        c.calls('closing', '*.close')
        c.order('drawn, saved, closed', '*.plot', '*.fill_betweenx',
                '*.bar', '*.savefig', '*.close')
        c.ret('figure')
    M = (I + 'plot_stations', I + 'plot_ppoints')
    c = K.case('spec.c33.ppoints_of', 'c33.ppoints_ref', opaque=M[:1],
               types={'crs': 'ext'})
    c.calls('piercing points', '*.scatter')
    c.calls('stations', '*plot_stations')
    c.ret('axes')
    c = K.case(I + 'plot_stations', 'c33.plot_stations')
    c.calls('markers', '*.scatter')
    c.ret('axes')
    c = K.case(I + 'plot_profile_map', 'c33.plot_profile_map', opaque=M)
    c.calls('boxes', '*.add_geometries')
    c.calls('stations', '*plot_stations')
    c.calls('piercing points', '*plot_ppoints')
    c.ret('axes')
    for mode, trim in TRIMS.items():
        for m2, hd2 in (('[one]', NONE), ('[two]', T('sym', 'hd2'))):
            c = K.case(I + 'plot_harmonics', 'c33.plot_harmonics',
                       types={'hd': S, 'hd2': S}, opaque=LIB,
                       args={'trim': trim, 'hd2': hd2,
                             'fillcolors': COLORS}, mode=mode + m2)
            c.calls('wiggles', '*.plot')
            c.calls('fillings', '*.fill_between')
            c.ret('figure')
    n = 0
    for fn, inputs, types in (
            ('plot_rf', ('stream',), {'stream': S}),
            ('plot_profile', ('profile',), {'profile': S}),
            ('plot_harmonics', ('hd', 'hd2'), {'hd': S, 'hd2': S}),
            ('plot_profile_map', ('boxes', 'inventory', 'ppoints'), {}),
            ('plot_stations', ('inventory',), {}),
            ('plot_ppoints', ('ppoints', 'inventory'), {})):
        A, r, al, k = operation(K, K.P.functions[I + fn], inputs,
                                types=types)
        n += 1
    K.floor('plot functions', n, 6)
