"""
Value-dependence analysis of rfstats with drivers for explicit and for default
options: the predicate under which no statistics result, the condition of the
error asking for a range, and the list of traces kept for a stream are
compared, as decision diagrams over the same predicates, with the documented
ranges (both ends included).
"""
OPAQUE = ('rf.simple_model.load_model', 'rf.simple_model.SimpleModel.ppoint')
MODEL = {'rf.simple_model.load_model': 'rf.simple_model.SimpleModel'}


def check(K):
    c = K.case('spec.c05.drive_gate', 'c05.gate', mode='[range given]',
               opaque=OPAQUE, atypes=MODEL, types={'obj': 'Stats'})
    c.ret('pair is rejected')
    c.raises('range is missing', classes=('ValueError',))
    c = K.case('spec.c05.drive_default_gate', 'c05.default_gate',
               opaque=OPAQUE, atypes=MODEL, types={'obj': 'Stats'}, mode='[default range]')
    c.ret('pair is rejected')
    c.raises('range is missing', classes=('ValueError',))
    c = K.case('rf.rfstream.rfstats', 'c05.stream',
               types={'obj': 'rf.rfstream.RFStream'}, opaque=OPAQUE, atypes=MODEL,
               mode='[stream]')
    c.fields('traces', lambda b, n: n == 'traces')
    c.ret('stream')
    c.calls('options for every trace', '*TauPyModel', '.get_travel_times',
            '*load_model', '*.ppoint')
    c.raises('range is missing', classes=('ValueError',))
