"""
RFStream.write with format Q and RFTrace.__init__ for a trace read from Q are
analysed for every combination of present and absent entries.  The final
header of a generic trace, the decoded comment and the station codes are
compared, entry by entry and condition by condition, with the documented
field table (own field or JSON text of the comment).
"""
ASSUME = ['the JSON text of a comment, if there is one, was written by this '
          'package: it holds no other keys than the documented entries']
TEXT = ('station_latitude station_longitude station_elevation type phase '
        'moveout pp_latitude pp_longitude pp_depth box_pos box_length'
        ).split()


def header(b, n):
    return n in ('sh', 'network', 'station', 'location') or \
        b.op == 'fld' and b.args[1] == 'sh'


def check(K):
    for fmt in ('Q', 'q'):
        c = K.case('rf.rfstream.RFStream.write', 'c02.write',
                   args={'format': fmt}, mode='[format=%s]' % fmt)
        c.keep = ('json.loads',)
        c.fields('Q header', lambda b, n: n == 'sh' or header(b, n) and
                 b.args[1] == 'sh')
        c.stores('station code while writing',
                 lambda e: e.name == 'station', around='super.write',
                 only='missing')
    for fmt in ('Q', 'q'):
        c = K.case('spec.c02.drive_read', 'c02.read', args={'fmt': fmt},
                   types={'self': 'rf.rfstream.RFTrace'}, jsonkeys=TEXT,
                   mode='[format=%s]' % fmt)
        c.keep = ('json.loads',)
        c.fields('metadata after reading', lambda b, n: b.op == 'fld' and
                 b.args[1] == 'stats')
        c.ret('entries of the comment')
