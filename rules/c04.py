"""
C04: names of the files of the batch tool against literal patterns.

For each format and kind of result the calls that make directories and write
files have to be those of the reference, which uses its own patterns: the
values of all placeholders, the trace or stream written, the arguments of
the writer and the order of making a directory and writing.  Reading is
compared in the same way, and records which cannot be read are skipped.
"""
from sa.terms import const

STREAM = {'stream': 'rf.rfstream.RFStream'}
TRACE = 'rf.rfstream.RFTrace'
OPAQUE = ('rf.rfstream.RFStream.write', 'rf.rfstream.RFTrace.write',
          'rf.util.iter_event_metadata', 'rf.rfstream.read_rf')
TYPES = {'rf.rfstream.read_rf': 'rf.rfstream.RFStream',
         'rf.util.iter_event_metadata[]': 'dict'}
READ = ('rf.rfstream.read_rf',)
WRITE = ('os.makedirs', 'rf.rfstream.RFStream.write',
         'rf.rfstream.RFTrace.write', '.write')


def check(K):
    n = 0
    for format_ in ('Q', 'SAC', 'H5', 'q', 'sac', 'h5'):
        for type_ in ('', None, 'stack', 'profile'):
            args = {'format': const(format_)}
            if type_ != '':
                args['type'] = const(type_)
            fn = 'write' if type_ == '' else 'write_type'
            c = K.case('spec.c04.' + fn, 'c04.%s_ref' % fn, args=args,
                       types=STREAM, opaque=OPAQUE,
                       mode='[%s %s]' % (format_, type_))
            c.calls('files', *WRITE)
            c.order('directory before file', *WRITE)
            n += 1
    for format_ in ('Q', 'SAC', 'H5'):
        for traces in (False, True):
            c = K.case('spec.c04.read', 'c04.read_ref', args={
                'format': const(format_), 'yield_traces': const(traces)},
                opaque=OPAQUE, mode='[%s %s]' % (format_, traces),
                keep=READ, atypes=TYPES)
            c.calls('files read', 'rf.rfstream.read_rf')
            c.yields('records')
            c.returns('skipped')
            n += 1
        c = K.case('spec.c04.profile', 'c04.profile_ref', args={
            'format': const(format_)}, opaque=OPAQUE,
            atypes=TYPES,
            mode='[%s]' % format_)
        c.calls('profile read', 'rf.rfstream.read_rf')
        n += 1
    K.floor('formats', n, 33)
