"""
C25: options given to the batch tool against a reference.

Configurations with an unknown option or a command given twice end in the
same error as the reference, before anything is done.  `run` is compared
with a reference which reads the configuration, overrides it by the given
options and passes all of them on.  The decoder of the configuration, the
definition of the command line and what is done with its result are compared
with references, too.  The way of each option from run_commands to the
operation which uses it is compared for every command (as for C26).
"""
from sa.terms import T, const, is_str, cval
from rules import c26
from rules.c20 import consts

GROUPS = ('client_options', 'options', 'rf', 'moveout', 'boxbins', 'boxes',
          'profile', 'plot', 'plot_profile')
COMMANDS = ('data', 'calc', 'moveout', 'stack', 'profile', 'convert',
            'print', 'plot', 'plot-profile')
TWICE = [('data', ('calc', 'calc')), ('data', ('moveout', 'moveout')),
         ('data', ('calc', 'moveout', 'calc')),
         ('data', ('moveout', 'calc', 'moveout')),
         ('calc', ('moveout', 'moveout')),
         ('calc', ('moveout', 'moveout', 'moveout'))]
ERROR = ('rf.batch.ParseError',)
DONE = c26.OPAQUE + c26.METHODS + ('obspy.read_events', 'open',
                                   'obspy.read_inventory')


def check(K):
    rejected(K)
    configuration(K)
    decoder(K)
    command_line(K)
    routing(K)


def rejected(K):
    n = 0
    for command in COMMANDS:
        for name in (
                'wrong', 'rf_options', 'Rf', 'RF', '_rf', 'rf_', 'rf ', '',
                'moveout-phase', 'filter', 'boxbin', 'plot-profile', 'bins',
                'event', 'path', 'tutorial', 'conf'):
            c = K.case('spec.c25.unknown', 'c25.unknown_ref', args={
                'command': const(command), 'name': const(name)},
                opaque=c26.OPAQUE, mode='[%s %s]' % (command, name))
            c.raises('unknown option', ERROR, merge=False)
            c.calls('nothing done', *DONE, allow_none=True)
            n += 1
    for command, chain in TWICE:
        c = K.case('spec.c25.chain', 'c25.chain_ref', args={
            'command': const(command), 'commands': consts(chain)},
            types=c26.TYPES, symtypes=c26.SYMTYPES, atypes=c26.ITEMS,
            opaque=c26.OPAQUE, mode='[%s %s]' % (command, chain))
        c.raises('command given twice', ERROR, merge=False)
        c.calls('nothing done', *DONE, allow_none=True)
        n += 1
    K.floor('rejected', n, 51)


def configuration(K):
    n = 0
    for command in COMMANDS:
        for conf in (T('sym', 'conf'), const(None), const('None'),
                     const('none'), const('null'), const(''),
                     const('conf.json')):
            for objects in (('events',), ('stations',), ('a.QHD', 'b.QHD')):
                if command != 'print' and objects != ('events',):
                    continue
                c = K.case('spec.c25.plain', 'c25.plain_ref', args={
                    'command': const(command), 'conf': conf,
                    'objects': consts(objects)},
                    opaque=('rf.batch.run_commands',),
                    mode='[%s %s %d]' % (command, conf.args[0], n))
                c.keep = ('open', 'json.load')
                c.calls('configuration', 'open', 'json.load',
                        allow_none=True)
                c.calls('options passed on', 'rf.batch.run_commands')
                c.returns('configuration')
                n += 1
    for conf in (T('sym', 'conf'), const(None)):
        for tutorial in (True, False):
            c = K.case('spec.c25.create', 'c25.create_ref', args={
                'conf': conf, 'tutorial': const(tutorial)},
                opaque=('rf.batch.run_commands',),
                mode='[%s %s]' % (conf.args[0], tutorial))
            c.calls('example files', 'shutil.copyfile',
                    'rf.batch.run_commands')
            n += 1
    K.floor('configurations', n, 70)


def decoder(K):
    c = K.case('rf.batch.ConfigJSONDecoder.decode', 'c25.Decoder.decode')
    c.ret('comments')


def command_line(K):
    c = K.case('rf.batch.run_cli', 'c25.cli_ref', opaque=('rf.batch.run',))
    c.keep = ('rf.batch.run',)
    c.calls('arguments', '.add_argument')
    c.calls('commands', '.add_parser', '.add_subparsers', '.parse_args')
    c.calls('run', 'rf.batch.run')
    c.calls('errors', '.error')


def routing(K):
    n = 0
    ev, inv = c26.TABLES[0]
    for command, chain in c26.CHAINS:
        for fn in ('run', 'bare'):
            c = c26.case(K, fn, ' '.join((command,) + chain), {
                'command': const(command), 'commands': consts(chain),
                'events': ev, 'inventory': inv}, 0)
            c.calls('options used', *(c26.OPAQUE + c26.METHODS))
            n += 1
    K.floor('routing', n, 26)
