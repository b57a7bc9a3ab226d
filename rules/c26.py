"""
C26: actions of the batch commands.

Value-dependence and ordering analysis of run_commands for every command and
every allowed chain of commands: the operations called for each record, their
arguments, the conditions and loops they happen under and their order are
compared with references written from the documentation, one per command.
The tables read (events, inventory) for names, pairs of name and format, and
objects, and what happens when they cannot be read, are compared as well.
"""
from sa.terms import T, const
from rules.c20 import consts

OPAQUE = ('rf.batch.write', 'rf.batch.init_data',
          'rf.batch.iter_event_processed_data', 'rf.util.iter_event_data',
          'rf.rfstream.RFStream.rf', 'rf.rfstream.RFStream.moveout',
          'rf.rfstream.RFStream.stack', 'rf.profile.profile',
          'rf.profile.get_profile_boxes',
          'rf.rfstream.RFStream.plot_rf', 'rf.rfstream.RFStream.plot_profile',
          'rf.rfstream.read_rf')
METHODS = ('.rf', '.moveout', '.stack', '.plot_rf', '.plot_profile', '.sort',
           '.select')
STEPS = ('*.rf', '*.moveout', '*.stack', '*.write', '*.plot_rf',
         '*.plot_profile', 'os.makedirs', '.sort')
READS = ('obspy.read_events', 'obspy.read_inventory', 'rf.batch.init_data')
CHAINS = [('data', ()), ('data', ('calc',)), ('data', ('moveout',)),
          ('data', ('calc', 'moveout')), ('data', ('moveout', 'calc')),
          ('calc', ()), ('calc', ('moveout',)), ('moveout', ()),
          ('stack', ()), ('profile', ()), ('convert', ()), ('plot', ()),
          ('plot-profile', ())]


def pair(name):
    return T('tuple', const(name), T('sym', 'format_'))


TABLES = [(T('sym', 'events'), T('sym', 'inventory')),
          (const('events.xml'), const('inventory.xml')),
          (pair('events.xml'), pair('inventory.xml')),
          (T('list', *[T('one', T('sym', 'event%d' % i)) for i in range(3)]),
           T('sym', 'inventory')),
          (T('list', T('one', const('events.xml')), T('one', const('QML'))),
           T('list', T('one', const('inventory')), T('one', const('FSX'))))]
TYPES = {'events': 'obspy.Catalog', 'inventory': 'obspy.Inventory'}
ITEMS = {name + '[]': 'rf.rfstream.RFStream' for name in (
    'rf.batch.iter_event_processed_data', 'rf.util.iter_event_data')}
ITEMS['rf.rfstream.read_rf'] = 'rf.rfstream.RFStream'
SYMTYPES = dict(TYPES, **{'event%d' % i: 'Event' for i in range(3)})
SYMTYPES[T('item', T('sym', 'events'), const(0))] = 'Event'


def check(K):
    n = 0
    for i, (ev, inv) in enumerate(TABLES):
        for command, chain in CHAINS[3:4] if i else CHAINS:
            for fn in ('run', 'bare'):
                c = case(K, fn, ' '.join((command,) + chain), {
                    'command': const(command), 'commands': consts(chain),
                    'events': ev, 'inventory': inv}, i)
                c.calls('operations', *(OPAQUE + METHODS + ('os.makedirs',)))
                c.order('order of operations', *STEPS)
                n += 1
    for objects in (('events',), ('stations',), ('a.QHD', 'b.QHD')):
        for i, (ev, inv) in enumerate(TABLES):
            c = case(K, 'bare', 'print %s' % objects[0], {
                'command': const('print'), 'objects': consts(objects),
                'events': ev, 'inventory': inv}, i)
            c.calls('printed', 'builtins.print', 'print', *OPAQUE,
                    allow_none=True)
            n += 1
    K.floor('commands', n, 40)


def case(K, fn, label, args, i):
    c = K.case('spec.c26.' + fn, 'c26.%s_ref' % fn, args=args, opaque=OPAQUE,
               types=TYPES, symtypes=SYMTYPES, atypes=ITEMS, mode='[%s %d]' % (label, i))
    c.keep = READS
    c.calls('tables', *READS, allow_none=True)
    c.returns('missing input')
    return c
