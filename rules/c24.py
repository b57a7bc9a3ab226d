"""
C24: event data retrieval.

Value-dependence analysis of iter_event_data for one and two symbolic events
and inventories with one to four channels (several stations, locations and
component orders): which records are requested (identifiers, start, end), how
they are prepared (trim, merge), which errors of a request skip this record
only, and which streams are yielded, with the metadata of their event and
station, are compared with a reference written from the statement.  The data
source built by the batch tool (files, plugin, web service) is compared with
a reference, too, an error of the source included.
"""
from sa.terms import T, const
from rules.c20 import syms
from sa.bdd import TRUE

CHANNELS = ('N.S1..BHZ', 'N.S1..BHN', 'N.S2.00.HHZ', 'N.S1..BHE')


def contents(channels):
    def oracle(name, recv, args, kw):
        if name == 'get_contents':
            return T('dict', (('channels', TRUE, T('tuple', *[
                const(c) for c in channels])),))
    return oracle


def check(K):
    for fn, n, channels in (
            ('headers', 1, CHANNELS[2:3]), ('records', 2, CHANNELS),
            ('default', 2, CHANNELS),
            ('default', 1, CHANNELS[:2])
    ):
        c = K.case('spec.c24.' + fn, 'c24.%s_ref' % fn, args=dict(
            events=syms('event', n)),
                   opaque=('rf.rfstream.rfstats',),
                   calltypes={'get_waveforms': 'Stream'},
                   oracle=contents(channels),
                   symtypes={'event0': 'Event', 'event1': 'Event'})
        c.keep = ('rf.rfstream.rfstats', '.get_coordinates', 'get_waveforms')
        if channels:
            c.yields('streams')
            c.calls('requests', 'get_waveforms')
            c.calls('preparation', '.trim', '.merge')
    c = K.case('spec.c24.source', 'c24.source_ref',
               opaque=('rf.batch.load_func',), types={'data': 'str'})
    c.keep = ('*',)
    c.ret('data source')
    c.calls('requests', '*get_waveforms*', '*.slice', '*.select',
            '*import_module', '*Client*')
    c.returns('failing source')
