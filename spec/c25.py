"""
C25: options of the batch tool.
"""
import argparse
from argparse import SUPPRESS
import json
import os
import shutil

from pkg_resources import resource_filename
from rf import __version__, batch
from rf.batch import ParseError, run_commands

PAIRS = ('events', 'inventory', 'data', 'phase', 'moveout-phase', 'format',
         'client-options', 'options', 'rf', 'moveout', 'boxbins', 'boxes',
         'profile', 'plot', 'plot-profile')


class Decoder(json.JSONDecoder):

    def decode(self, s):
        lines = []
        for line in s.split('\n'):
            lines.append(line.split('#', 1)[0])
        return super().decode('\n'.join(lines))


def decode(text):
    return json.loads(text, cls=batch.ConfigJSONDecoder)


def decode_ref(text):
    return json.loads(text, cls=Decoder)


# --------------------------------------------------------------- rejected
def unknown(command, name, value, path_in, path_out):
    run_commands(command, path_in=path_in, path_out=path_out,
                 **{name: value})


def unknown_ref(command, name, value, path_in, path_out):
    raise ParseError(name)


def chain(command, commands, events, inventory, path_in, path_out):
    run_commands(command, commands=commands, events=events,
                 inventory=inventory, path_in=path_in, path_out=path_out)


def chain_ref(command, commands, events, inventory, path_in, path_out):
    raise ParseError(commands)


# ---------------------------------------------------------- configuration
def plain(command, conf, phase, objects, path_in, path_out):
    if command == 'print':
        batch.run(command, conf, objects=objects)
    else:
        batch.run(command, conf, phase=phase, path_in=path_in,
                  path_out=path_out)


def plain_ref(command, conf, phase, objects, path_in, path_out):
    if command == 'print':
        given = {'objects': objects}
    else:
        given = {'phase': phase, 'path_in': path_in, 'path_out': path_out}
    if conf in ('None', 'none', 'null', ''):
        conf = None
    if command == 'print' and objects[0] not in ('stations', 'events'):
        conf = None
    if not conf:
        run_commands(command, **given)
        return
    try:
        with open(conf) as f:
            options = json.load(f, cls=batch.ConfigJSONDecoder)
    except ValueError as ex:
        print(ex)
        return
    except IOError as ex:
        print(ex)
        return
    options.update(given)
    run_commands(command, **options)


def create(conf, tutorial):
    batch.run('create', conf, tutorial)


def create_ref(conf, tutorial):
    if conf is None:
        conf = 'conf.json'
    shutil.copyfile(resource_filename('rf', 'example/conf.json'), conf)
    if tutorial:
        for name in ('example_events.xml', 'example_inventory.xml',
                     'example_data.mseed'):
            shutil.copyfile(resource_filename('rf', 'example/' + name),
                            os.path.join(os.path.dirname(conf), name))


# ------------------------------------------------------------ command line
def cli(args):
    return batch.run_cli(args)


def cli_ref(args):
    p = argparse.ArgumentParser()
    p.add_argument('-v', '--version', action='version',
                   version='%(prog)s ' + __version__)
    p.add_argument('-c', '--conf', default='conf.json')
    sub = p.add_subparsers(dest='command')
    create = sub.add_parser('create')
    data = sub.add_parser('data')
    calc = sub.add_parser('calc')
    moveout = sub.add_parser('moveout')
    stack = sub.add_parser('stack')
    profile = sub.add_parser('profile')
    convert = sub.add_parser('convert')
    print_ = sub.add_parser('print')
    plot = sub.add_parser('plot')
    plot_profile = sub.add_parser('plot-profile')
    create.add_argument('-t', '--tutorial', action='store_true')
    data.add_argument('commands', nargs='*', choices=('calc', 'moveout'),
                      default='moveout')
    calc.add_argument('commands', nargs='*', choices=('moveout',),
                      default='moveout')
    print_.add_argument('objects', nargs='+')
    for x in (calc, moveout, stack, profile, convert, plot, plot_profile):
        x.add_argument('path_in')
        x.add_argument('path_out')
    data.add_argument('path_out')
    convert.add_argument('newformat')
    g = p.add_argument_group()
    for name in PAIRS:
        g.add_argument('--' + name, default=SUPPRESS)
    args = vars(p.parse_args(args))
    if args.get('commands') == 'moveout':
        args['commands'] = []
    try:
        batch.run(**args)
    except ParseError as ex:
        p.error(ex)
