#!/usr/bin/env python3
"""Run checks on changed copies of the package (development aid).

usage: mutate.py [-a] [PATTERN...]   entries of mutants/*.txt whose label
matches; -a: run all checks on each entry, not only those named in it.

Entry format:
    ### bug C01,C02 label        (or: ### same - label)
    file rfstream.py
    <<<<
    old text
    ====
    new text
    >>>>
"""
import concurrent.futures as cf
import fnmatch
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = sorted(os.path.basename(f)[:-3].upper()
             for f in glob.glob(os.path.join(HERE, 'rules', 'c*.py')))


def entries():
    for f in sorted(glob.glob(os.path.join(HERE, 'mutants', '*.txt'))):
        cur = None
        mode = None
        for line in open(f):
            l = line.rstrip('\n')
            if mode is None and l.startswith('### '):
                kind, props, label = l[4:].split(' ', 2)
                cur = {'kind': kind, 'props': props, 'label': label,
                       'edits': [], 'src': os.path.basename(f)}
                yield cur
            elif mode is None and l.startswith('file '):
                name = l[5:].strip()
            elif mode is None and l == '<<<<':
                mode, old, new = 'old', [], []
            elif mode == 'old' and l == '====':
                mode = 'new'
            elif mode == 'new' and l == '>>>>':
                mode = None
                cur['edits'].append((name, '\n'.join(old), '\n'.join(new)))
            elif mode == 'old':
                old.append(l)
            elif mode == 'new':
                new.append(l)


def run(job, keep=None):
    e, ids = job
    d = keep or tempfile.mkdtemp(prefix='mutant')
    r = d + '/repo'
    out = []
    try:
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns(
            '.git', '*.pyc', 'docs'))
        for name, old, new in e['edits']:
            p = os.path.join(r, 'rf', name)
            s = open(p).read()
            if s.count(old) != 1:
                return e, [('?', 3, 'text found %d times: %s' % (
                    s.count(old), old[:80]))]
            open(p, 'w').write(s.replace(old, new))
            c = subprocess.run([sys.executable, '-m', 'py_compile', p],
                               capture_output=True, text=True)
            if c.returncode:
                return e, [('?', 3, c.stderr[-300:])]
        for i in ids:
            try:
                x = subprocess.run(
                    [sys.executable, os.path.join(HERE, 'check.py'), i],
                    env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=d,
                             VERIF_STRICT='1'),
                    capture_output=True, text=True, timeout=900)
                out.append((i, x.returncode, x.stdout + x.stderr[-1500:]))
            except subprocess.TimeoutExpired:
                out.append((i, 9, 'timeout'))
    finally:
        if keep is None:
            shutil.rmtree(d)
    return e, out


def main():
    args = sys.argv[1:]
    every = '-a' in args
    verbose = '-v' in args
    pats = [a for a in args if a[0] != '-']
    if args and args[0] == '-k':     # keep the changed copy: -k DIR LABEL
        shutil.rmtree(args[1], ignore_errors=True)
        os.makedirs(args[1])
        for e in list(entries()):
            if fnmatch.fnmatch(e['label'], args[2]):
                print(run((e, ()), keep=args[1]))
                return
    jobs = []
    for e in list(entries()):
        if pats and not any(fnmatch.fnmatch(e['label'], p) or p == e['src']
                            or p in e['props'].split(',') for p in pats):
            continue
        ids = ALL if every or e['props'] == '-' else e['props'].split(',')
        ids = [i for i in ids if i in ALL]
        if ids:
            jobs.append((e, ids))
    bad = count = 0
    with cf.ProcessPoolExecutor(8) as ex:
        for e, out in ex.map(run, jobs):
            named = e['props'].split(',')
            for i, rc, txt in out:
                if e['kind'] == 'bug' and i in named and rc != 1 or \
                        e['kind'] == 'same' and rc != 0 or rc not in (0, 1):
                    bad += 1
                    print('!! %s %s: %s rc %d\n%s' % (
                        e['kind'], e['label'], i, rc, txt[-1200:]))
                elif verbose:
                    print('ok %s %s: %s rc %d\n%s' % (
                        e['kind'], e['label'], i, rc,
                        txt[-700:] if rc or 'undecided' in txt else ''))
                else:
                    count += 1
                    u = [l for l in txt.split('\n')
                         if l.startswith('undecided')]
                    if u:
                        print('ok %s %s: %s rc %d (%d undecided)' % (
                            e['kind'], e['label'], i, rc, len(u)))
    print('%d ok, %d problems' % (count, bad))


if __name__ == '__main__':
    main()
