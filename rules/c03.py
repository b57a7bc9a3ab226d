"""
Typestate analysis with exceptional exits: every call in RFStream.write (for
each format) and in each function that touches sys.path or obspyh5 may raise.
At the normal exit and at every exceptional exit the station code of a generic
trace, the HDF5 index and the module search path must have the value they had
on entry.
"""
import ast

from sa import terms as tm
from sa.bdd import TRUE
from sa.compare import Cmp
from sa.terms import T

ASSUME = ['every call leaving the package may raise, except putting back the '
          'HDF5 index that was read before and attribute access on metadata',
          'asynchronous interrupts between two statements are not modelled']
INDEX = T('ext', 'obspyh5')
SYS = T('ext', 'sys')


def mentions(fi):
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Attribute) and n.attr == 'path' and \
                isinstance(n.value, ast.Name) and n.value.id == 'sys':
            return True
        if isinstance(n, (ast.Import, ast.ImportFrom)) and 'obspyh5' in \
                ast.dump(n):
            return True
    return False


def check(K):
    jobs = [('rf.rfstream.RFStream.write', {'format': f})
            for f in ('H5', 'Q', 'SAC', 'h5', 'q')]
    jobs.append(('rf.rfstream.RFStream.write', {}))
    skip = {'rf.rfstream.RFStream.write'}
    for fi in K.P.own_functions():
        if fi.qual not in skip and mentions(fi):
            jobs.append((fi, {}))
    n = 0
    for q, args in jobs:
        A, r = K.run(q, args=args, exits=True,
                     mode='[%s]' % args.get('format', 'any'))
        name = q if isinstance(q, str) else q.qual
        cmp = Cmp(A)
        outs = [(r.state, 'normal')] + [(s, 'exceptional')
                                        for s, e in r.exits]
        for st, kind in outs:
            if st is None:
                continue
            A.st = st
            for (b, f), v in sorted(st.store.items(),
                                    key=lambda kv: (kv[0][0].id, kv[0][1])):
                if f == 'station' and b.op != 'ref':
                    old = T('fld', b, 'station')
                    what = 'station code of %s' % tm.show(b)[:80]
                elif (b, f) == (INDEX, '_INDEX'):
                    old = T('ext', 'obspyh5._INDEX')
                    what = 'HDF5 index'
                elif (b, f) == (SYS, 'path'):
                    p = T('ext', 'sys.path')
                    old = T('list', T('each', (p,), TRUE,
                                      T('item', p, T('idx', p, 0))))
                    what = 'module search path'
                else:
                    continue
                n += 1
                K.oblige('%s at %s exit of %s' % (what, kind, name))
                now = A.snap(A.simp(v, st.pc))
                ok = A.bdd.neg(A.bdd.and_(st.pc, A.bdd.neg(
                    cmp.agree(cmp.norm(now), cmp.norm(old)))))
                if A.feasible(A.bdd.neg(ok)):
                    bad = cmp.open_ops(now)
                    msg = '%s is %s at the %s exit of %s when %s' % (
                        what, tm.show(now)[:200], kind, name, A.bdd.show(
                            A.bdd.neg(ok), tm.show)[:300])
                    if bad or A.unsupported:
                        K.undecided('state restored', msg)
                    else:
                        where = None
                        for e in r.events:
                            if e.kind in ('store', 'call', 'mutate') and (
                                    e.name == f or f == 'path' and
                                    str(e.name) in ('append', 'insert') or
                                    f == '_INDEX' and
                                    e.name == 'obspyh5.set_index'):
                                where = e
                                break
                        K.violation('state restored', where, msg)
    K.floor('exits with temporarily changed state', n, 20)
