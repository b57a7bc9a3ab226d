"""
Value-dependence analysis of RFStream.rf: the final data of every trace as an
expression over filter, decimation, rotation, sign change, deconvolution and
time reversal in their order, and the final onset, type and phase, for method
P, method S and a method taken from the phase, under every combination of the
other options.
"""
from sa.terms import subterms

from rules.c08 import OPAQUE, STREAM, modes, stage, STAGES


def check(K):
    n = 0
    for q, spec, args, mode in modes():
        c = K.case(q, spec, args=args, types=STREAM, opaque=OPAQUE,
                   mode=mode)
        c.fields('data', lambda b, n: n == 'data')
        c.fields('onset and marks', lambda b, n: n in ('onset', 'type',
                                                       'phase'))
        c.stores('sign and mirroring', lambda e: e.name == 'data')
        n += order(K, c)
    K.floor('sign changes and reversals', n, 8)


def kind(e):
    if e.kind in ('store', 'inplace', 'setitem') and e.name == 'data':
        if any(t.op == 'rev' for t in subterms(e.value)):
            return 'mirror'
        return 'negate'
    return stage(e)


def order(K, c):
    """relative to the groups, which are not known to be the same traces"""
    A, bd = c.A, c.A.bdd
    evs = [(kind(e), e) for e in c.code.res.events]
    evs = [(STAGES.index(k), e) for k, e in evs if k]
    n = 0
    for i, (s, e) in enumerate(evs):
        if STAGES[s] in ('negate', 'mirror'):
            n += 1
            K.oblige('%s at %s between its neighbours' % (STAGES[s], e.loc))
        for t, f in evs[i + 1:]:
            if t < s and (STAGES[t] in ('negate', 'mirror') or
                          STAGES[s] in ('negate', 'mirror')) and \
                    A.feasible(bd.and_(e.pc, f.pc)):
                K.violation('order of sign change and mirroring', f,
                            '%s comes after %s' % (STAGES[t], STAGES[s]))
                return n
    return n
