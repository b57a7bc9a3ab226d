"""
Value-dependence analysis of IterMultipleComponents, seen through its iterator
and its length: the key of each group, the traces it collects, the order of
the groups and the predicate selecting groups are compared with the documented
grouping, for integers, tuples and no number of components, with and
without a metadata key.
"""
from sa.terms import T, Term, const


def check(K):
    S = {'stream': 'rf.rfstream.RFStream'}
    pair = T('tuple', const(2), const(3))
    apart = T('tuple', const(1), const(4))
    single = T('tuple', const(5))
    for name, n in (('any', None), ('three', 3), ('one', 1),
                    ('two or three', pair), ('one or four', apart),
                    ('only five', single)):
        for key in (None, 'onset', T('sym', 'key')):
            c = K.case('spec.c10.drive', 'c10.result', types=S,
                       args={'key': key, 'number': n},
                       mode='[%s components, key %s]' % (
                           name, key if not isinstance(key, Term) else 'any'))
            c.ret('groups and their number')
    c = K.case('spec.c10.drive_defaults', 'c10.defaults', types=S)
    c.ret('groups and their number')
    c = K.case('spec.c10.drive_twice', 'c10.twice', types=S)
    c.ret('repeated iteration')
