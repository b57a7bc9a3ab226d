"""
Value-dependence analysis of the formulas of SimpleModel: every result is an
algebraic normal form over layer velocities, thicknesses, slowness and leg
counts, compared with the normal form of the documented formula, together
with the conditions of the errors about phases. The depth arrays of a model
are compared as slices of its arguments. Queries over the syntax tree of all
modules: the conversion factor has one definition and every use resolves to
it.
"""
import ast

P = 'rf.simple_model.SimpleModel.'


def check(K):
    S = {'phase': 'str'}
    c = K.case(P + 'calculate_vertical_slowness', 'c17.vertical', types=S)
    c.ret('vertical slowness')
    c = K.case(P + 'calculate_delay_times', 'c17.delay', types=S)
    c.ret('delay times')
    for ph in ('Ps', 'PpSs', 'sp', 'Spp', 'P', 's'):
        c = K.case(P + 'calculate_delay_times', 'c17.delay',
                   args={'phase': ph}, mode='[%s]' % ph)
        c.ret('delay times of ' + ph)
    c = K.case(P + 'ppoint_distance', 'c17.distance', types=S)
    c.ret('distance')
    c.raises('phases with an odd number of letters', classes=('ValueError',))
    c = K.case(P + 'stretch_delay_times', 'c17.parity', types=S,
               opaque=(P + 'calculate_delay_times',))
    c.raises('phases with an even number of letters',
             classes=('ValueError',))
    for f in ('model', 'model_n'):
        c = K.case('spec.c17.drive_' + f, 'c17.' + f, types={'n': 'array'})
        c.ret('layers')
    constants(K)


OTHER = ('degrees2kilometers', 'kilometers2degrees', 'kilometer2degrees',
         'locations2degrees')


def constants(K):
    """one conversion factor"""
    defs, uses = [], []
    for m in K.P.modules.values():
        if not m.name.startswith('rf'):
            continue
        factor = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(
                    n.op, (ast.Mult, ast.Div, ast.FloorDiv)):
                factor |= {id(n.left), id(n.right)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and \
                    type(n.value) in (int, float):
                v = n.value
                deg = 109 < v < 113.5 or 1.09e5 < v < 1.135e5
                earth = 6340 < v < 6390 or 6.34e6 < v < 6.39e6
                if (deg or earth) and (id(n) in factor or v != int(v)):
                    defs.append((m, n, ast.unparse(n)))
            elif isinstance(n, (ast.Attribute, ast.Name)):
                s = n.attr if isinstance(n, ast.Attribute) else n.id
                if s in OTHER:
                    defs.append((m, n, s))
                elif s == 'DEG2KM' and isinstance(n.ctx, ast.Load):
                    uses.append((m, n))
    K.oblige('one definition of the conversion factor')
    for m, n in uses:
        K.oblige('use of the conversion factor in line %d of %s' % (
            n.lineno, m.rel))
    for m, n, s in defs[1:]:
        K.violation('one conversion', (m, n), 'a second conversion between '
                    'degrees and kilometres (%s) besides that in line %d of '
                    '%s' % (s, defs[0][1].lineno, defs[0][0].rel))
    K.floor('definition of the conversion factor', len(defs), 1)
