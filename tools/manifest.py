#!/usr/bin/env python3
"""(Re)generate MANIFEST.json from the rules present in rules/."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C36': 'numerical recovery of spikes depends on floating point values, '
           'filter shape and regularisation; no static argument bounds it',
    'C37': 'accuracy of travel times, distances and coordinates is a numeric '
           'property of external solvers (TauP, geographiclib)',
    'C38': 'precision of header values after a write-read cycle is decided '
           'inside the external file format plugins of ObsPy',
    'C39': 'optimality of the least-squares solution is a numeric property '
           'of numpy.linalg.lstsq on run-time data',
    'C40': 'the accuracy of corrected arrival times is a numeric result of '
           'interpolation on run-time velocity models (the mapping of times '
           'itself is decided by C44)',
}
TECH = ('static analysis: gated value-dependence analysis (abstract '
        'interpretation of the syntax tree with joins, no path enumeration, '
        'no execution) compared with a reference specification')


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(HERE, 'rules', i.lower() + '.py')
        if os.path.exists(f):
            tree = ast.parse(open(f).read())
            tech = TECH
            for n in tree.body:
                if isinstance(n, ast.Assign) and \
                        ast.unparse(n.targets[0]) == 'TECHNIQUE':
                    tech = ast.literal_eval(n.value)
            checks.append({
                'property': i,
                'quick_cmd': 'python3 check.py %s quick' % i,
                'thorough_cmd': 'python3 check.py %s thorough' % i,
                'technique': tech, 'level': 'other',
                'level_note': ' '.join(ast.get_docstring(tree).split())})
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'no static check has been built for it yet')})
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; '
         'assert sys.version_info >= (3, 9)"',
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
