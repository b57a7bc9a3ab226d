"""
C32: every resource and entry point the code refers to is shipped.

Resource lookups are found in all functions of the package, their arguments
are evaluated by abstract interpretation (over all file names of a loop, and
over the callers if the name is handed in).  Each has to name a file which
exists below the package and which the packaging configuration (setup.py,
MANIFEST.in) includes.  Entry points of setup.py have to resolve to functions.
All options of the template configuration, also the suggested ones in
comments, are passed through run_commands abstractly: none of them may be
refused, neither by the batch tool nor by the functions its section is handed
to.  The same holds for the options of the command line and its commands.
"""
import ast
import fnmatch
import json
import os
import re
from sa.terms import T, const, is_const, cval, subterms
from sa.program import AnalysisError

TECHNIQUE = ('constant propagation of resource names and option names, '
             'signature and reachability analysis of option handling')
LOOKUPS = ('resource_filename', 'resource_string', 'resource_stream',
           'resource_exists')
B = 'rf.batch.'
HEAVY = (B + 'run', B + 'run_commands', B + 'write', B + 'init_data',
         B + 'iter_event_processed_data', B + '_iter_profile',
         'rf.util.iter_event_data', 'rf.profile.get_profile_boxes',
         'rf.profile.profile', 'rf.rfstream.read_rf', 'rf.rfstream.rfstats')


def check(K):
    lookups(K)
    entry_points(K)
    options(K)


# ----------------------------------------------------------------- resources
def called_name(n):
    f = n.func
    return f.attr if isinstance(f, ast.Attribute) else \
        f.id if isinstance(f, ast.Name) else ''


def own(fi):
    return [n for n in ast.walk(fi.node) if isinstance(n, ast.Call)]


def local_names(m):
    """names a module uses for the lookup functions"""
    names = set(LOOKUPS)
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name in LOOKUPS and a.asname:
                    names.add(a.asname)
    return names


def variants(fi):
    """arguments for which loops over file names are written out"""
    if fi.qual == B + 'run':
        return [{'command': const('create'), 'tutorial': const(t)}
                for t in (True, False)]
    return [{}]


def lookups(K):
    found, todo, seen = {}, [], set()
    for fi in K.P.own_functions():
        names = local_names(fi.module)
        if any(called_name(n) in names for n in own(fi)):
            todo.append((fi, 0))
    n = 0
    while todo:
        fi, depth = todo.pop()
        if fi.qual in seen:
            continue
        seen.add(fi.qual)
        openarg = False
        for args in variants(fi):
            A, r = K.run(fi, args=args,
                         opaque=[q for q in HEAVY if q != fi.qual])
            for e in r.events:
                if e.kind != 'call' or not isinstance(e.name, str) or \
                        e.name.split('.')[-1] not in LOOKUPS or \
                        not A.feasible(e.pc):
                    continue
                n += 1
                kw = dict(e.kw)
                a = list(e.args) + [None] * 2
                pkg = kw.get('package', kw.get('package_or_requirement',
                                               a[0]))
                res = kw.get('resource', kw.get('resource_name', a[1]))
                if pkg is None or res is None:
                    K.undecided('resource', 'arguments of %s' % e.where)
                    continue
                for p in cases(A, A.strip(pkg)):
                    for x in cases(A, A.strip(res)):
                        if is_const(p) and is_const(x):
                            found.setdefault((str(cval(p)), str(cval(x))), e)
                        else:
                            openarg = True
                            if depth >= 3:
                                K.undecided('resource', 'name of the '
                                            'resource at %s' % e.where)
        if openarg and depth < 3:
            up = [g for g in K.P.own_functions() if g is not fi and any(
                called_name(c) == fi.name for c in own(g))]
            if not up:
                K.undecided('resource', 'name of the resource in %s'
                            % fi.qual)
            todo += [(g, depth + 1) for g in up]
            for g in up:
                seen.discard(g.qual)
    K.floor('resource lookups', n, 4)
    pats, data = packaging(K)
    for (pkg, res), e in sorted(found.items()):
        rel = os.path.join(*(pkg.split('.') + [res]))
        K.oblige('resource %s exists' % rel)
        if not os.path.isfile(os.path.join(K.P.repo, rel)):
            K.violation('resource exists', e, 'the resource %s does not '
                        'exist' % rel)
            continue
        K.oblige('resource %s is included in the distribution' % rel)
        if not (data and any(match(rel, p) for p in pats)):
            K.violation('resource is included', e, 'the resource %s is not '
                        'included in the distribution' % rel)
    K.floor('resources', len(found), 5)


def cases(A, t):
    if t.op == 'phi':
        return [y for c, x in t.args[0] if A.feasible(c)
                for y in cases(A, A.strip(x))]
    return [t]


def packaging(K):
    """patterns of the files included"""
    pats, data = [], False
    fname = os.path.join(K.P.repo, 'MANIFEST.in')
    try:
        with open(fname) as f:
            lines = f.read().replace('\\\n', ' ').splitlines()
    except OSError:
        lines = []
    for line in lines:
        w = line.split('#')[0].split()
        if not w:
            continue
        if w[0] in ('include',):
            pats += w[1:]
        elif w[0] == 'recursive-include':
            pats += [os.path.join(w[1], '**', x) for x in w[2:]]
        elif w[0] == 'graft':
            pats += [os.path.join(x, '**', '*') for x in w[1:]]
        elif w[0] == 'global-include':
            pats += [os.path.join('**', x) for x in w[1:]]
        elif w[0] in ('exclude', 'recursive-exclude', 'prune',
                      'global-exclude'):
            K.undecided('packaging', line)
    kw, env = setup_call(K)
    for k in ('include_package_data',):
        v = value(kw.get(k), env)
        data = data or v is True
    pd = value(kw.get('package_data'), env)
    if isinstance(pd, dict):
        data = True
        for p, xs in pd.items():
            pats += [os.path.join(*(p.split('.') + [x])) for x in xs]
    return pats, data


def match(rel, pat):
    if '**' in pat:
        head, tail = pat.split('**', 1)
        return rel.startswith(head) and fnmatch.fnmatch(
            os.path.basename(rel), tail.lstrip('/'))
    return os.path.dirname(rel) == os.path.dirname(pat) and \
        fnmatch.fnmatch(os.path.basename(rel), os.path.basename(pat))


# -------------------------------------------------------------- entry points
def setup_call(K):
    fname = os.path.join(K.P.repo, 'setup.py')
    try:
        with open(fname) as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError) as ex:
        raise AnalysisError('setup.py: %s' % ex)
    env = {}
    for s in tree.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = s.value
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and called_name(n) == 'setup':
            return {k.arg: k.value for k in n.keywords}, env
    raise AnalysisError('no setup() call in setup.py')


def value(n, env):
    if isinstance(n, ast.Name) and n.id in env:
        n = env[n.id]
    try:
        return ast.literal_eval(n) if n is not None else None
    except ValueError:
        return None


def entry_points(K):
    kw, env = setup_call(K)
    ep = value(kw.get('entry_points'), env)
    if not isinstance(ep, dict):
        K.undecided('entry points', 'entry_points of setup.py')
        return
    n = 0
    for group in ep.values():
        for line in group:
            n += 1
            K.oblige('entry point %s' % line)
            name, target = [x.strip() for x in line.split('=', 1)]
            mod, _, func = target.partition(':')
            why = resolve(K, mod, func)
            if why:
                K.violation('entry point', (K.P.modules[mod], None)
                            if mod in K.P.modules else (
                                K.P.modules['rf.batch'], None),
                            'entry point %r: %s' % (line, why))
    K.floor('entry points', n, 2)


def resolve(K, mod, func):
    base = os.path.join(K.P.repo, *mod.split('.'))
    for fname in (base + '.py', os.path.join(base, '__init__.py')):
        if os.path.isfile(fname):
            break
    else:
        return 'no module %s' % mod
    with open(fname) as f:
        tree = ast.parse(f.read())
    for s in ast.walk(tree):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and \
                s.name == func and s in tree.body:
            return None
        if isinstance(s, (ast.Import, ast.ImportFrom)) and any(
                (a.asname or a.name) == func for a in s.names):
            return None
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == func for t in s.targets):
            return None
    return 'no function %s in %s' % (func, mod)


# ------------------------------------------------------------------- options
def template(K):
    """[(section or None, option, line number, commented out)]"""
    fname = os.path.join(K.P.repo, 'rf', 'example', 'conf.json')
    try:
        with open(fname) as f:
            text = f.read()
    except OSError as ex:
        raise AnalysisError('template configuration: %s' % ex)
    plain = '\n'.join(x.split('#', 1)[0] for x in text.split('\n'))
    try:
        conf = json.loads(plain)
    except ValueError as ex:
        return None, 'does not parse: %s' % ex
    out, depth, section = [], 0, None
    for no, line in enumerate(text.split('\n'), 1):
        code = line.split('#', 1)[0]
        m = re.match(r'\s*#\s*"(\w+)"\s*:', line)
        if m and depth:
            out.append((section if depth > 1 else None, m.group(1), no,
                        True))
            continue
        m = re.match(r'\s*"(\w+)"\s*:', code)
        if m and depth == 1:
            section = m.group(1)
        depth += code.count('{') - code.count('}')
    for k, v in conf.items():
        out.append((None, k, 0, False))
        if isinstance(v, dict):
            out += [(k, x, 0, False) for x in v]
    return out, None


def options(K):
    tool = K.P.function(B + 'run_commands')
    entry = K.P.function(B + 'run')
    opts, err = template(K)
    K.oblige('template configuration parses')
    if err:
        K.violation('template configuration', (tool.module, tool.node),
                    'rf/example/conf.json %s' % err)
        return
    top = sorted({k for s, k, no, c in opts if s is None})
    K.floor('options of the template', len(top), 8)
    K.floor('options in sections of the template',
            len([1 for o in opts if o[0]]), 8)
    allowed = set(refused(K, tool, {}, None))
    for k in top:
        K.oblige('option %s is accepted' % k)
        why = accept(K, entry, tool, k, allowed)
        if why:
            K.violation('option is accepted', why[1] or
                        (tool.module, tool.node),
                        'the option %r of the template configuration is '
                        'refused: %s' % (k, why[0]))
    # options of sections
    sections = sorted({s for s, k, no, c in opts if s})
    users = consumers(K, tool, [k for k in top
                                if k not in tool.params + tool.kwonly])
    for s in sections:
        keys = sorted({k for x, k, no, c in opts if x == s})
        for k in keys:
            targets = users.get(s)
            if not targets:
                continue
            K.oblige('option %s of %s is accepted' % (k, s))
            bad = [f for f, e in targets
                   if takes(K, f, k, set()) is False]
            if bad and len(bad) == len(targets):
                K.violation(
                    'option is accepted',
                    'rf/example/conf.json:%s.%s' % (s, k), 'the option %r in '
                    'section %r of the template configuration is refused by '
                    '%s' % (k, s, ', '.join(sorted({f.qual for f in bad}))))
    K.floor('sections which are used', len([s for s in sections
                                            if users.get(s)]), 2)
    command_line(K, entry, tool, allowed)


def refused(K, tool, kw, command):
    """raise statements which can be reached"""
    args = {'command': const(command or 'stack'),
            'commands': T('tuple')}
    if tool.kwarg:
        args[tool.kwarg] = {k: T('sym', 'option_' + k) for k in kw}
    A, r = K.run(tool, args=args, opaque=[q for q in HEAVY
                                          if q != tool.qual])
    return {id(e.node): e for e in r.events
            if e.kind in ('raise', 'badcall') and A.feasible(e.pc)}


def accept(K, entry, tool, k, allowed):
    if k in entry.params + entry.kwonly:
        return ('%s is an argument of %s' % (k, entry.qual), None)
    if k in tool.params + tool.kwonly:
        return None
    if not tool.kwarg:
        return ('%s has no argument %s' % (tool.qual, k), None)
    for n, e in refused(K, tool, [k], None).items():
        if n not in allowed:
            return ('%s raises %s' % (tool.qual, e.name), e)
    return None


def consumers(K, tool, keys):
    """functions which get the options of a section as arguments"""
    out = {}
    if not tool.kwarg:
        return out
    A, r = K.run(tool, args={tool.kwarg: {
        k: T('sym', 'option_' + k) for k in keys}},
        opaque=[q for q in HEAVY if q != tool.qual])
    def add(k, fi, where):
        if fi is not None and k in keys and \
                not any(f is fi for f, _ in out.get(k, ())):
            out.setdefault(k, []).append((fi, where))

    for e in r.events:
        if e.kind != 'call':
            continue
        for name, v in e.kw:
            for x in subterms(v):
                if x.op == 'sym' and \
                        str(x.args[0]).startswith('option_'):
                    if name is None or any(
                            y.op in ('item', 'fld') and y.args[0] is x and
                            y.args[1] in (name, const(name))
                            for y in subterms(v)):
                        add(str(x.args[0])[7:], target(K, e), e)
    for g in K.P.own_functions():
        if g.module is not tool.module:
            continue
        for n in own(g):
            for c in n.keywords:
                if c.arg is None and isinstance(c.value, ast.Subscript) and \
                        isinstance(c.value.slice, ast.Constant):
                    for f in K.P.own_functions():
                        if f.name == called_name(n) and (
                                isinstance(n.func, ast.Attribute) or
                                f.cls is None):
                            add(c.value.slice.value, f, (g.module, n))
    return out


def target(K, e):
    n = e.name if isinstance(e.name, str) else ''
    if n in K.P.functions:
        return K.P.functions[n]
    if n.startswith('.'):
        return K.P.functions.get('rf.rfstream.RFStream' + n)
    return None


def takes(K, fi, k, seen):
    """True, False or None (not known): argument k is accepted"""
    if k in fi.params + fi.kwonly:
        return True
    if not fi.kwarg:
        return False
    if fi.qual in seen:
        return False
    seen = seen | {fi.qual}
    handed = []
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call) and any(
                c.arg is None and isinstance(c.value, ast.Name) and
                c.value.id == fi.kwarg for c in n.keywords):
            handed.append(n)
        elif isinstance(n, ast.Constant) and n.value == k:
            return None                 # looked at by name
    rs = []
    for n in handed:
        name = called_name(n)
        # a function given by its name: any of that name
        gs = [g for g in K.P.own_functions() if g.name == name]
        if not gs or name in ('filter', 'trim', 'slice', 'write', 'func'):
            rs.append(None if name != 'func' else False)
        rs += [takes(K, g, k, seen) for g in gs]
    if not rs:
        return None
    return True if True in rs else None if None in rs else False


def command_line(K, entry, tool, allowed):
    cli = K.P.functions.get(B + 'run_cli') or next(
        (f for f in K.P.own_functions() if f.module is tool.module and any(
            called_name(n) == 'ArgumentParser' for n in own(f))), None)
    if cli is None:
        K.undecided('command line', 'no argument parser found')
        return
    A, r = K.run(cli, opaque=[B + 'run'])
    n, commands = 0, []
    for e in r.events:
        if e.kind != 'call' or not isinstance(e.name, str):
            continue
        name = e.name.split('.')[-1]
        kw = dict((k, A.strip(v)) for k, v in e.kw if k is not None)
        args = [A.strip(a) for a in e.args]
        if name == 'add_parser' and args and is_const(args[0]):
            commands.append((cval(args[0]), e))
        if name != 'add_argument':
            continue
        if not all(is_const(a) for a in args) or not args:
            K.undecided('command line', 'argument at %s' % e.where)
            continue
        if 'action' in kw and is_const(kw['action']) and \
                cval(kw['action']) in ('version', 'help'):
            continue
        n += 1
        flags = [str(cval(a)) for a in args]
        long_ = [f for f in flags if f.startswith('--')]
        dest = cval(kw['dest']) if 'dest' in kw and is_const(kw['dest']) \
            else (long_ or flags)[0].lstrip('-').replace('-', '_')
        K.oblige('argument %s is accepted' % dest)
        if dest in entry.params + entry.kwonly:
            continue
        why = accept(K, entry, tool, dest, allowed)
        if why:
            K.violation('argument is accepted', e, 'the command line '
                        'argument %r is refused: %s' % (dest, why[0]))
    K.floor('arguments of the command line', n, 15)
    for c, e in commands:
        if c == 'create':
            continue
        K.oblige('command %s is known' % c)
        for k, x in refused(K, tool, [], c).items():
            if x.name == 'NotImplementedError':
                K.violation('command is known', e, 'the command %r is '
                            'refused: %s raises %s' % (c, tool.qual, x.name))
    K.floor('commands', len(commands), 8)
