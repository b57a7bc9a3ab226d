"""
C28: optional packages, an import and call graph analysis.

Imports are classified from the syntax tree: those run when a module is
imported and those run by a function, with or without a fallback for their
failure.  Importing the package (and the batch tool) must not import anything
but the standard library and the required packages of the core.  From the
core operations no import of an optional package may be reachable in the
call graph in which the features the package belongs to are cut out; methods
which need a package only for some argument (writing) are decided by the
path conditions of the import.  Every imported package has to be declared
in setup.py, toeplitz and tqdm need a fallback, and the failure of any other
import has to stay an ImportError.
"""
import ast
import os
import sys

TECHNIQUE = 'import graph, cut call graph and path conditions of imports'
CORE = {'decorator', 'numpy', 'scipy', 'obspy', 'pkg_resources',
        'setuptools', 'importlib_resources', 'importlib_metadata'}
PLOT = {'rf.imaging.plot_harmonics', 'rf.imaging.plot_ppoints',
        'rf.imaging.plot_profile', 'rf.imaging.plot_profile_map',
        'rf.imaging.plot_rf', 'rf.imaging.plot_stations',
        'rf.rfstream.RFStream.plot_rf', 'rf.rfstream.RFStream.plot_profile'}
BOX = {'rf.profile.get_profile_boxes', 'rf.profile.profile'}
MAPS = {'rf.imaging.plot_ppoints', 'rf.imaging.plot_stations',
        'rf.imaging.plot_profile_map'}
# package: operations which may import it
FEATURES = {
    'matplotlib': PLOT,
    'cartopy': MAPS | BOX,
    'shapely': MAPS | BOX,
    'geographiclib': {'rf.util.direct_geodetic'},
    'multitaper': {'rf.deconvolve.deconv_multitaper'},
    'toeplitz': {'rf.deconvolve.deconv_time'},
    'obspyh5': {'rf.rfstream.RFStream.write', 'rf.rfstream.read_rf'},
    'h5py': {'rf.rfstream.RFStream.write', 'rf.rfstream.read_rf'},
    'tqdm': set(),
}
FALLBACK = {'toeplitz', 'tqdm'}
ALIAS = {'pkg_resources': 'setuptools', 'importlib_resources': 'setuptools'}
ROOTS = [
    'rf.batch.init_data', 'rf.batch.iter_event_processed_data',
    'rf.batch.load_func', 'rf.batch.run', 'rf.batch.run_cli',
    'rf.batch.run_commands', 'rf.batch.write',
    'rf.deconvolve.deconv_iterative', 'rf.deconvolve.deconv_multitaper',
    'rf.deconvolve.deconv_time', 'rf.deconvolve.deconv_waterlevel',
    'rf.deconvolve.deconvolve', 'rf.harmonics.decomp_one',
    'rf.harmonics.decomp_two', 'rf.harmonics.harmonics',
    'rf.imaging.plot_harmonics', 'rf.imaging.plot_ppoints',
    'rf.imaging.plot_profile', 'rf.imaging.plot_profile_map',
    'rf.imaging.plot_rf', 'rf.imaging.plot_stations',
    'rf.profile.get_profile_boxes', 'rf.profile.profile',
    'rf.rfstream.RFStream.deconvolve', 'rf.rfstream.RFStream.harmonics',
    'rf.rfstream.RFStream.method', 'rf.rfstream.RFStream.moveout',
    'rf.rfstream.RFStream.plot_profile', 'rf.rfstream.RFStream.plot_rf',
    'rf.rfstream.RFStream.ppoints', 'rf.rfstream.RFStream.profile',
    'rf.rfstream.RFStream.rf', 'rf.rfstream.RFStream.slice2',
    'rf.rfstream.RFStream.stack', 'rf.rfstream.RFStream.trim2',
    'rf.rfstream.RFStream.type', 'rf.rfstream.RFStream.write',
    'rf.rfstream.RFStream.__init__', 'rf.rfstream.RFTrace.__init__',
    'rf.rfstream.RFTrace.write', 'rf.rfstream.obj2stats',
    'rf.rfstream.read_rf', 'rf.rfstream.rfstats',
    'rf.simple_model.SimpleModel.moveout',
    'rf.simple_model.SimpleModel.ppoint',
    'rf.simple_model.SimpleModel.ppoint_distance',
    'rf.simple_model.load_model', 'rf.util.direct_geodetic',
    'rf.util.iter_event_data', 'rf.util.iter_event_metadata',
    'rf.util.minimal_example_Srf', 'rf.util.minimal_example_rf']
ERRORS = {'ImportError', 'ModuleNotFoundError', 'Exception',
          'BaseException'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


class Import:
    def __init__(self, pkg, mod, node, guard, fn, names):
        self.pkg, self.mod, self.node, self.guard = pkg, mod, node, guard
        self.fn, self.names = fn, names      # fn: FunctionInfo or None


def owner(P, node):
    """innermost function whose call runs the node, None: import time"""
    child = node
    while hasattr(child, '_parent'):
        up = child._parent
        if isinstance(up, FUNCS):
            body = up.body if isinstance(up.body, list) else [up.body]
            if child in body:
                return P.node_fi.get(up, up)
        child = up
    return None


def guard(node):
    """how a failing import is handled: None, 'spec', or the handler"""
    child = node
    while hasattr(child, '_parent'):
        up = child._parent
        if isinstance(up, FUNCS) and child in (
                up.body if isinstance(up.body, list) else [up.body]):
            return None
        if isinstance(up, ast.Try) and child in up.body:
            for h in up.handlers:
                ts = [h.type] if not isinstance(h.type, ast.Tuple) else \
                    h.type.elts
                if h.type is None or any(
                        ast.unparse(t).split('.')[-1] in ERRORS
                        for t in ts):
                    return h
        if isinstance(up, ast.With) and child in up.body and any(
                'suppress' in ast.unparse(i.context_expr) and
                any(e in ast.unparse(i.context_expr) for e in ERRORS)
                for i in up.items):
            return 'suppress'
        if isinstance(up, ast.If) and child in up.body and \
                'find_spec' in ast.unparse(up.test):
            return 'spec'
        child = up
    return None


def absolute(mod, node):
    if not node.level:
        return node.module or ''
    base = mod.name.split('.')
    if not mod.rel.endswith('__init__.py'):
        base = base[:-1]
    base = base[:len(base) - (node.level - 1)]
    return '.'.join(base + ([node.module] if node.module else []))


def imports(K):
    for name in sorted(K.P.own):
        mod = K.P.modules[name]
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Import):
                l = [(a.name, a.asname or a.name.split('.')[0])
                     for a in node.names]
            elif isinstance(node, ast.ImportFrom):
                base = absolute(mod, node)
                l = [(base + '.' + a.name, a.asname or a.name)
                     for a in node.names]
            elif isinstance(node, ast.Call) and node.args and isinstance(
                    node.args[0], ast.Constant) and isinstance(
                        node.args[0].value, str) and ast.unparse(
                            node.func).split('.')[-1] in (
                                'import_module', '__import__'):
                l = [(node.args[0].value, None)]
            else:
                continue
            for full, bound in l:
                yield Import(full, mod, node, guard(node),
                             owner(K.P, node), bound)


def top(name):
    return name.split('.')[0]


def stdlib(pkg):
    return pkg in sys.stdlib_module_names or pkg == '__future__'


class Graph:
    def __init__(self, K):
        P = self.P = K.P
        self.K = K
        self.imports = list(imports(K))
        self.at_import = {m: [] for m in P.own}
        self.by_fn = {}
        for i in self.imports:
            if i.fn is None:
                self.at_import[i.mod.name].append(i)
            else:
                self.by_fn.setdefault(i.fn, []).append(i)
        self.methods = {}
        for fi in P.own_functions():
            if fi.cls is not None:
                self.methods.setdefault(fi.name.split('#')[0],
                                        []).append(fi)
        self.memo = {}

    def targets(self, i):
        """modules of the package an import runs"""
        name = i.pkg
        while name:
            if name in self.P.own:
                return [name]
            name = name.rpartition('.')[0]
        return []

    def closure(self, mod, seen=None):
        """external imports run when a module is imported"""
        seen = set() if seen is None else seen
        if mod in seen:
            return []
        seen.add(mod)
        out = []
        if '.' in mod:
            out += self.closure(mod.rpartition('.')[0], seen)
        for i in self.at_import[mod]:
            if top(i.pkg) == self.P.package:
                for t in self.targets(i):
                    if i.guard is None:
                        out += self.closure(t, seen)
            else:
                out.append(i)
        return out

    def edges(self, fi):
        """own functions a function refers to"""
        if fi in self.memo:
            return self.memo[fi]
        P, mod = self.P, fi.module
        out = set()
        names = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ImportFrom):
                base = absolute(mod, n)
                for a in n.names:
                    names.setdefault(a.asname or a.name, set()).add(
                        base + '.' + a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    names.setdefault(a.asname or top(a.name), set()).add(
                        a.name if a.asname else top(a.name))
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                for q in {mod.name + '.' + n.id} | names.get(n.id, set()):
                    out |= self.named(q)
            elif isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Load):
                v = ast.unparse(n.value)
                base = top(v)
                if base in names or v in names:
                    for q in names[base]:
                        out |= self.named(q + v[len(base):] + '.' + n.attr)
                up = getattr(n, '_parent', None)
                if isinstance(up, ast.Call) and up.func is n:
                    out |= set(self.methods.get(n.attr, ()))
        self.memo[fi] = out
        return out

    def named(self, q):
        P = self.P
        if q in P.functions:
            return {P.functions[q]}
        if q in P.classes:
            return {f for f in P.own_functions() if f.cls is not None and
                    f.cls.qual == q and f.name == '__init__'}
        return set()

    def reach(self, root, cut):
        """functions reachable from a root, with the path to them"""
        todo, seen = [(root, (root.qual,))], {root}
        while todo:
            f, path = todo.pop(0)
            if f.qual.split('#')[0] in cut:
                continue
            yield f, path
            for g in sorted(self.edges(f), key=lambda g: g.qual):
                if g not in seen:
                    seen.add(g)
                    todo.append((g, path + (g.qual,)))


def inner(P, fi, fn):
    """is fn the function or nested in it?"""
    node = fn.node if hasattr(fn, 'node') else fn
    while node is not None:
        if node is fi.node:
            return True
        node = getattr(node, '_parent', None)
    return False


def check(K):
    G = Graph(K)
    importing(K, G)
    declared(K, G)
    reachable(K, G)
    writing(K, G)
    failing(K, G)


def importing(K, G):
    for mod in ('rf', 'rf.batch'):
        if mod not in K.P.own:
            raise KeyError(mod)
    seen = set()
    for mod in sorted(K.P.own):
        allowed = set(CORE)
        base = mod in ('rf', 'rf.batch') or mod in loaded(G)
        if not base:
            allowed.add('matplotlib')
        for i in G.closure(mod):
            p = top(i.pkg)
            K.oblige('import of %s when %s is imported' % (i.pkg, mod))
            if stdlib(p) or p in allowed or i.guard is not None or \
                    (i.node, p) in seen:
                continue
            seen.add((i.node, p))
            K.violation('import', (i.mod, i.node), 'importing %s needs the '
                        'package %s' % (mod, p))
    K.floor('imports at import time', sum(map(len, G.at_import.values())),
            20)


def loaded(G):
    out = set()
    G.closure('rf', out)
    G.closure('rf.batch', out)
    return out


def declared(K, G):
    path = os.path.join(K.P.repo, 'setup.py')
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    consts = {}
    req, extra = None, None
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    consts[t.id] = n.value
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg in ('install_requires',
                                                    'extras_require'):
            v = n.value
            v = consts.get(v.id) if isinstance(v, ast.Name) else v
            try:
                v = ast.literal_eval(v)
            except (ValueError, TypeError):
                v = None
            if n.arg == 'install_requires':
                req = v
            else:
                extra = v
    if not isinstance(req, list) or not isinstance(extra, dict):
        K.undecided('declared', 'requirements in setup.py not understood')
        return
    known = {pkgname(r) for r in req} | {
        pkgname(r) for l in extra.values() for r in l}
    for i in G.imports:
        p = top(i.pkg)
        if stdlib(p) or p == K.P.package:
            continue
        K.oblige('%s is declared' % p)
        if ALIAS.get(p, p) not in known and p not in ('h5py',) and \
                i.guard is None:
            K.violation('declared', (i.mod, i.node), 'package %s is not '
                        'declared in setup.py' % p)


def pkgname(r):
    for k in '<>=!~[; ':
        r = r.split(k)[0]
    return r.strip()


def reachable(K, G):
    n = 0
    done = set()
    for q in ROOTS:
        root = K.P.function(q)
        for pkg, feature in sorted(FEATURES.items()):
            n += 1
            K.oblige('%s does not need %s' % (q, pkg))
            for f, path in G.reach(root, feature):
                for i in needs(G, f):
                    if top(i.pkg) != pkg or i.guard is not None:
                        continue
                    if (i.node, pkg) in done:
                        continue
                    done.add((i.node, pkg))
                    K.violation('features', (i.mod, i.node), '%s needs the '
                                'package %s (%s)' % (
                                    q, pkg, ' -> '.join(path)))
    # unknown packages: nothing may need them
    for i in G.imports:
        p = top(i.pkg)
        if not (stdlib(p) or p in CORE or p in FEATURES or
                p == K.P.package) and i.guard is None and i.fn is not None:
            K.undecided('features', '%s:%d: unknown package %s' % (
                i.mod.rel, i.node.lineno, p))
    K.floor('operations', n, 300)


def needs(G, f):
    """external imports run by a call of a function itself"""
    for fn, l in G.by_fn.items():
        if inner(G.P, f, fn):
            for i in l:
                if top(i.pkg) == G.P.package:
                    if i.guard is None:
                        for t in G.targets(i):
                            yield from G.closure(t)
                else:
                    yield i


def writing(K, G):
    """writing needs the HDF5 package only for its format"""
    types = {'self': 'rf.rfstream.RFStream', 'filename': 'str'}
    for fmt in ('SAC', 'sac', 'Q', 'MSEED', 'PICKLE', 'sh'):
        A, r = K.run('rf.rfstream.RFStream.write', args={'format': fmt},
                     types=types, mode='[%s]' % fmt)
        K.oblige('writing %s does not need obspyh5' % fmt)
        for e in r.events:
            if e.kind == 'import' and top(e.name) in ('obspyh5', 'h5py') \
                    and A.feasible(e.pc) and not handled(e):
                K.violation('writing', e, 'writing format %s needs the '
                            'package %s' % (fmt, top(e.name)))
    for kw, pkg in (({'method': 'time'}, 'multitaper'),
                    ({'method': 'waterlevel'}, 'multitaper'),
                    ({'method': 'iterative'}, 'multitaper'),
                    ({'method': 'iterative'}, 'toeplitz'),
                    ({'method': 'waterlevel'}, 'toeplitz')):
        A, r = K.run('rf.deconvolve.deconvolve', args=kw, types={
            'stream': 'rf.rfstream.RFStream'}, mode=str(kw) + pkg)
        K.oblige('deconvolution %s does not need %s' % (kw, pkg))
        for e in r.events:
            if e.kind == 'import' and top(e.name) == pkg and \
                    A.feasible(e.pc) and not handled(e):
                K.violation('methods', e, 'deconvolution with %s needs the '
                            'package %s' % (kw['method'], pkg))


def handled(e):
    return guard(e.node) is not None if e.node is not None else False


def failing(K, G):
    """documented fallbacks exist, all other failures are import errors"""
    for i in G.imports:
        p = top(i.pkg)
        if p not in FEATURES:
            continue
        K.oblige('%s:%d failing import' % (i.mod.rel, i.node.lineno))
        if p in FALLBACK:
            if i.guard is None or isinstance(i.guard, ast.ExceptHandler) \
                    and always_raises(i.guard.body):
                K.violation('fallback', (i.mod, i.node), 'there is no '
                            'fallback if %s is missing' % p)
            elif isinstance(i.guard, ast.ExceptHandler) and i.names and \
                    not binds(i.guard, i.names) and \
                    i.node._parent is not None and not \
                    orelse_only(i):
                K.undecided('fallback', '%s:%d: %s is not set by the '
                            'fallback' % (i.mod.rel, i.node.lineno,
                                          i.names))
            continue
        if i.guard is None:
            continue
        h = i.guard
        if isinstance(h, ast.ExceptHandler) and ends(h.body, h.name) == {
                'import'}:
            continue
        if any(isinstance(n, ast.Raise) and n.exc is not None and
               'ImportError' in ast.unparse(n.exc)
               for n in ast.walk(i.mod.tree)
               if not isinstance(h, ast.ExceptHandler) or
               n not in set(ast.walk(h))):
            K.undecided('failure', '%s:%d: whether a missing %s is reported'
                        % (i.mod.rel, i.node.lineno, p))
            continue
        K.violation('failure', (i.mod, i.node), 'a missing package %s is '
                    'not reported as an import error' % p)


def orelse_only(i):
    """is the imported name used in the else block of its try only?"""
    t = i.node
    while not isinstance(t, ast.Try):
        t = t._parent
    inside = set()
    for s in t.body + t.orelse:
        inside |= set(ast.walk(s))
    scope = t
    while hasattr(scope, '_parent') and not isinstance(scope, FUNCS):
        scope = scope._parent
    return all(n in inside for n in ast.walk(scope)
               if isinstance(n, ast.Name) and n.id == i.names)


def binds(h, name):
    for n in ast.walk(h):
        if isinstance(n, ast.Name) and n.id == name and isinstance(
                n.ctx, ast.Store) or isinstance(n, FUNCS[:2] + (
                    ast.ClassDef,)) and n.name == name:
            return True
        if isinstance(n, (ast.Import, ast.ImportFrom)) and any(
                (a.asname or a.name.split('.')[0]) == name
                for a in n.names):
            return True
    return False


def always_raises(body):
    return ends(body, None) <= {'import', 'raise'}


def ends(body, bound):
    """'import': ImportError raised, 'raise': other error, 'fall'"""
    out = set()
    for s in body:
        if isinstance(s, ast.Raise):
            e = s.exc
            if e is None or isinstance(e, ast.Name) and e.id == bound:
                return out | {'import'}
            if isinstance(e, ast.Name):
                # a name bound to the new error
                e2 = [a.value for a in body if isinstance(a, ast.Assign) and
                      any(isinstance(t, ast.Name) and t.id == e.id
                          for t in a.targets)]
                e = e2[-1] if e2 else e
            f = ast.unparse(e.func if isinstance(e, ast.Call) else e)
            return out | {'import' if f in (
                'ImportError', 'ModuleNotFoundError') else 'raise'}
        if isinstance(s, ast.If):
            a, b = ends(s.body, bound), ends(s.orelse, bound)
            out |= (a | b) - {'fall'}
            if 'fall' not in a | b:
                return out
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return out | {'fall'}
    return out | {'fall'}
