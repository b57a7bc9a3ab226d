"""Parsing and symbol tables of the analysed package (nothing is imported)."""
import ast
import hashlib
import os


class AnalysisError(Exception):
    """The analysis cannot reach a verdict (an anchor is gone, a file does
    not parse...): an error exit, never a silent pass."""


class FunctionInfo:
    def __init__(self, fid, qual, node, module, cls, parent):
        self.id, self.qual, self.node = fid, qual, node
        self.module, self.cls, self.parent = module, cls, parent
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.params[len(self.params) -
                                             len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults)
                              if d is not None})
        self.locals, self.globals, self.nonlocals = set(), set(), set()
        self.is_generator = False
        self._scan()

    def _scan(self):
        loc = self.locals
        loc.update(self.params + self.kwonly)
        for x in (self.vararg, self.kwarg):
            if x:
                loc.add(x)
        body = self.node.body
        if not isinstance(body, list):
            body = [ast.Expr(body)]
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef)):
                loc.add(n.name)
                todo.extend(n.decorator_list)
                if not isinstance(n, ast.ClassDef):
                    todo.extend(n.args.defaults)
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_generator = True
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            elif isinstance(n, ast.Name) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    loc.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                loc.add(n.name)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                              ast.DictComp)):
                # comprehension targets are local to the comprehension
                todo.append(n.generators[0].iter)
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        loc.add(w.target.id)
                    if isinstance(w, (ast.Yield, ast.YieldFrom)):
                        self.is_generator = True
                continue
            todo.extend(ast.iter_child_nodes(n))
        loc -= self.globals | self.nonlocals

    def decorators(self):
        out = []
        for d in getattr(self.node, 'decorator_list', []):
            if isinstance(d, ast.Call):
                d = d.func
            out.append(ast.unparse(d))
        return out

    @property
    def lineno(self):
        return self.node.lineno


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods = {}
        self.setters = {}
        self.bases = [ast.unparse(b) for b in node.bases]


class Module:
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, path)
        self.functions, self.classes = {}, {}
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n


class Program:
    def own_functions(self, nested=False):
        """functions and methods of the analysed package"""
        return [fi for fi in self.by_id if fi.module.name in self.own and
                (nested or '<locals>' not in fi.qual and
                 fi.name != '<lambda>')]

    def __init__(self, repo='/repo', package='rf', extra=()):
        self.repo, self.package = repo, package
        self.modules = {}
        self.functions = {}      # qual -> FunctionInfo
        self.by_id = []
        self.classes = {}        # qual -> ClassInfo
        self.node_fi = {}
        pk = os.path.join(repo, package)
        if not os.path.isdir(pk):
            raise AnalysisError('package directory %s is missing' % pk)
        todo = [(os.path.join(pk, fn), package if fn == '__init__.py' else
                 package + '.' + fn[:-3], package + '/' + fn)
                for fn in sorted(os.listdir(pk)) if fn.endswith('.py')]
        self.own = {x[1] for x in todo}
        todo += [(path, name, name) for name, path in extra]
        for path, name, rel in todo:
            if True:
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        m = Module(name, path, rel, src)
                    except SyntaxError as ex:
                        raise AnalysisError('%s does not parse: %s'
                                            % (path, ex))
                self.modules[name] = m
        for m in self.modules.values():
            self._collect(m)
        self.mutated_globals = self._mutated_globals()

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.own):
            h.update(n.encode() + b'\0' + self.modules[n].src.encode())
        return h.hexdigest()[:16]

    def _add(self, qual, node, m, cls, parent):
        q, k = qual, 2
        while q in self.functions:       # redefinition under the same name
            q = '%s#%d' % (qual, k)
            k += 1
        fi = FunctionInfo(len(self.by_id), q, node, m, cls, parent)
        self.by_id.append(fi)
        self.functions[q] = fi
        self.node_fi[node] = fi
        return fi

    def _collect(self, m):
        def walk(node, prefix, cls, parent):
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = self._add(prefix + '.' + c.name, c, m, cls, parent)
                    if cls is not None and parent is None:
                        if any(d.endswith('.setter')
                               for d in fi.decorators()):
                            cls.setters[c.name] = fi
                        else:
                            cls.methods[c.name] = fi
                    elif parent is None:
                        m.functions.setdefault(c.name, fi)
                    walk(c, fi.qual + '.<locals>', None, fi)
                elif isinstance(c, ast.Lambda):
                    fi = self._add(prefix + '.<lambda>', c, m, None, parent)
                    walk(c, fi.qual, None, fi)
                elif isinstance(c, ast.ClassDef):
                    ci = ClassInfo(prefix + '.' + c.name, c, m)
                    self.classes[ci.qual] = ci
                    m.classes[c.name] = ci
                    walk(c, ci.qual, ci, parent)
                else:
                    walk(c, prefix, cls, parent)
        walk(m.tree, m.name, None, None)

    MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update',
           'setdefault', 'add', 'discard', 'popitem', 'sort'}

    def _mutated_globals(self):
        """Module-level names that some function mutates or rebinds."""
        out = set()
        for fi in self.by_id:
            names = fi.locals
            f = fi.parent
            while f is not None:
                names = names | f.locals
                f = f.parent
            m = fi.module
            for g in fi.globals:
                out.add((m.name, g))
            for n in ast.walk(fi.node):
                base = None
                if isinstance(n, ast.Subscript) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    base = n.value
                elif isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Attribute) and \
                        n.func.attr in self.MUT:
                    base = n.func.value
                elif isinstance(n, ast.AugAssign):
                    base = n.target
                if isinstance(base, ast.Name) and base.id not in names:
                    out.add((m.name, base.id))
        return out

    def function(self, qual):
        fi = self.functions.get(qual)
        if fi is None:
            raise AnalysisError('anchor function %s not found' % qual)
        return fi

    def resolve_external_bases(self, ci):
        return ci.bases
