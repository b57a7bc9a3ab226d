"""
Arrays of known shape: an interpreter in which numpy arrays with a constant
number of symbolic elements are tables of terms, so that stacking, slicing,
broadcasting, transposing and columnwise fits have the same value however they
are written. Anything outside the modelled operations gives an unknown value.
"""
from .calls import Analyzer, UNARY, BINARY
from .terms import T, NONE, const, is_const, is_num, is_str, cval
from .terms import add

ELEM1 = set(UNARY) - {'transpose', 'cumsum', 'diff', 'argmax', 'argmin',
                      'nonzero'} | {'sqrt', 'square', 'negative', 'radians',
                                    'deg2rad', 'degrees', 'rad2deg'}
FFT = {'fft', 'ifft'}
KEEP_SCALAR = {'numpy.', 'scipy.', 'math.', 'builtins.'}


def dim(x):
    return 0 if x.op != 'nd' else 1 + (dim(x.args[0]) if x.args else 0)


def shape(x):
    """dimensions, None if ragged"""
    if x.op != 'nd':
        return ()
    if not x.args:
        return (0,)
    s = {shape(y) for y in x.args}
    if len(s) > 1 or None in s:
        return None
    return (len(x.args),) + s.pop()


def transpose(x):
    if dim(x) < 2:
        return x
    return T('nd', *[T('nd', *[r.args[i] for r in x.args])
                     for i in range(len(x.args[0].args))])


UNK = T('unk', 'array')


class ShapeAnalyzer(Analyzer):

    # ---------------------------------------------------------- conversions
    def nd(self, v):
        v = self.simp(v, self.st.pc)
        if v.op == 'new':
            v = self.deref(v)
        return v if v.op == 'nd' else None

    def tond(self, v, scalar=True):
        x = self.nd(v)
        if x is not None:
            return x
        v = self.simp(v, self.st.pc)
        if not is_str(v) and not self.stream_like(v):
            segs = self.seq_of(v)
            if segs is None:
                w = self.deref(v)
                if w.op in ('range',):
                    return UNK
            elif all(s.op == 'one' for s in segs):
                t = T('nd', *[self.tond(s.args[0]) for s in segs])
                return UNK if shape(t) is None else t
            else:
                return UNK
        if self.typeof(v) in self.TRACES:
            return self.tond(self.read_field(v, 'data'))
        return self.strip(self.deref(v))

    def isarr(self, v):
        return self.nd(v) is not None

    def shaped(self, vs):
        return any(self.nd(v) is not None for v in vs)

    def ew(self, f, *xs):
        """f on every element, arguments are aligned as numpy does"""
        d = max(dim(x) for x in xs)
        if d == 0:
            return f(*xs)
        ns = {len(x.args) for x in xs if dim(x) == d}
        if len(ns - {1}) > 1:
            return UNK
        n = max(ns - {1}, default=1) if 0 not in ns else 0
        return T('nd', *[self.ew(f, *[
            x if dim(x) < d else x.args[i if len(x.args) > 1 else 0]
            for x in xs]) for i in range(n)])

    def seq_of(self, v):
        x = self.nd(v)
        if x is not None:
            return tuple(T('one', y) for y in x.args)
        return super().seq_of(v)

    def length(self, v):
        x = self.nd(v)
        if x is not None:
            return const(len(x.args))
        return super().length(v)

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        if self.shaped((a, b)):
            if op == 'matmul':
                return self.new(self.matmul(self.tond(a), self.tond(b)))
            return self.new(self.ew(
                lambda x, y: super(ShapeAnalyzer, self).binop(op, x, y),
                self.tond(a), self.tond(b)))
        return super().binop(op, a, b)

    def pure(self, op, *a):
        if self.shaped(a):
            if op == 'transpose' and len(a) == 1:
                return self.new(transpose(self.nd(a[0])))
            if op in ('amax', 'amin', 'cumsum', 'diff', 'argmax', 'argmin',
                      'nonzero'):
                return UNK
            return self.new(self.ew(
                lambda *x: super(ShapeAnalyzer, self).pure(op, *x),
                *[self.tond(x) for x in a]))
        return super().pure(op, *a)

    def matmul(self, a, b):
        if UNK in (a, b):
            return UNK
        if dim(a) == 2 and dim(b) == 2:
            return T('nd', *[T('nd', *[self.dot(r, c) for c in
                                       transpose(b).args]) for r in a.args])
        if dim(a) == 2 and dim(b) == 1:
            return T('nd', *[self.dot(r, b) for r in a.args])
        if dim(a) == 1 and dim(b) == 2:
            return T('nd', *[self.dot(a, c) for c in transpose(b).args])
        if dim(a) == 1 and dim(b) == 1:
            return self.dot(a, b)
        return UNK

    def dot(self, a, b):
        if len(a.args) != len(b.args):
            return UNK
        t = const(0)
        for x, y in zip(a.args, b.args):
            t = add(t, super().binop('mul', x, y))
        return t

    # ------------------------------------------------------------- indexing
    def pick(self, x, k):
        """x[k] for a table and a constant key"""
        if k.op == 'tuple':
            ks = list(k.args)
            if len(ks) > dim(x) or any(y.op in ('lit', 'const') and not
                                       is_num(y) for y in ks):
                return UNK
            return self.pick2(x, ks)
        return self.pick2(x, [k])

    def axis(self, n, k):
        """selected positions, and whether the axis is kept"""
        if k.op == 'slice':
            if not all(is_const(y) for y in k.args):
                return None
            return list(range(n))[slice(*[
                int(cval(y)) if y is not NONE else None for y in k.args])], \
                True
        if is_num(k):
            i = int(cval(k))
            return ([i], False) if -n <= i < n else None
        t = self.nd(k)
        if t is None and k.op == 'tuple':
            t = k
        if t is not None and all(is_num(y) for y in t.args):
            i = [int(cval(y)) for y in t.args]
            return (i, True) if all(-n <= j < n for j in i) else None
        return None

    def pick2(self, x, ks):
        if not ks:
            return x
        if x.op != 'nd':
            return UNK
        a = self.axis(len(x.args), ks[0])
        if a is None:
            return UNK
        rows = [self.pick2(x.args[i], ks[1:]) for i in a[0]]
        if any(r is UNK for r in rows):
            return UNK
        return T('nd', *rows) if a[1] else rows[0]

    def subscript(self, b, k):
        x = self.nd(b)
        if x is not None:
            k = self.simp(k, self.st.pc)
            r = self.pick(x, k)
            return r
        return super().subscript(b, k)

    def put(self, x, ks, v):
        """x with x[ks] = v"""
        if x.op != 'nd':
            return UNK
        a = self.axis(len(x.args), ks[0])
        if a is None:
            return UNK
        rows = list(x.args)
        rest = ks[1:]
        # dimensions of the target below this axis
        left = dim(x) - 1 - sum(1 for y in rest if y.op != 'slice')
        for n, i in enumerate(a[0]):
            w = v
            if a[1] and dim(v) > left:
                if len(v.args) not in (1, len(a[0])):
                    return UNK
                w = v.args[n if len(v.args) > 1 else 0]
            if rest:
                rows[i] = self.put(rows[i], rest, w)
            elif rows[i].op == 'nd':
                rows[i] = self.ew(lambda old, new: new, rows[i], w)
            else:
                rows[i] = w
            if rows[i] is UNK:
                return UNK
        return T('nd', *rows)

    def set_item(self, base, k, v, node=None):
        b = self.simp(base, self.st.pc)
        x = self.nd(b)
        if x is None or b.op == 'phi':
            return super().set_item(base, k, v, node)
        k = self.simp(k, self.st.pc)
        self.ev('setitem', self.st, recv=b, name=k, value=v)
        val = self.put(x, list(k.args) if k.op == 'tuple' else [k],
                       self.tond(v))
        if b.op == 'new':
            self.st.store[(b, '$val')] = val
        else:
            self.lost(node)

    def lost(self, node):
        """a part of an array was changed through a view"""
        self.unsupported.append(('view of an array',
                                 getattr(node, 'lineno', 0)))
        self.st.store[(T('ext', 'view'), '$val')] = UNK

    # ----------------------------------------------------------- attributes
    def read_field(self, base, name, node=None):
        x = self.nd(base)
        if x is not None:
            s = shape(x)
            if s is not None:
                if name == 'shape':
                    return T('tuple', *[const(i) for i in s])
                if name == 'ndim':
                    return const(len(s))
                if name == 'size':
                    n = 1
                    for i in s:
                        n *= i
                    return const(n)
            if name == 'T':
                return self.new(transpose(x))
            if name in ('real', 'imag'):
                return self.pure(name, x)
            if name == 'dtype':
                return UNK
        return super().read_field(base, name, node)

    def ext_method(self, b, name, args, kw, sup=False):
        x = self.nd(b)
        if x is None:
            return super().ext_method(b, name, args, kw, sup)
        if name in ('copy', 'astype'):
            return self.new(x)
        if name in ('conj', 'conjugate', 'transpose') and not args:
            return self.pure('conj' if name[0] == 'c' else name, x)
        if name == 'tolist':
            return self.nested(x)
        if name in ('dot', 'sum', 'mean', 'round', 'reshape', 'ravel',
                    'flatten', 'cumsum', 'max', 'min', 'repeat', 'squeeze'):
            return self.call_ext('numpy.' + name, [b] + list(args), kw)
        return UNK

    def nested(self, x):
        if x.op != 'nd':
            return x
        return self.mklist([T('one', self.nested(y)) for y in x.args])

    # ------------------------------------------------------------ functions
    def sizes(self, v):
        v = self.simp(v, self.st.pc)
        if is_num(v):
            return [int(cval(v))]
        segs = self.seq_of(v)
        if segs is not None and all(s.op == 'one' and is_num(s.args[0])
                                    for s in segs):
            return [int(cval(s.args[0])) for s in segs]
        return None

    def filled(self, s, e):
        if not s:
            return e
        return T('nd', *[self.filled(s[1:], e) for i in range(s[0])])

    def call_ext(self, name, args, kw):
        name = self.canon_ext(name)
        mod, _, last = name.rpartition('.')
        if mod in ('numpy', 'numpy.fft', 'scipy.fft', 'numpy.linalg',
                   'scipy.linalg', 'scipy.fftpack'):
            r = self.shape_call(mod, last, list(args),
                                {k: v for k, v in kw})
            if r is not None:
                return r
            if self.shaped(list(args) + [v for k, v in kw]) or any(
                    self.tond(a).op == 'nd' for a in args):
                return UNK
        return super().call_ext(name, args, kw)

    def np_call(self, fn, args, kw, mod):
        if mod == 'operator' and self.shaped(args):
            return self.binop(BINARY[fn], *args) if fn in BINARY else UNK
        return super().np_call(fn, args, kw, mod)

    def shape_call(self, mod, fn, args, kw):
        if None in kw or any(a.op == 'star' for a in args):
            return None
        if mod == 'numpy':
            return self.shape_np(fn, args, kw)
        if fn in FFT and mod.endswith(('fft', 'fftpack')) and args:
            x = self.tond(args[0])
            ax = kw.get('axis', args[2] if len(args) > 2 else const(-1))
            n = kw.get('n', args[1] if len(args) > 1 else NONE)
            if x is UNK or dim(x) == 0 or set(kw) - {'axis', 'n'} or \
                    n is not NONE or not is_num(ax):
                return UNK if dim(x) or x is UNK else None
            a = int(cval(ax)) % dim(x)
            if dim(x) == 2 and a == 0:
                return self.new(transpose(self.rows('numpy.fft.' + fn,
                                                    transpose(x))))
            return self.new(self.rows('numpy.fft.' + fn, x))
        if fn == 'lstsq' and len(args) >= 1:
            A = self.tond(args[0])
            b = kw.get('b', args[1] if len(args) > 1 else NONE)
            b = self.tond(b)
            if dim(A) != 2 or dim(b) == 0 or len(A.args) != len(b.args) or \
                    not len(A.args):
                return UNK
            cols = [b] if dim(b) == 1 else list(transpose(b).args)
            n = len(A.args[0].args)
            out = []
            for c in cols:
                t = T('call', T('ext', 'lstsq'), (A, c), ())
                out.append(T('nd', *[T('elt', t, i) for i in range(n)]))
            x = out[0] if dim(b) == 1 else transpose(T('nd', *out))
            return T('tuple', self.new(x), UNK, UNK, UNK)
        return None

    def rows(self, name, x):
        if dim(x) > 1:
            return T('nd', *[self.rows(name, r) for r in x.args])
        t = T('call', T('ext', name), (x,), ())
        return T('nd', *[T('elt', t, i) for i in range(len(x.args))])

    def shape_np(self, fn, args, kw):
        d = dict(kw)
        dt = d.pop('dtype', None)
        if fn in ('array', 'asarray', 'asanyarray', 'ascontiguousarray',
                  'copy', 'atleast_1d', 'asfortranarray') and args:
            x = self.tond(args[0])
            if x is UNK:
                return UNK
            return self.new(x) if dim(x) else None
        if fn in ('zeros', 'ones', 'empty', 'full'):
            s = self.sizes(args[0] if args else d.get('shape', NONE))
            if s is None or max(s, default=0) > 40:
                return None
            if fn == 'full':
                e = args[1] if len(args) > 1 else d.get('fill_value')
                if e is None or self.tond(e).op == 'nd':
                    return UNK
                return self.new(self.filled(s, self.strip(self.deref(e))))
            return self.new(self.filled(s, {
                'zeros': const(0), 'ones': const(1)}.get(fn, UNK)))
        if fn in ('zeros_like', 'ones_like', 'full_like', 'empty_like') \
                and args:
            x = self.tond(args[0])
            if x.op != 'nd':
                return None
            e = {'zeros_like': const(0), 'ones_like': const(1)}.get(fn, UNK)
            if fn == 'full_like':
                if len(args) < 2:
                    return UNK
                e = self.strip(self.deref(args[1]))
            return self.new(self.ew(lambda y: e, x))
        if fn == 'arange' and len(args) == 1 and is_num(args[0]) and not d:
            return self.new(T('nd', *[const(i) for i in
                                      range(int(cval(args[0])))]))
        if fn in ('hstack', 'vstack', 'concatenate', 'column_stack', 'stack',
                  'row_stack', 'dstack', 'append') and args:
            return self.stacked(fn, args, d)
        x = [self.tond(a) for a in args]
        if not any(y.op == 'nd' for y in x):
            return None
        if UNK in x or dt is not None and fn not in ('sum', 'mean'):
            return UNK
        if fn in ELEM1 and len(x) == 1 and not d:
            return self.new(self.ew(
                lambda y: super(ShapeAnalyzer, self).np_call(
                    fn, [y], [], 'numpy') or UNK, x[0]))
        if fn in BINARY and len(x) == 2 and not d:
            return self.new(self.ew(
                lambda y, z: super(ShapeAnalyzer, self).binop(
                    BINARY[fn], y, z), *x))
        if fn == 'transpose' and len(x) == 1 and not d:
            return self.new(transpose(x[0]))
        if fn in ('dot', 'matmul') and len(x) == 2 and not d:
            return self.new(self.matmul(*x))
        if fn == 'outer' and len(x) == 2 and not d and dim(x[0]) == 1 == \
                dim(x[1]):
            return self.new(T('nd', *[T('nd', *[super(
                ShapeAnalyzer, self).binop('mul', y, z)
                for z in x[1].args]) for y in x[0].args]))
        if fn in ('sum', 'mean') and len(x) <= 2:
            ax = d.get('axis', args[1] if len(args) > 1 else NONE)
            y = x[0]
            if set(d) - {'axis'}:
                return UNK
            if dim(y) == 1:
                return self.total(fn, y)
            if dim(y) == 2 and is_num(ax):
                if int(cval(ax)) % 2 == 0:
                    y = transpose(y)
                return self.new(T('nd', *[self.total(fn, r)
                                          for r in y.args]))
            return UNK
        if fn in ('split', 'array_split') and len(x) == 2 and \
                is_num(args[1]) and not d:
            n = int(cval(args[1]))
            if len(x[0].args) % n:
                return UNK
            m = len(x[0].args) // n
            return T('tuple', *[self.new(T('nd', *x[0].args[i:i + m]))
                                for i in range(0, len(x[0].args), m)])
        if fn in ('flip', 'flipud') and len(x) == 1 and not d:
            if fn == 'flip' and dim(x[0]) > 1:
                return UNK
            return self.new(T('nd', *x[0].args[::-1]))
        if fn in ('ravel',) and len(x) == 1 and not d:
            y = x[0]
            return self.new(y if dim(y) == 1 else T(
                'nd', *[e for r in y.args for e in r.args]))
        return UNK

    def total(self, fn, x):
        t = const(0)
        for y in x.args:
            t = add(t, y)
        return t if fn == 'sum' else super().binop('div', t,
                                                   const(len(x.args)))

    def stacked(self, fn, args, d):
        x = self.tond(args[0])
        if fn == 'append':
            if len(args) < 2:
                return UNK
            ax = d.get('axis', args[2] if len(args) > 2 else NONE)
            y = self.tond(args[1])
            if ax is NONE:
                if dim(x) != 1 or dim(y) > 1:
                    return UNK
                return self.new(T('nd', *x.args, *(
                    y.args if dim(y) else (y,))))
            x, d = T('nd', x, y), {'axis': ax}
            fn = 'concatenate'
        elif len(args) > 1:
            d = dict(d, axis=args[1])
        if x.op != 'nd':
            # rows of different length
            segs = self.seq_of(args[0])
            if segs is None or any(s.op != 'one' for s in segs):
                return UNK if fn == 'dstack' or self.shaped(args) else None
            parts = [self.tond(s.args[0]) for s in segs]
        else:
            parts = list(x.args)
        if UNK in parts or not parts or len({dim(p) for p in parts}) != 1 \
                or set(d) - {'axis'}:
            return UNK
        k = dim(parts[0])
        ax = d.get('axis', const(0))
        if not is_num(ax):
            return UNK
        ax = int(cval(ax))
        if fn == 'hstack':
            ax = 0 if k == 1 else 1
        elif fn in ('vstack', 'row_stack'):
            if k == 1:
                return self.new(T('nd', *parts))
            ax = 0
        elif fn == 'column_stack':
            if k == 1:
                return self.new(transpose(T('nd', *parts)))
            ax = 1
        elif fn == 'stack':
            t = T('nd', *parts)
            if shape(t) is None:
                return UNK
            ax %= k + 1
            if ax == 0:
                return self.new(t)
            if k == 1:
                return self.new(transpose(t))
            return UNK
        elif fn == 'dstack':
            return UNK
        if k == 0 or k > 2:
            return UNK
        ax %= k
        if ax == 0:
            r = T('nd', *[y for p in parts for y in p.args])
        else:
            if len({len(p.args) for p in parts}) != 1:
                return UNK
            r = T('nd', *[T('nd', *[e for p in parts for e in
                                    p.args[i].args])
                          for i in range(len(parts[0].args))])
        return self.new(r if shape(r) is not None else UNK)
