"""Expressions and calls (see interp.py / evalx.py)."""
import ast
import builtins
import fnmatch
import os.path
from fractions import Fraction

from .bdd import TRUE, FALSE
from .interp import (State, Frame, Loop, UNBOUND, MUTATORS, CONTAINER_MUT,
                     MAXUNROLL)
from .evalx import Interp, Stop, key_name, name_key, strish
from .program import AnalysisError
from . import terms as tm
from .terms import (T, const, NONE, TRUE_, FALSE_, is_const, cval, is_num,
                    is_str, add, sub, mul, div, power, neg, topoly)

STR_METHODS = {'upper', 'lower', 'strip', 'split', 'rsplit', 'startswith',
               'endswith', 'format', 'join', 'replace', 'lstrip', 'rstrip',
               'partition', 'isdigit', 'title', 'encode', 'decode', 'find',
               'zfill', 'count', 'isalpha', 'casefold', 'rfind',
               'removeprefix', 'removesuffix', 'format_map', 'splitlines'}
OBSPY_TOP = {'Stream', 'Trace', 'UTCDateTime', 'AttribDict', 'read',
             'read_events', 'read_inventory', 'Catalog', 'Inventory',
             'Stats'}
OBSPY_ALIAS = {
    'obspy.geodetics.base.gps2dist_azimuth':
        'obspy.geodetics.gps2dist_azimuth',
    'obspy.taup.tau.TauPyModel': 'obspy.taup.TauPyModel',
    'scipy.fft.fft': 'scipy.fftpack.fft',
    'scipy.fft.ifft': 'scipy.fftpack.ifft',
    'scipy.fft.next_fast_len': 'scipy.fftpack.next_fast_len',
}
PI = T('ext', 'numpy.pi')
DEG = mul(PI, const(Fraction(1, 180)))
UNARY = {
    'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs',
    'conj': 'conj', 'conjugate': 'conj', 'real': 'real', 'imag': 'imag',
    'exp': 'exp', 'cos': 'cos', 'sin': 'sin', 'tan': 'tan', 'log': 'log',
    'isnan': 'isnan', 'floor': 'floor', 'ceil': 'ceil', 'sign': 'sign',
    'transpose': 'transpose', 'cumsum': 'cumsum', 'diff': 'diff',
    'argmax': 'argmax', 'argmin': 'argmin', 'nonzero': 'nonzero',
}
BINARY = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul',
          'divide': 'div', 'true_divide': 'div', 'power': 'pow',
          'float_power': 'pow', 'mod': 'mod', 'remainder': 'mod',
          'floor_divide': 'floordiv', 'pow': 'pow', 'fmod': 'mod'}
# names of positional parameters for normalisation
SIGS = {
    'numpy.interp': ('x', 'xp', 'fp', 'left', 'right', 'period'),
    'numpy.linspace': ('start', 'stop', 'num', 'endpoint', 'retstep'),
    'numpy.mean': ('a', 'axis'), 'numpy.sum': ('a', 'axis'),
    'numpy.median': ('a', 'axis'),
    'numpy.fft.fftfreq': ('n', 'd'), 'numpy.fft.rfftfreq': ('n', 'd'),
    'scipy.fftpack.fft': ('x', 'n', 'axis'),
    'scipy.fftpack.ifft': ('x', 'n', 'axis'),
    'numpy.fft.fft': ('a', 'n', 'axis'),
    'numpy.fft.ifft': ('a', 'n', 'axis'),
    'numpy.zeros': ('shape', 'dtype'), 'numpy.ones': ('shape', 'dtype'),
    'numpy.searchsorted': ('a', 'v', 'side'),
    'numpy.loadtxt': ('fname',),
    'obspy.geodetics.gps2dist_azimuth': ('lat1', 'lon1', 'lat2', 'lon2'),
    'obspy.taup.TauPyModel': ('model',),
    'obspy.read': ('pathname_or_url', 'format'),
    'obspy.read_events': ('pathname_or_url', 'format'),
    'obspy.read_inventory': ('path_or_file_object', 'format'),
    'scipy.signal.correlate': ('in1', 'in2', 'mode', 'method'),
    'scipy.signal.detrend': ('data', 'axis', 'type'),
    'numpy.linalg.lstsq': ('a', 'b', 'rcond'),
    'pkg_resources.resource_filename': ('package', 'resource'),
    'shutil.copyfile': ('src', 'dst'), 'shutil.copy': ('src', 'dst'),
    'json.dumps': ('obj',), 'json.loads': ('s',), 'json.load': ('fp',),
    'builtins.open': ('file', 'mode'),
    'importlib.import_module': ('name', 'package'),
    'warnings.warn': ('message', 'category'),
    'os.makedirs': ('name', 'mode', 'exist_ok'),
}
MSIGS = {
    'trim': ('starttime', 'endtime', 'pad', 'nearest_sample', 'fill_value'),
    'slice': ('starttime', 'endtime', 'nearest_sample'),
    'taper': ('max_percentage', 'type', 'max_length', 'side'),
    'get_travel_times': ('source_depth_in_km', 'distance_in_degree',
                         'phase_list'),
    'decimate': ('factor', 'no_filter', 'strict_length'),
    'sort': ('keys', 'reverse'),
    'filter': ('type',), 'rotate': ('method',),
    'get_coordinates': ('seed_id', 'datetime'),
    'Direct': ('lat1', 'lon1', 'azi1', 's12'),
    'project_geometry': ('geometry', 'src_crs'),
}
MDEFAULT = {('numpy.linspace', 'endpoint'): TRUE_,
            ('numpy.linspace', 'retstep'): const(False),
            ('numpy.interp', 'left'): NONE, ('numpy.interp', 'right'): NONE,
            ('numpy.interp', 'period'): NONE,
            ('scipy.fftpack.fft', 'n'): NONE,
            ('scipy.fftpack.ifft', 'n'): NONE,
            ('scipy.fftpack.fft', 'axis'): const(-1),
            ('scipy.fftpack.ifft', 'axis'): const(-1),
            ('scipy.signal.detrend', 'axis'): const(-1),
            ('scipy.signal.detrend', 'type'): const('linear'),
            ('scipy.signal.correlate', 'mode'): const('full'),
            ('scipy.signal.correlate', 'method'): const('auto'),
            ('numpy.fft.fftfreq', 'd'): const(1)}
NORAISE = {'builtins.print', 'warnings.warn'}
STREAM_QUAL = 'rf.rfstream.RFStream'
TRACE_QUAL = 'rf.rfstream.RFTrace'


KEYED = ('kv', 'mk', 'member')


PARSER = {'argparse.ArgumentParser', '.add_argument', '.add_parser',
          '.add_argument_group', '.add_subparsers'}


class Analyzer(Interp):

    def __init__(self, *a, **k):
        self.fn_busy = []
        super().__init__(*a, **k)
        self.frame_map = {}
        self.loopctl = []
        self.isinst = {}
        self.budget = 400000

    # ========================================================== expressions
    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unsupported.append((type(n).__name__,
                                     getattr(n, 'lineno', 0)))
            return T('unk', type(n).__name__)
        if isinstance(n, (ast.Call, ast.Subscript)):
            self.nodestack.append(n)
            try:
                return m(n)
            finally:
                self.nodestack.pop()
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, (bytes, complex)) or v is Ellipsis:
            return T('lit', repr(v)) if not isinstance(v, complex) else \
                mul(const(Fraction(repr(v.imag))), T('ext', '1j'))
        return const(v)

    def e_Name(self, n):
        return self.get_var(n.id)

    def e_Attribute(self, n):
        b = self.eval(n.value)
        return self.attr(b, n.attr)

    def attr(self, b, name):
        b = self.simp(b, self.st.pc)
        if b.op == 'ext' and b.args[0] in ('numpy', 'math') and name == 'pi':
            return PI
        if b.op == 'ext' and b.args[0] == 'cmath' and name == 'pi':
            return PI
        if b.op == 'ext' and (b.args[0], name) in self.SHARED:
            v = self.st.store.get((b, name))
            if v is not None:
                return self.simp(v, self.st.pc)
        return self.read_field(b, name)

    # state of other packages which this package changes temporarily
    SHARED = {('sys', 'path'), ('obspyh5', '_INDEX')}

    def init_shared(self):
        for m, n in sorted(self.SHARED):
            v = T('ext', m + '.' + n)
            if n == 'path':
                v = self.mklist([T('each', (v,), TRUE,
                                   T('item', v, T('idx', v, 0)))])
            self.st.store[(T('ext', m), n)] = v

    def x_obspyh5_set_index_(self, args, kw):
        v = args[0] if args else dict(kw).get('index')
        if v is None:
            v = T('ext', 'obspyh5.default_index')
        if v.op == 'ext' and v.args[0] == 'obspyh5._INDEX':
            # putting the old value back is taken not to fail
            a, k = self.norm_args('obspyh5.set_index', args, kw)
            self.ev('call', self.st, fn=T('ext', 'obspyh5.set_index'),
                    name='obspyh5.set_index', args=a, kw=k, value=NONE)
            r = NONE
        else:
            r = self.ext_call('obspyh5.set_index', args, kw)
        self.set_key(T('ext', 'obspyh5'), '_INDEX', v)
        return r

    def eval_index(self, n):
        if isinstance(n, ast.Slice):
            return T('slice', *[NONE if x is None else
                                self.deref(self.eval(x))
                                for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return T('tuple', *[self.eval_index(x) for x in n.elts])
        return self.eval(n)

    def e_Slice(self, n):
        return self.eval_index(n)

    def e_Subscript(self, n):
        b = self.eval(n.value)
        k = self.eval_index(n.slice)
        return self.subscript(b, k)

    def need(self):
        if self.st is None:
            raise Stop()

    def split(self, c, f, g):
        """f() under c, g() otherwise; joined value"""
        bd, st = self.bdd, self.st
        a, b = bd.and_(st.pc, c), bd.and_(st.pc, bd.neg(c))
        fa, fb = self.feasible(a), self.feasible(b)
        if fa and not fb:
            return f()
        if fb and not fa:
            return g()
        res, outs = [], []
        for pc, fn, cc in ((a, f, c), (b, g, bd.neg(c))):
            self.st = st.copy(pc=pc)
            try:
                v = fn()
            except Stop:
                continue
            if self.st is None:
                continue
            outs.append(self.st)
            res.append((cc, v))
        self.st = self.merge(outs)
        self.need()
        return self.phi(res)

    def over_phi(self, v, f):
        """apply a state-changing function per alternative of a phi"""
        if v.op != 'phi':
            return f(v)
        bd, st = self.bdd, self.st
        res, outs = [], []
        for c, x in v.args[0]:
            pc = bd.and_(st.pc, c)
            if not self.feasible(pc):
                continue
            self.st = st.copy(pc=pc)
            try:
                r = f(x)
            except Stop:
                continue
            if self.st is None:
                continue
            outs.append(self.st)
            res.append((c, r))
        self.st = self.merge(outs)
        self.need()
        return self.phi(res)

    def e_IfExp(self, n):
        c = self.cond(n.test)
        return self.split(c, lambda: self.eval(n.body),
                          lambda: self.eval(n.orelse))

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v, self.st)
            return self.split(c if isand else self.bdd.neg(c),
                              lambda: go(vals[1:]), lambda: v)
        return go(n.values)

    def cond(self, n):
        bd = self.bdd
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)

            def go(vals):
                c = self.cond(vals[0])
                if len(vals) == 1:
                    return c
                v = self.split(c if isand else bd.neg(c),
                               lambda: self.mkb(go(vals[1:])),
                               lambda: self.mkb(FALSE if isand else TRUE))
                return self.truth(v)
            return go(n.values)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return bd.neg(self.cond(n.operand))
        if isinstance(n, ast.Compare):
            return self.compare(n)
        v = self.eval(n)
        return self.truth(self.simp(v, self.st.pc), self.st)

    def e_Compare(self, n):
        return self.mkb(self.compare(n))

    def compare(self, n):
        bd = self.bdd
        left = self.eval(n.left)
        r = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn)
            r = bd.and_(r, self.cmp1(op, left, right))
            left = right
        return r

    def cval_(self, v):
        v = self.simp(v, self.st.pc)
        if v.op in ('ref',):
            return self.snap(v)
        v = self.deref(v)
        if v.op == 'phi':
            return self.phi([(c, self.cval_(x)) for c, x in v.args[0]])
        return self.strip(v) if v.op != 'const' else v

    def cmp1(self, op, a, b):
        bd = self.bdd
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.membership(a, b)
            return r if isinstance(op, ast.In) else bd.neg(r)
        if isinstance(op, (ast.Is, ast.IsNot)):
            x, y = self.simp(a, self.st.pc), self.simp(b, self.st.pc)
            if x.op in ('ref', 'new') and y.op in ('ref', 'new'):
                r = TRUE if x is y else FALSE
            elif x.op == 'ref' or y.op == 'ref':
                r = FALSE if (is_const(x) or is_const(y)) else \
                    self.eq(self.cval_(x), self.cval_(y))
            else:
                r = self.eq(self.cval_(x), self.cval_(y))
            return r if isinstance(op, ast.Is) else bd.neg(r)
        x, y = self.cval_(a), self.cval_(b)
        if isinstance(op, ast.Eq):
            return self.eq(x, y)
        if isinstance(op, ast.NotEq):
            return bd.neg(self.eq(x, y))
        if isinstance(op, ast.Lt):
            return self.lt(x, y)
        if isinstance(op, ast.LtE):
            return self.le(x, y)
        if isinstance(op, ast.Gt):
            return self.lt(y, x)
        return self.le(y, x)

    def membership(self, x, coll):
        bd = self.bdd
        coll = self.simp(coll, self.st.pc)
        x = self.simp(x, self.st.pc)
        if coll.op == 'phi':
            return bd.or_(*[bd.and_(c, self.membership(x, y))
                            for c, y in coll.args[0]])
        if x.op == 'phi':
            return bd.or_(*[bd.and_(c, self.membership(y, coll))
                            for c, y in x.args[0]])
        if coll.op == 'keys':
            coll = coll.args[0]
        xs = self.cval_(x)
        segs = self.seq_of(coll)
        if segs is not None and not is_str(coll):
            r = FALSE
            for s in segs:
                if s.op == 'one':
                    r = bd.or_(r, self.eq(xs, self.cval_(s.args[0])))
                elif s.op == 'opt':
                    r = bd.or_(r, bd.and_(s.args[0],
                                          self.eq(xs,
                                                  self.cval_(s.args[1]))))
                elif s.op == 'each':
                    r = bd.or_(r, self.each_member(xs, s))
                else:
                    r = bd.or_(r, self.atom(T('in', xs, s)))
            return r
        if coll.op == 'ref' and coll.args[1] == 'dict' or \
                self.typeof(coll) == 'Stats':
            n = key_name(x)
            if n is not None:
                h = self.get_key(coll, n)[0]
                dyn = self.st.store.get((coll, '$dyn'))
                if dyn is not None:
                    h = bd.or_(h, self.atom(T('in', xs, self.snap(dyn)
                                              if dyn.op != 'seq' else
                                              T('seq', *dyn.args))))
                return h
            if coll.op == 'ref':
                dyn = self.st.store.get((coll, '$dyn'))
                r = FALSE
                if xs.op == 'item' and xs.args[1].op == 'idx':
                    ks = xs.args[0]
                    if ks.op == 'sorted':
                        ks = ks.args[0]
                    if ks.op == 'keysof' and ks.args[0] is self.snap(coll):
                        return TRUE
                ks = self.st.store.get((coll, '$keys'), T('seq'))
                for s in ks.args:
                    k = s.args[-1]
                    r = bd.or_(r, bd.and_(self.dict_get(
                        coll, key_name(k))[0], self.eq(xs, k)))
                if dyn is not None:
                    if dyn.op == 'seq':
                        for s in dyn.args:
                            kv = s.args[-1]
                            if s.op == 'one' and kv.op in KEYED:
                                r = bd.or_(r, self.eq(xs, self.cval_(
                                    kv.args[0])))
                            elif s.op == 'opt' and kv.op in KEYED:
                                r = bd.or_(r, bd.and_(
                                    s.args[0], self.eq(xs, self.cval_(
                                        kv.args[0]))))
                            elif s.op == 'each' and kv.op in KEYED:
                                r = bd.or_(r, self.each_member(xs, T(
                                    'each', s.args[0], s.args[1],
                                    kv.args[0])))
                            else:
                                r = bd.or_(r, self.atom(T('in', xs, s)))
                    else:
                        r = bd.or_(r, self.atom(T('in', xs, dyn)))
                b = self.st.store.get((coll, '$base'))
                if b is not None:
                    r = bd.or_(r, self.membership(x, b))
                return r
            return self.atom(T('in', xs, self.strip(coll)))
        n = key_name(x)
        if n is not None and not n.startswith('#') and \
                (coll, '?' + n) in self.st.store:
            return self.get_key(coll, n)[0]
        if coll.op == 'ref':
            return self.atom(T('in', xs, self.snap(coll)))
        return self.isin(xs, self.deref(coll))

    def each_member(self, xs, s):
        doms, cond, elem = self.rename_each(s)
        e = self.cval_(elem)
        # the element itself is a member of its own collection
        c = self.eq(xs, e)
        if c == FALSE:
            return FALSE
        sube = [x for x in tm.subterms(xs) if x.op == 'idx']
        for x in sube:
            if len(doms) == 1 and x.args[0] is doms[0]:
                own = [y for y in tm.subterms(e) if y.op == 'idx' and
                       y.args[0] is doms[0]]
                if own:
                    m = {own[0]: x}
                    if self.subst(e, lambda t: m.get(t)) is xs:
                        # xs = element number x; member iff cond holds there
                        return self.subst_node(cond, lambda t: m.get(t))
        return self.anyof(doms, self.bdd.and_(cond, c))

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return self.mkb(self.bdd.neg(self.cond(n.operand)))
        v = self.deref(self.eval(n.operand))
        if isinstance(n.op, ast.USub):
            if self.isarr(v):
                return self.binop('mul', const(-1), v)
            return self.lift(lambda x: neg(self.plain(x)), v)
        if isinstance(n.op, ast.UAdd):
            return v
        if v.op == 'b':
            return self.mkb(self.bdd.neg(v.args[0]))
        return T('invert', v)

    def isarr(self, v):
        return False

    def e_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        op = self.OPN[type(n.op)]
        a, b = self.simp(a, self.st.pc), self.simp(b, self.st.pc)
        if op == 'mod' and is_str(a) and b.op == 'ref':
            b = self.snap(b) if b.args[1] != 'dict' else b
        if op in ('and', 'or') and (a.op == 'b' or b.op == 'b'):
            f = self.bdd.and_ if op == 'and' else self.bdd.or_
            return self.mkb(f(self.truth(a), self.truth(b)))
        if op == 'mul' and (self.seq_of(a) is not None or
                            self.seq_of(b) is not None) and \
                not (is_str(a) or is_str(b) or self.isarr(a) or
                     self.isarr(b)):
            s, k = (a, b) if self.seq_of(a) is not None else (b, a)
            if is_num(k) and 0 <= cval(k) < 40:
                segs = self.seq_of(s) * int(cval(k))
                if s.op == 'tuple':
                    return T('tuple', *[x.args[0] for x in segs])
                return self.mklist(segs)
            return self.new(T('repeat', self.snap(s), self.deref(k)))
        if op in ('sub', 'and', 'or', 'xor') and (
                self.setlike(a) or self.setlike(b)):
            return self.setop(op, a, b)
        return self.binop(op, a, b)

    def setlike(self, v):
        return v.op == 'set' or v.op == 'ref' and v.args[1] == 'set' or \
            v.op == 'new' and v.args[1].op in ('set', 'keysof')

    def setop(self, op, a, b):
        bd = self.bdd
        x, y = self.iter_segs(a), self.iter_segs(b)
        if op == 'xor':
            return self.new(T('unk', 'set operation'))

        def pick(segs, other, want):
            out = []
            for s in segs:
                if not want:
                    m = self.membership(s[-1], other)
                    c = bd.and_(s[-2], bd.neg(m))
                elif want is True:
                    c = bd.and_(s[-2], self.membership(s[-1], other))
                else:
                    c = s[-2]
                if bd.implies(self.st.pc, c):
                    c = TRUE
                if not self.feasible(bd.and_(self.st.pc, c)):
                    continue
                out.append(T('each', s[1], c, s[3]) if s[0] == 'each' else
                           T('one', s[2]) if c == TRUE else
                           T('opt', c, s[2]))
            return out
        if op == 'or':
            return self.mklist(pick(x, b, None) + pick(y, a, False), 'set')
        return self.mklist(pick(x, b, op == 'and'), 'set')

    def e_Tuple(self, n):
        v = self.elts(n.elts)
        if all(s.op == 'one' for s in v):
            return T('tuple', *[s.args[0] for s in v])
        return self.mklist(v)

    def elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                x = self.eval(e.value)
                for s in self.iter_segs(x):
                    out.append(T('one', s[2]) if s[0] == 'one' and
                               s[1] == TRUE else T('opt', s[1], s[2])
                               if s[0] == 'one' else T('each', *s[1:]))
            else:
                out.append(T('one', self.eval(e)))
        return tuple(out)

    def e_List(self, n):
        return self.mklist(self.elts(n.elts))

    def e_Set(self, n):
        return self.mklist(self.elts(n.elts), 'set')

    def e_Dict(self, n):
        r = self.mkdict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(r, self.eval(v))
            else:
                kk = self.eval(k)
                vv = self.eval(v)
                rec, self.record = self.record, False
                self.dict_set(r, kk, vv)
                self.record = rec
        return r

    def e_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                spec = ''
                if v.format_spec is not None:
                    s = self.eval(v.format_spec)
                    spec = cval(s) if is_str(s) else repr(s)
                conv = {115: '', 114: 'r', 97: 'a'}.get(v.conversion, '')
                parts.append(self.fv_part(self.eval(v.value), conv, spec))
        return self.fmt_alts(parts)

    def e_Starred(self, n):
        return T('star', self.eval(n.value))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.set_var(n.target.id, v)
        return v

    def e_Lambda(self, n):
        fi = self.prog.node_fi.get(n)
        f = self.frames[-1]
        self.frame_map[f.id] = f
        return T('func', fi.id, f.id)

    def e_Await(self, n):
        return self.eval(n.value)

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        self.do_yield(v)
        return T('unk', 'sent')

    def do_yield(self, v):
        fi = len(self.frames) - 1
        f = self.frames[fi]
        if f.yield_cb is None:
            f.yields.append((self.st.copy(), v))
            self.ev('yield', self.st, value=self.snap(v), recv=v)
            return
        saved = self.frames
        self.frames = saved[:fi]
        ctl = {'break': [], 'continue': []}
        self.loopctl.append(ctl)
        try:
            f.yield_cb(v)
        finally:
            self.frames = saved
            self.loopctl.pop()
        self.st = self.merge([self.st] + ctl['continue'])
        if ctl['break']:
            if self.loopctl:
                self.loopctl[-1]['break'] += ctl['break']
            else:
                self.st = self.merge([self.st] + ctl['break'])
        self.need()

    def e_YieldFrom(self, n):
        it = self.eval(n.value)
        self.loop_over(it, lambda v: self.do_yield(v))
        self.need()
        return NONE

    # -------------------------------------------------------- comprehensions
    def e_ListComp(self, n):
        return self.mklist(self.comp(n.generators,
                                     lambda: self.eval(n.elt)))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        return self.mklist(self.comp(n.generators,
                                     lambda: self.eval(n.elt)), 'set')

    def e_DictComp(self, n):
        segs = self.comp(n.generators, lambda: T(
            'kv', self.eval(n.key), self.eval(n.value)))
        r = self.mkdict()
        without = self.partial_copy(segs)
        if without is not None:
            rec, self.record = self.record, False
            self.dict_update(r, without[0])
            for k in without[1]:
                self.map_method(r, 'pop', [k, NONE], ())
            self.record = rec
            return r
        for s in segs:
            kv = s.args[-1]
            if s.op == 'one':
                rec, self.record = self.record, False
                self.dict_set(r, *kv.args)
                self.record = rec
            else:
                nm = key_name(kv.args[0])
                if s.op == 'opt' and nm is not None:
                    ks = self.st.store.get((r, '$keys'), T('seq'))
                    if not any(x.args[-1] is name_key(nm) for x in ks.args):
                        self.st.store[(r, '$keys')] = T(
                            'seq', *(ks.args + (T('one', name_key(nm)),)))
                    c = s.args[0]
                    h, v = self.dict_get(r, nm)
                    self.st.store[(r, nm)] = kv.args[1] if h == FALSE else \
                        self.phi([(c, kv.args[1]), (self.bdd.neg(c), v)])
                    self.st.store[(r, '?' + nm)] = self.mkb(
                        self.bdd.or_(c, h))
                    continue
                dyn = self.st.store.get((r, '$dyn'), T('seq'))
                self.st.store[(r, '$dyn')] = T('seq', *(dyn.args + (s,)))
        return r

    def partial_copy(self, segs):
        """all entries of a dictionary but those of some keys"""
        if len(segs) != 1 or segs[0].op != 'each':
            return None
        doms, cond, kv = segs[0].args
        if len(doms) != 1 or doms[0].op != 'keysof' or kv.op != 'kv':
            return None
        src, (k, v) = doms[0].args[0], kv.args
        if v is not T('item', src, k):
            return None
        keys, rest = [], TRUE
        for a in sorted(self.bdd.support(cond), key=lambda t: t.id):
            if a.op != 'eq' or k not in a.args:
                return None
            key = a.args[1] if a.args[0] is k else a.args[0]
            if not is_str(key):
                return None
            keys.append(key)
            rest = self.bdd.and_(rest, self.bdd.neg(self.eq(k, key)))
        if not self.bdd.equivalent(rest, cond):
            return None
        return src, keys

    def comp(self, gens, elt):
        out = []
        f = self.frames[-1]
        names = {x.id for g in gens for x in ast.walk(g.target)
                 if isinstance(x, ast.Name)}
        saved = {k: self.st.vars.get((f.id, k)) for k in names}

        def rec(i, doms, cond):
            if i == len(gens):
                pc0 = self.st.pc
                v = elt()
                if not doms:
                    if cond == TRUE:
                        out.append(T('one', v))
                    else:
                        out.append(T('opt', cond, v))
                else:
                    v2 = self.snap_elem(v)
                    out.append(T('each', doms, cond, v2))
                return
            g = gens[i]
            it = self.simp(self.eval(g.iter), self.st.pc)

            def each(elem, doms, cond):
                self.assign(g.target, elem)
                st0 = self.st
                c = TRUE
                for t in g.ifs:
                    c2 = self.cond(t)
                    c = self.bdd.and_(c, c2)
                    self.st = self.st.copy(
                        pc=self.bdd.and_(self.st.pc, c2))
                    if not self.feasible(self.st.pc):
                        break
                if self.feasible(self.st.pc):
                    if c != TRUE:
                        c = self.bdd.restrict(c, self.bdd.and_(
                            st0.pc, self.bdd.axioms)) \
                            if st0.pc != FALSE else c
                    rec(i + 1, doms, self.bdd.and_(cond, c))
                pc = self.st.pc
                if c != TRUE:
                    self.st = self.st.copy(pc=st0.pc)
            if it.op == 'gencall' or (
                    self.class_of(it) is not None and
                    not self.stream_like(it)):
                tmp = self.mklist(())
                self.loop_over(it, lambda v: self.list_append(tmp, v))
                self.need()
                it = tmp
            segs = self.iter_segs(it)
            if sum(1 for s in segs if s[0] == 'one') > MAXUNROLL:
                segs = [self.gen_seg(self.snap(it))]
            for s in segs:
                if s[0] == 'one':
                    c = s[1]
                    if c != TRUE:
                        st0 = self.st
                        pc = self.bdd.and_(st0.pc, c)
                        if not self.feasible(pc):
                            continue
                        self.st = st0.copy(pc=pc)
                        each(s[2], doms, self.bdd.and_(cond, c))
                        self.st = self.st.copy(pc=st0.pc)
                    else:
                        each(s[2], doms, cond)
                    continue
                _, dd, c, elem = s
                st0 = self.st
                pc_in = self.bdd.and_(st0.pc, c)
                if not self.feasible(pc_in):
                    continue
                for d in dd:
                    k = sum(1 for l in self.loops if l.dom is d)
                    self.loops.append(Loop(d, T('idx', d, k)))
                nsink = [len(x['states']) for x in self.sinks]
                self.st = st0.copy(pc=pc_in)
                try:
                    each(elem, doms + tuple(dd), self.bdd.and_(cond, c))
                except Stop:
                    self.st = None
                bd = self.bdd
                del self.loops[len(self.loops) - len(dd):]
                leave = FALSE
                for sk, k in zip(self.sinks, nsink):
                    for j in range(k, len(sk['states'])):
                        sst, exc = sk['states'][j]
                        a = self.anyof(tuple(dd), bd.restrict(
                            sst.pc, bd.and_(st0.pc, bd.axioms)))
                        leave = bd.or_(leave, a)
                        sk['states'][j] = (sst.copy(
                            pc=bd.and_(st0.pc, a)), exc)
                base = self.st if self.st is not None else st0
                self.st = base.copy(pc=bd.and_(st0.pc, bd.neg(leave)))
                if not self.feasible(self.st.pc):
                    raise Stop()
        rec(0, (), TRUE)
        for k, v in saved.items():
            if v is None:
                self.st.vars.pop((f.id, k), None)
            else:
                self.st.vars[(f.id, k)] = v
        return tuple(out)

    def snap_elem(self, v):
        """lists built per element have no identity worth keeping"""
        if v.op == 'ref' and v.args[1] in ('list', 'dict', 'set'):
            return self.snap(v)
        if v.op == 'tuple':
            return T('tuple', *[self.snap_elem(x) for x in v.args])
        if v.op == 'kv':
            return T('kv', *[self.snap_elem(x) for x in v.args])
        return v

    # ============================================================ subscript
    def subscript(self, b, k):
        st = self.st
        b = self.simp(b, st.pc)
        k = self.simp(k, st.pc)
        if b.op == 'phi':
            return self.over_phi(b, lambda x: self.subscript(x, k))
        if k.op == 'phi' and (b.op in ('ref', 'dict') or
                              all(key_name(x) for c, x in k.args[0])):
            return self.over_phi(k, lambda x: self.subscript(b, x))
        if b.op == 'keys':
            b = b.args[0]
        ci = self.class_of(b)
        if ci is not None and not self.stream_like(b):
            fi = self.find_method(ci, '__getitem__')
            if fi is not None:
                return self.call_function(fi, [b, k], [], cls=fi.cls)
        if b.op == 'ref' and b.args[1] == 'dict':
            return self.dict_item(b, k)
        if b.op == 'dict':
            n = key_name(k)
            if n is not None:
                h, v = self.get_key(b, n)
                if len(b.args) == 1:
                    self.key_exit(h)
                else:
                    self.key_guard(h)
                return v
            return T('item', b, self.cval_(k))
        if self.stream_like(b) or (b.op == 'ref' and
                                   (b, 'traces') in st.store):
            if k.op == 'slice':
                if b.op == 'ref':
                    t = self.subscript(self.read_field(b, 'traces'), k)
                    return self.mkstream(t, self.typeof(b))
                return T('item', b, self.kterm(k))
            return self.subscript(self.read_field(b, 'traces'), k)
        segs = self.seq_of(b)
        n = key_name(k)
        if segs is not None and not is_str(b):
            if k.op == 'slice' and all(s.op == 'one' for s in segs) and \
                    all(is_const(x) for x in k.args):
                it = [s for s in segs][slice(*[cval(x) for x in k.args])]
                if b.op == 'tuple':
                    return T('tuple', *[s.args[0] for s in it])
                return self.mklist(it)
            if is_const(k) and isinstance(cval(k), int) and \
                    all(s.op == 'one' for s in segs):
                i = cval(k)
                if -len(segs) <= i < len(segs):
                    return segs[i].args[0]
                if self.want_split(['IndexError']):
                    self.may_raise(TRUE, T('excls', 'IndexError'))
                return T('unk', 'index')
            lst = b if b.op == 'tuple' else T('list', *segs)
            self.index_guard(lst, k, segs)
            return self.item_term(lst, self.kterm(k))
        if b.op == 'ref' and n is not None and is_str(k) and (
                b.args[1] == 'stats' or self.typeof(b) == 'Stats'):
            h, v = self.get_key(b, n)
            self.key_guard(h)
            return self.simp(v, st.pc)
        if b.op == 'ref':
            s = self.snap(b)
            return self.item_term(s, self.kterm(k))
        if n is not None and not n.startswith('#'):
            if is_str(b):
                return T('unk', 'index')
            h, v = self.get_key(b, n)
            self.key_guard(h)
            return v
        v = self.deref(b)
        if v is not b and v.op in ('ref', 'list', 'tuple', 'dict'):
            return self.subscript(v, k)
        self.index_guard(v, k)
        if k.op != 'slice' and not is_num(k) and any(
                c.split('.')[-1] in ('KeyError', 'LookupError')
                for s in self.sinks for c in s['classes']):
            self.key_guard(self.membership(k, b))
        if (v.op == 'new' and v.args[1].op in ('mcall', 'call', 'upd')) or \
                v.op in ('upd',):
            v = self.strip(v)
        r = self.item_term(v, self.kterm(k))
        x = st.store.get((r, '$val'))
        return x if x is not None else r

    def kterm(self, k):
        if k.op == 'slice':
            return T('slice', *[self.cval_(x) for x in k.args])
        if k.op == 'tuple':
            return T('tuple', *[self.kterm(x) for x in k.args])
        return self.cval_(k)

    def index_guard(self, v, k, segs=None):
        if not self.sinks or not is_const(k) or \
                not isinstance(cval(k), int) or \
                not self.want_split(['IndexError']):
            return
        i = cval(k)
        ln = T('len', self.strip(v)) if segs is None else \
            self.length(T('list', *segs))
        bad = self.lt(ln, const(i + 1 if i >= 0 else -i))
        self.may_raise(bad, T('excls', 'IndexError'))

    def dict_item(self, b, k):
        n = key_name(k)
        st = self.st
        if n is not None:
            h, v = self.get_key(b, n)
            dyn = st.store.get((b, '$dyn'))
            if dyn is not None and h == FALSE:
                return self.item_term(self.snap(b), k)
            if st.store.get((b, '$factory')) is not None and h == FALSE:
                if not self.loops and dyn is None:
                    v = self.call_value(st.store[(b, '$factory')], [], [])
                    self.set_key(b, n, v)
                    return v
                return self.default_item(b, k)
            if dyn is None and (b, '$base') not in st.store:
                self.key_exit(h)
            else:
                self.key_guard(h)
            return self.simp(v, self.st.pc)
        dyn = st.store.get((b, '$dyn'))
        xs = self.cval_(k)
        ks = st.store.get((b, '$keys'), T('seq'))
        ents = []
        for s in ks.args:
            kk = s.args[-1]
            h, v = self.dict_get(b, key_name(kk))
            if v is not None:
                ents.append((self.bdd.and_(h, self.eq(xs, kk)), v))
        if dyn is not None and dyn.op == 'seq':
            for s in reversed(dyn.args):
                kv = s.args[-1]
                if s.op == 'one' and kv.op == 'kv' and \
                        self.cval_(kv.args[0]) is xs:
                    return kv.args[1]
        if ents and (dyn is None) and (b, '$base') not in st.store:
            hit = self.bdd.or_(*[c for c, v in ents])
            self.key_exit(hit)
            return self.phi([(c, v) for c, v in ents])
        if st.store.get((b, '$factory')) is not None:
            if self.membership(k, b) == TRUE:
                return T('item', self.snap(b), xs)
            return self.default_item(b, k)
        if dyn is not None and dyn.op == 'seq':
            for s in dyn.args:
                kv = s.args[-1]
                if kv.op in ('mk', 'member') and s.op in ('one', 'opt') \
                        and kv.args[0] is xs:
                    self.key_guard(self.membership(k, b))
                    return T('group', b, xs, kv.args[-1])
        self.key_guard(self.membership(k, b))
        return T('item', self.snap(b), xs)

    def default_item(self, b, k):
        """item of a defaultdict: the collection of one group"""
        f = self.st.store[(b, '$factory')]
        rec, self.record = self.record, False
        try:
            m = self.maker(self.call_value(f, [], []))
        finally:
            self.record = rec
        return T('group', b, self.cval_(k), m or T('unk', 'factory'))

    def maker(self, v):
        """description of an empty collection, None for anything else"""
        v = self.simp(v, self.st.pc)
        if v.op == 'ref':
            if v.args[1] in ('list', 'set') and self.st.store.get(
                    (v, '$seq')) is T('seq'):
                return T(v.args[1])
            if (v, 'traces') in self.st.store:
                t = self.snap(self.st.store[(v, 'traces')])
                if t.op == 'list' and not t.args:
                    return T('newstream', const(str(self.refcls.get(v))))
            return None
        x = v.args[1] if v.op == 'new' else v
        if x.op in ('call', 'mcall') and x.args[-1] == () and \
                x.args[-2] == ():
            return x
        return None

    # ================================================================ calls
    def eval_args(self, n):
        args, kw = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                x = self.simp(self.eval(a.value), self.st.pc)
                segs = self.seq_of(x)
                if segs is not None and all(s.op == 'one' for s in segs):
                    args += [s.args[0] for s in segs]
                else:
                    args.append(T('star', x))
            else:
                args.append(self.eval(a))
        for k in n.keywords:
            v = self.eval(k.value)
            kw.append((k.arg, v))
        return args, self.expand_kw(kw)

    def expand_kw(self, kw):
        out = []
        for k, v in kw:
            if k is not None:
                out.append((k, v))
                continue
            v = self.simp(v, self.st.pc)
            out += self.kw_entries(v)
        return out

    def kw_entries(self, v):
        if v.op == 'ref' and v.args[1] == 'dict' and \
                (v, '$base') not in self.st.store and \
                (v, '$dyn') not in self.st.store:
            ks = self.st.store.get((v, '$keys'), T('seq'))
            ents = []
            for s in ks.args:
                k = key_name(s.args[-1])
                h, x = self.dict_get(v, k)
                hp = self.bdd.and_(self.st.pc, h)
                if not self.feasible(hp):
                    continue
                if not self.bdd.implies(self.st.pc, h):
                    return [(None, v)]
                ents.append((k, self.simp(x, self.st.pc)))
            return ents
        if v.op == 'dict' and len(v.args) == 1 and \
                all(c == TRUE for k, c, x in v.args[0]):
            return [(k, x) for k, c, x in v.args[0]]
        return [(None, v)]

    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            f = self.frames[-1]
            while f is not None and f.cls is None:
                f = f.parent
            if not n.args and f is not None:
                fi = f.fi
                sv = self.st.vars.get((f.id, fi.params[0])) \
                    if fi.params else NONE
                return T('super', fi.cls.qual, sv)
            a = [self.eval(x) for x in n.args]
            return T('super', a[0].args[0], a[1])
        if isinstance(n.func, ast.Attribute):
            b = self.simp(self.eval(n.func.value), self.st.pc)
            args, kw = self.eval_args(n)
            r = self.call_attr(b, n.func.attr, args, kw)
        else:
            fn = self.eval(n.func)
            args, kw = self.eval_args(n)
            r = self.call_value(fn, args, kw)
        self.need()
        return r

    def call_attr(self, b, name, args, kw):
        if b.op == 'phi':
            return self.over_phi(b, lambda x: self.call_attr(
                x, name, args, kw))
        if b.op in ('ext', 'mod', 'cls', 'super'):
            if b.op == 'super':
                return self.super_call(b, name, args, kw)
            return self.call_value(self.attr(b, name), args, kw)
        if (b, name) in self.st.store or name == '__class__':
            return self.call_value(self.attr(b, name), args, kw)
        ci = self.class_of(b)
        if ci is not None and b.op != 'func':
            fi = self.find_method(ci, name)
            if fi is not None and 'property' not in fi.decorators():
                return self.call_value(self.read_field(b, name), args, kw)
        return self.method(b, name, args, kw)

    def func_info(self, fn):
        fn = self.plain(fn)
        if fn.op in ('func', 'method'):
            return self.prog.by_id[fn.args[0]]
        return None

    def call_value(self, fn, args, kw, yield_cb=None, force=False):
        fn = self.simp(fn, self.st.pc)
        if fn.op == 'phi':
            return self.over_phi(fn, lambda f: self.call_value(
                f, args, kw, yield_cb))
        if fn.op == 'lazy':
            fn = self.resolve_import(*fn.args)
        if fn.op == 'new':
            fn = fn.args[1]
        kw = [tuple(x) for x in kw]
        o = fn.op
        if o == 'func':
            fi = self.prog.by_id[fn.args[0]]
            return self.call_internal(fn, fi, list(args), kw, yield_cb,
                                      force)
        if o == 'method':
            fi = self.prog.by_id[fn.args[0]]
            return self.call_internal(fn, fi, [fn.args[1]] + list(args), kw,
                                      yield_cb, force)
        if o == 'cls':
            return self.instantiate(fn.args[0], args, kw)
        if o == 'partial':
            return self.call_value(fn.args[0], list(fn.args[1]) +
                                   list(args), list(fn.args[2]) + kw)
        if o == 'fld' and fn.args[1] == '__class__' and \
                fn.args[0].op in ('gencall', 'genexp'):
            # generators cannot be created by calling their class
            self.may_raise(TRUE, T('excls', 'TypeError'))
            raise Stop()
        if o == 'fld' and fn.args[1] == '__class__':
            t = self.typeof(fn.args[0])
            if t in self.TRACES:
                return self.mktrace(args, kw, t)
            return self.mkstream_call(args, kw, t or STREAM_QUAL, fn)
        if o in ('fld', 'bound'):
            return self.method(fn.args[0], fn.args[1], args, kw)
        if o == 'call' and fn.args[0].op == 'ext':
            nm = fn.args[0].args[0]
            if nm in ('operator.itemgetter', 'operator.attrgetter') and args:
                ks = fn.args[1]
                g = self.subscript if nm.endswith('itemgetter') else \
                    (lambda b, k: self.attr(b, cval(k)))
                r = [g(args[0], k) for k in ks]
                return r[0] if len(r) == 1 else T('tuple', *r)
            if nm == 'operator.methodcaller' and args:
                return self.call_attr(args[0], cval(fn.args[1][0]),
                                      list(fn.args[1][1:]),
                                      list(fn.args[2]))
        if o == 'ext':
            return self.call_ext(fn.args[0], args, kw)
        # unknown function value
        return self.unknown_call(fn, args, kw)

    def snapargs(self, args, kw):
        def f(x):
            x = self.simp(x, self.st.pc)
            if x.op == 'func':
                return self.fn_term(x)
            return self.snap(x)
        a = tuple(T('star', self.snap(x.args[0])) if x.op == 'star' else
                  f(x) for x in args)
        k = tuple((n, f(x)) for n, x in
                  sorted(kw, key=lambda e: (e[0] is None, e[0] or '')))
        return a, k

    def fn_term(self, fn):
        """identity-free description of a function passed as a value"""
        fi = self.prog.by_id[fn.args[0]]
        n = len(fi.params) - len(fi.defaults)
        if fn in self.fn_busy or n > 3 or fi.vararg or fi.is_generator:
            return fn
        self.fn_busy.append(fn)
        try:
            return T('fn', n, self.fn_summary(fn, n))
        finally:
            self.fn_busy.pop()

    def unknown_call(self, fn, args, kw, name=None):
        a, k = self.snapargs(args, kw)
        k = self.foldkw(k)
        f = self.strip(fn)
        t = T('call', f, a, k)
        r = self.new(t)
        tag = self.calltypes.get(f.args[0]) if f.op == 'sym' else None
        if tag is not None:
            self.types[r] = self.types[t] = tag
        self.ev('call', self.st, fn=f, name=name, args=a, kw=k, value=r,
                res=tuple(args) + tuple(x for n, x in kw))
        self.call_may_raise(t)
        return r

    # --------------------------------------------------- internal functions
    def in_order(self, fi, args, kw):
        """arguments by position and by sorted names, with defaults"""
        if any(a.op == 'star' for a in args) or fi.vararg or fi.posonly or \
                any(k is None for k, v in kw):
            return args, kw
        given = dict(kw)
        if len(given) < len(kw):
            return args, kw
        for p in fi.params[len(args):]:
            if p in given:
                args.append(given.pop(p))
            elif p in fi.defaults:
                args.append(self.default_value(fi, p))
            else:
                break
        return args, sorted(given.items())

    def call_internal(self, fn, fi, args, kw, yield_cb=None, force=False):
        if fi.is_generator and yield_cb is None:
            args, kw = self.in_order(fi, list(args), [tuple(x) for x in kw])
            return T('gencall', fn, tuple(args), tuple(kw))
        fid = fn.args[1] if fn.op == 'func' else None
        return self.call_function(fi, args, kw, cls=fi.cls,
                                  yield_cb=yield_cb,
                                  parent=self.frame_map.get(fid))

    def bind(self, fi, args, kw):
        """-> {param: value}"""
        env = {}
        rest = []
        pos = list(fi.params)
        star = None
        for a in args:
            if a.op == 'star':
                star = (a.args[0], 0)
                break
            if pos:
                env[pos.pop(0)] = a
            else:
                rest.append(a)
        if fi.vararg:
            if star is not None:
                env[fi.vararg] = star[0] if not rest else self.mklist(
                    [T('one', x) for x in rest] + [T('rest', star[0])])
            else:
                env[fi.vararg] = T('tuple', *rest)
        elif rest:
            self.ev('badcall', self.st, name=fi.qual)
        names = set(fi.params) | set(fi.kwonly)
        extra = []
        dstar = []
        for k, v in kw:
            if k is None:
                dstar.append(v)
            elif k in names and k not in fi.posonly:
                if k in env:
                    self.ev('badcall', self.st, name=fi.qual, value=const(k))
                env[k] = v
            elif fi.kwarg:
                extra.append((k, v))
            else:
                self.ev('badcall', self.st, name=fi.qual, value=const(k))
        missing = [p for p in fi.params + fi.kwonly if p not in env]
        for p in missing:
            d = None
            if p in fi.defaults:
                d = self.default_value(fi, p)
            if star is not None and p in pos and not fi.vararg:
                i = pos.index(p)
                x = star[0]
                v = self.item_term(self.strip(x), const(i))
                if d is not None:
                    ln = T('len', self.strip(x))
                    v = self.phi([(self.lt(const(i), ln), v),
                                  (self.bdd.neg(self.lt(const(i), ln)), d)])
                env[p] = v
                d = None if d is None else v
                if not dstar:
                    continue
            v = env.get(p, d)
            for ds in dstar:
                h, x = self.get_key(ds, p)
                if h == FALSE:
                    continue
                if v is None:
                    v = x
                else:
                    v = self.phi([(h, x), (self.bdd.neg(h), v)])
            if v is None:
                self.ev('badcall', self.st, name=fi.qual, value=const(p))
                v = T('unk', p)
            env[p] = v
        if fi.kwarg:
            r = self.mkdict()
            if len(dstar) == 1:
                b = dstar[0]
                self.st.store[(r, '$base')] = b
            elif dstar:
                self.st.store[(r, '$base')] = T('dict', (), *[
                    T('rest', self.snap(x)) for x in dstar])
            if dstar:
                for p in fi.params + fi.kwonly:
                    self.st.store[(r, '?' + p)] = FALSE_
                # snapshot: later changes of the source do not show
                b = dstar[0]
                if len(dstar) == 1 and b.op == 'ref':
                    self.copy_dict_into(r, b, skip=names)
            rec, self.record = self.record, False
            for k, v in extra:
                self.dict_set(r, const(k), v)
            self.record = rec
            env[fi.kwarg] = r
        return env

    def copy_dict_into(self, r, src, skip=()):
        st = self.st
        b = st.store.get((src, '$base'))
        if b is None:
            st.store.pop((r, '$base'), None)
        else:
            st.store[(r, '$base')] = b
        keys = st.store.get((src, '$keys'), T('seq')).args
        ents = [(k, v) for (x, k), v in st.store.items() if x is src]
        for k, v in ents:
            nm = k.lstrip('?')
            if k in ('$keys', '$base') or nm in skip:
                continue
            st.store[(r, k)] = v
        st.store[(r, '$keys')] = T('seq', *[
            s for s in keys if key_name(s.args[-1]) not in skip])

    def default_value(self, fi, p):
        d = fi.defaults[p]
        key = ('default', fi.id, p)
        try:
            return const(ast.literal_eval(d)) if not isinstance(
                d, (ast.List, ast.Dict, ast.Set)) else self.mut_default(
                    fi, p, d)
        except (ValueError, TypeError):
            pass
        saved = (self.frames, self.record, self.nodestack)
        fr = Frame(type('F', (), dict(
            module=fi.module, name='<module>', locals=set(), globals=set(),
            nonlocals=set(), qual=fi.module.name, cls=None, id=-1))(),
            'mod:' + fi.module.name, None)
        self.frames = [fr]
        try:
            parent = fi.parent
            v = self.eval(d)
        finally:
            self.frames, self.record, self.nodestack = saved
        return v

    def mut_default(self, fi, p, d):
        return T('new', 'default:%s:%s' % (fi.qual, p),
                 self.snap(self.eval(d)))

    def call_function(self, fi, args, kw, cls=None, yield_cb=None,
                      parent=None):
        st = self.st
        if fi.qual in self.opaque or self.calls.count(fi) >= 2 or \
                len(self.calls) >= self.max_depth:
            return self.opaque_call(fi, args, kw, yield_cb)
        env = self.bind(fi, args, kw)
        self.nframe += 1
        fr = Frame(fi, self.nframe, parent, cls=cls)
        fr.top = False
        fr.yield_cb = yield_cb
        self.ev('enter', st, name=fi.qual, kw=tuple(env.items()),
                args=tuple(args))
        for k, v in env.items():
            self.st.vars[(fr.id, k)] = v
        return self.run_frame(fr)

    def run_frame(self, fr):
        fi = fr.fi
        self.frames.append(fr)
        self.calls.append(fi)
        ctl = self.loopctl
        self.loopctl = []
        if fi.is_generator and fr.yield_cb is not None:
            self.loopctl = []
        try:
            if isinstance(fi.node, ast.Lambda):
                try:
                    v = self.eval(fi.node.body)
                    fr.returns.append((self.st, v))
                except Stop:
                    pass
                self.st = None
            else:
                self.exec_block(fi.node.body)
        finally:
            self.frames.pop()
            self.calls.pop()
            self.loopctl = ctl
        if self.st is not None:
            fr.returns.append((self.st, NONE))
        rets = [(s, v) for s, v in fr.returns if s is not None and
                self.feasible(s.pc)]
        if fr.top:
            self.top_returns = rets
        if not rets:
            self.st = None
            raise Stop()
        self.st = self.merge([s for s, v in rets])
        self.need()
        bd = self.bdd
        if len(rets) == 1:
            v = rets[0][1]
        else:
            P = self.st.pc
            v = self.phi([(bd.restrict(s.pc, P), v) for s, v in rets])
        keep = getattr(fr, 'has_closure', False) or fr.id in self.frame_map
        if not keep and not fi.is_generator:
            for k in [k for k in self.st.vars if k[0] == fr.id]:
                del self.st.vars[k]
        return self.simp(v, self.st.pc)

    def opaque_call(self, fi, args, kw, yield_cb=None):
        rec, self.record = self.record, False
        env = self.bind(fi, args, kw)
        self.record = rec
        order = fi.params + fi.kwonly
        a = tuple(self.totuple(self.snap(self.simp(env[p], self.st.pc)))
                  for p in order if p in env)
        k = ()
        if fi.vararg:
            k += (('*' + fi.vararg, self.snap(env[fi.vararg])),)
        if fi.kwarg:
            k += (('**', self.snap(env[fi.kwarg])),)
        t = T('call', T('ext', fi.qual), a, k)
        r = self.new(t)
        tag = self.types.get(fi.qual)
        if tag:
            self.types[r] = tag
        self.ev('call', self.st, fn=T('ext', fi.qual), name=fi.qual,
                args=a, kw=tuple((p, self.totuple(self.snap(self.simp(
                    env[p], self.st.pc)))) for p in env), value=r,
                res=tuple(env.get(p) for p in order))
        self.call_may_raise(t)
        if yield_cb is not None:
            tag = self.types.get(fi.qual + '[]')
            if tag is None:
                self.loop_over(T('unkiter', t), yield_cb)
            else:
                def typed(e):
                    self.types[e] = tag
                    return yield_cb(e)
                self.loop_over(T('iterof', t), typed)
        return r

    # -------------------------------------------------------------- objects
    def instantiate(self, qual, args, kw):
        if qual in self.opaque:
            a, k = self.snapargs(args, kw)
            ci = self.prog.classes[qual]
            init = self.find_method(ci, '__init__')
            if init is not None:
                rec, self.record = self.record, False
                env = self.bind(init, [NONE] + list(args), kw)
                self.record = rec
                a = tuple(self.totuple(self.snap(self.simp(
                    env[p], self.st.pc))) for p in init.params[1:]
                    if p in env)
                k = ()
            t = T('call', T('ext', qual), a, k)
            r = self.new(t)
            tag = self.types.get(qual)
            if tag:
                self.types[r] = tag
                self.types[t] = tag
            self.ev('call', self.st, fn=T('ext', qual), name=qual, args=a,
                    kw=k, value=r, res=tuple(args))
            self.call_may_raise(t)
            return r
        if qual == STREAM_QUAL:
            return self.mkstream_call(args, kw, qual)
        if qual == TRACE_QUAL:
            return self.mktrace(args, kw, qual)
        ci = self.prog.classes.get(qual)
        r = self.fresh('obj')
        self.refcls[r] = qual
        init = self.find_method(ci, '__init__')
        if init is not None:
            self.call_function(init, [r] + list(args), kw, cls=init.cls)
            self.need()
        else:
            for i, a in enumerate(args):
                self.st.store[(r, 'arg%d' % i)] = a
        return r

    def mkstream_call(self, args, kw, qual, fn=None):
        d = dict((k, v) for k, v in kw if k)
        x = args[0] if args else d.get('traces', NONE)
        return self.mkstream(x, qual, fn)

    def mkstream(self, x, qual=STREAM_QUAL, fn=None):
        x = self.simp(x, self.st.pc)
        if x.op == 'phi':
            return self.over_phi(x, lambda y: self.mkstream(y, qual, fn))
        r = self.fresh('obj')
        self.refcls[r] = qual or STREAM_QUAL
        if x is NONE:
            t = self.mklist(())
        elif self.stream_like(x) or (x.op == 'ref' and
                                     (x, 'traces') in self.st.store):
            y = self.read_field(x, 'traces')
            segs = self.seq_of(y)
            t = self.mklist(segs) if segs is not None else y
        elif self.typeof(x) in self.TRACES:
            t = self.mklist((T('one', x),))
        else:
            segs = self.seq_of(x)
            if segs is not None:
                t = self.mklist(segs)
            elif x.op == 'ref':
                t = self.mklist([T('one', s[2]) if s[0] == 'one' and
                                 s[1] == TRUE else T('opt', s[1], s[2])
                                 if s[0] == 'one' else T('each', *s[1:])
                                 for s in self.iter_segs(x)])
            elif x.op == 'values':
                t = x
            else:
                t = T('fld', self.strip(x), 'traces')
        self.st.store[(r, 'traces')] = t
        self.ev('new', self.st, name=self.refcls[r], value=r,
                args=(self.snap(t),), fn=fn)
        return r

    def mktrace(self, args, kw, qual):
        d = dict((k, v) for k, v in kw if k)
        names = ['data', 'header', 'trace']
        for n, a in zip(names, args):
            d[n] = a
        r = self.fresh('trace')
        self.refcls[r] = qual
        st = self.st
        s = self.fresh('stats')
        self.refcls[s] = 'Stats'
        st.store[(r, 'stats')] = s
        tr = d.get('trace', NONE)
        h = d.get('header', NONE)
        data = d.get('data', T('new', self.nfresh, T('lit', 'empty')))
        if tr is not NONE:
            data = self.read_field(tr, 'data')
            h = self.read_field(tr, 'stats')
        st.store[(r, 'data')] = data
        h = self.simp(h, st.pc)
        if h.op == 'ref' and h.args[1] == 'dict':
            for (b, k), v in list(st.store.items()):
                if b is h:
                    st.store[(s, k)] = v
        elif h.op == 'dict':
            for k, c, v in h.args[0]:
                st.store[(s, k)] = v
                st.store[(s, '?' + k)] = self.mkb(c)
        elif h is not NONE:
            st.store[(s, '$base')] = h
        self.ev('new', st, name=qual, value=r,
                args=(self.snap(data), self.snap(h)), recv=s)
        self.rawnew[r] = (('data', data), ('$header', h)) + tuple(
            (k, v) for (b, k), v in st.store.items() if b is s)
        return r

    def super_call(self, b, name, args, kw):
        self_ = b.args[1]
        ci = self.prog.classes.get(b.args[0])
        if ci is not None:
            for base in ci.bases:
                bn = base.split('.')[-1]
                for m in self.prog.modules.values():
                    if bn in m.classes:
                        fi = self.find_method(m.classes[bn], name)
                        if fi is not None:
                            return self.call_function(
                                fi, [self_] + list(args), kw, cls=fi.cls)
        if name == '__init__' and self_.op == 'ref':
            a, k = self.snapargs(args, kw)
            self.ev('call', self.st, fn=T('bound', T('super'), name),
                    name='super.' + name, recv=self_, args=a, kw=k,
                    res=tuple(args) + tuple(v for n, v in kw))
            return NONE
        return self.ext_method(self_, name, args, kw, sup=True)

    # ------------------------------------------------------ method dispatch
    def method(self, b, name, args, kw):
        st = self.st
        b = self.simp(b, st.pc)
        if b.op == 'phi':
            return self.over_phi(b, lambda x: self.call_attr(
                x, name, args, kw))
        if b.op == 'super':
            return self.super_call(b, name, args, kw)
        if b.op == 'ext':
            return self.call_ext(b.args[0] + '.' + name, args, kw)
        if b.op == 'ref' and b.args[1] in ('list', 'set'):
            r = self.list_method(b, name, args, kw)
            if r is not None:
                return r
        if b.op == 'ref' and b.args[1] == 'dict':
            r = self.dict_method(b, name, args, kw)
            if r is not None:
                return r
        if b.op == 'dict':
            if name == 'get':
                n = key_name(args[0])
                if n is not None:
                    h, v = self.get_key(b, n)
                    d = args[1] if len(args) > 1 else NONE
                    return self.phi([(h, v), (self.bdd.neg(h), d)])
            if name == 'keys':
                return b
        if name in STR_METHODS and not (
                name in ('count', 'find') and b.op in ('ref',)) and \
                self.typeof(b) not in self.STREAMS and \
                self.typeof(b) not in self.TRACES:
            r = self.str_method(b, name, args, kw)
            if r is not None:
                return r
        if name in ('get', 'keys', 'items', 'values', 'update', 'setdefault',
                    'pop') and (
                self.typeof(b) == 'Stats' or b.op in (
                    'sym', 'fld', 'item', 'dict', 'ref', 'new', 'group')) \
                and not (b.op == 'ref' and b.args[1] == 'list'):
            r = self.map_method(b, name, args, kw)
            if r is not None:
                return r
        if b.op == 'group' and name in ('append', 'extend'):
            v = args[0]
            if name == 'append':
                self.ev('group', st, recv=b.args[0], name=b.args[1],
                        value=v)
                dyn = st.store.get((b.args[0], '$dyn'), T('seq'))
                if dyn.op != 'seq':
                    dyn = T('seq', T('rest', dyn))
                segs = tuple(x for x in dyn.args if not (
                    x.args[-1].op == 'mk' and
                    x.args[-1].args[0] is b.args[1]))
                st.store[(b.args[0], '$dyn')] = T('seq', *(segs + (
                    T('one', T('member', b.args[1], v, b.args[2])),)))
                return NONE
        if (self.stream_like(b) or (b.op == 'ref' and (b, 'traces')
                                    in st.store)):
            r = self.stream_method(b, name, args, kw)
            if r is not None:
                return r
        return self.ext_method(b, name, args, kw)

    def stream_method(self, b, name, args, kw):
        st = self.st
        if name == 'sort' and b.op == 'ref':
            return self.sort_traces(b, args, kw)
        if name == 'select' and b.op == 'ref':
            return self.select_known(b, args, kw)
        if name in ('append', 'extend', 'insert') and b.op == 'ref':
            t = st.store.get((b, 'traces'))
            if t is not None and t.op == 'ref':
                if name == 'append':
                    self.list_append(t, args[0])
                elif name == 'extend':
                    self.list_extend(t, args[0])
                else:
                    return None
                return b
        return None

    ARRM = {'conj': 'conj', 'conjugate': 'conj', 'cumsum': 'cumsum',
            'argmax': 'argmax', 'argmin': 'argmin', 'transpose': 'transpose',
            'nonzero': 'nonzero'}

    def ext_method(self, b, name, args, kw, sup=False):
        st = self.st
        v = self.deref(b)
        if not kw and not args and not sup:
            if name in self.ARRM:
                return self.pure(self.ARRM[name], v)
            if name in ('max', 'min'):
                return self.pure('a' + name, self.strip(v))
            if name == 'copy':
                return self.copy_of(b)
        if name == 'get_id' and not args and not kw and not sup:
            return self.read_field(b, 'id')
        if name == 'sum' and not args and not sup and \
                not self.stream_like(b):
            return self.call_ext('numpy.sum', [b], kw)
        if name == 'mean' and not sup and not self.stream_like(b) and \
                not args:
            return self.call_ext('numpy.mean', [b], kw)
        if name == 'astype' and args:
            return self.new(T('astype', self.strip(v), self.snap(args[0])))
        a, k = self.norm_args('.' + name, args, kw)
        if b.op in ('ref',) and self.refcls.get(b) is None:
            base = self.snap(b)
        else:
            base = self.strip(b) if b.op != 'ref' else b
        t = T('mcall', base, name if not sup else 'super.' + name, a, k)
        tb = self.typeof(b)
        r = self.new(t)
        if self.oracle is not None:
            known = self.oracle(name, base, a, k)
            if known is not None:
                self.ev('call', st, fn=T('bound', base, name),
                        name='.' + name, recv=b, args=a, kw=k, value=r,
                        res=tuple(args))
                return known
        if name in MUTATORS and (tb in self.STREAMS or tb in self.TRACES or
                                 b.op in ('new', 'item', 'ref', 'fld',
                                          'sym', 'last')) and \
                self.maytrace(b, name):
            self.ev('call', st, fn=T('bound', base, name),
                    name='.' + name, recv=b, args=a, kw=k, value=r,
                    res=tuple(args) + tuple(x for n, x in kw), old=sup)
            self.call_may_raise(t)
            self.apply_mutator(b, name, t)
            return b
        if tb:
            tr = self.typeof(t)
            if tr:
                self.types[r] = tr
        self.ev('call', st, fn=T('bound', base, name),
                name=('super.' if sup else '.') + name, recv=b, args=a,
                kw=k, value=r, res=tuple(args) + tuple(x for n, x in kw),
                old=sup)
        if name in CONTAINER_MUT and not sup:
            self.ev('mutate', st, recv=b, name=name, args=a)
        self.call_may_raise(t)
        return r

    def maytrace(self, b, name):
        if name == 'sort' or name == 'filter':
            return self.typeof(b) in self.STREAMS or \
                self.typeof(b) in self.TRACES
        return True

    def apply_mutator(self, b, name, t):
        st = self.st
        tag = self.typeof(b)
        if tag in self.TRACES:
            s = self.read_field(b, 'stats')
            for f in sorted(MUTATORS[name]):
                if f in ('npts', 'traces'):
                    continue
                o = b if f == 'data' else s
                old = st.store.get((o, f))
                if old is None:
                    old = self.read_raw(o, f) if f != 'delta' else \
                        T('fld', o, 'delta')
                if f == 'delta':
                    continue
                st.store[(o, f)] = T('mut', self.strip(old), t)
            return
        for f in sorted(MUTATORS[name]):
            if f == 'traces':
                old = st.store.get((b, 'traces'))
                if old is None:
                    old = T('fld', b, 'traces')
                nt = T('mut', self.snap(old), t)
                self.types[nt] = 'tracelist'
                if name in ('sort', 'merge', 'trim', 'cutout', '_cleanup',
                            'rotate'):
                    if name != 'rotate':
                        st.store[(b, 'traces')] = nt
                continue
            prev = st.store.get((b, '$mut:' + f), NONE)
            st.store[(b, '$mut:' + f)] = T('mutchain', prev, t)

    def copy_of(self, b):
        st = self.st
        b = self.simp(b, st.pc)
        if b.op == 'ref':
            kind = b.args[1]
            if kind in ('list', 'set'):
                seq = st.store.get((b, '$seq'), T('seq'))
                r = self.fresh(kind)
                st.store[(r, '$seq')] = seq
                return r
            r = self.fresh(kind)
            if b in self.refcls:
                self.refcls[r] = self.refcls[b]
            for (x, k), v in list(st.store.items()):
                if x is b:
                    if k == 'stats' and v.op in ('ref', 'fld'):
                        v = self.copy_of(v)
                    if k == 'traces' and v.op == 'ref':
                        v = self.copy_of(v)
                    elif k == 'data':
                        v = self.new(self.deref(v))
                    st.store[(r, k)] = v
            return r
        tag = self.typeof(b)
        if tag in self.STREAMS or tag in self.TRACES or tag == 'Stats':
            t = T('copyof', self.strip(b))
            r = self.new(t)
            self.types[r] = tag
            self.types[t] = tag
            self.ev('call', st, fn=T('bound', self.strip(b), 'copy'),
                    name='.copy', recv=b, args=(), kw=(), value=r)
            for (x, k), v in list(st.store.items()):
                if x is b:
                    st.store[(r, k)] = v
                if tag in self.TRACES and x is T('fld', b, 'stats'):
                    st.store[(T('fld', r, 'stats'), k)] = v
            return r
        v = self.deref(b)
        if v.op in ('const', 'tuple'):
            return v
        return self.new(self.strip(v))

    # ------------------------------------------------------------ list/dict
    def list_append(self, ref, v):
        st = self.st
        self.ev('mutate', st, recv=ref, name='append', args=(v,))
        segs = st.store.get((ref, '$seq'), T('seq'))
        if segs.op != 'seq':
            segs = T('seq', T('rest', segs))
        st.store[(ref, '$seq')] = T('seq', *(segs.args + (T('one', v),)))

    def list_method(self, b, name, args, kw):
        st = self.st
        segs = st.store.get((b, '$seq'), T('seq'))
        if name == 'add' and len(args) == 1 and is_const(args[0]) and \
                segs.op == 'seq' and T('one', args[0]) in segs.args:
            return NONE
        if b.args[1] == 'set' and len(args) == 1 and name in (
                'difference', 'intersection', 'union'):
            return self.setop({'difference': 'sub', 'intersection': 'and',
                               'union': 'or'}[name], b, args[0])
        if b.args[1] == 'set' and len(args) == 1 and name == 'issubset':
            return self.mkb(self.bdd.neg(self.truth(
                self.setop('sub', b, args[0]))))
        if name in ('append', 'add') and len(args) == 1:
            self.list_append(b, args[0])
            return NONE
        if name in ('extend', 'update') and len(args) == 1:
            self.list_extend(b, args[0])
            return NONE
        if name == 'copy':
            return self.copy_of(b)
        if name == 'index' and len(args) == 1:
            ss = self.seq_of(b)
            x = self.cval_(args[0])
            if ss is not None and len(ss) == 1 and ss[0].op == 'each':
                return T('index', self.snap(b), x)
            return T('index', self.snap(b), x)
        if name == 'count' and len(args) == 1:
            return T('countof', self.snap(b), self.cval_(args[0]))
        if name == 'appendleft' and len(args) == 1:
            name, args = 'insert', [const(0)] + list(args)
        if name == 'insert' and len(args) == 2 and segs.op == 'seq' and \
                is_const(args[0]) and cval(args[0]) == 0:
            self.ev('mutate', st, recv=b, name=name, args=tuple(args))
            st.store[(b, '$seq')] = T('seq', *((T('one', args[1]),) +
                                               segs.args))
            return NONE
        if name == 'pop' and segs.op == 'seq' and segs.args and (
                not args or is_const(args[0])):
            i = cval(args[0]) if args else -1
            if all(s.op == 'one' for s in segs.args) and \
                    -len(segs.args) <= i < len(segs.args):
                self.ev('mutate', st, recv=b, name=name, args=tuple(args))
                l = list(segs.args)
                x = l.pop(i)
                st.store[(b, '$seq')] = T('seq', *l)
                return x.args[0]
            if i in (0, -1) and segs.args[i].op == 'one':
                self.ev('mutate', st, recv=b, name=name, args=tuple(args))
                st.store[(b, '$seq')] = T('seq', *(
                    segs.args[1:] if i == 0 else segs.args[:-1]))
                return segs.args[i].args[0]
            snap = self.snap(b)
            self.ev('mutate', st, recv=b, name=name, args=tuple(args))
            st.store[(b, '$seq')] = T('seq', T('rest', T(
                'popped', snap, const(i))))
            return T('item', snap, const(i)) if b.args[1] != 'set' else \
                T('anyitem', snap)
        if name in ('sort', 'reverse', 'remove', 'pop', 'clear', 'insert',
                    'discard'):
            a, k = self.snapargs(args, kw)
            self.ev('mutate', st, recv=b, name=name, args=a)
            snap = self.snap(b)
            if name == 'clear':
                st.store[(b, '$seq')] = T('seq')
            elif name == 'sort' and self.sort_known(
                    self.ones(b), kw) is not None:
                st.store[(b, '$seq')] = T('seq', *[
                    T('one', x) for x in self.sort_known(self.ones(b), kw)])
            elif name == 'sort':
                v = self.sorted_(snap, kw)
                st.store[(b, '$seq')] = T('seq', T('rest', self.strip(v)))
            elif name == 'reverse':
                if segs.op == 'seq' and all(s.op == 'one'
                                            for s in segs.args):
                    st.store[(b, '$seq')] = T('seq', *reversed(segs.args))
                else:
                    st.store[(b, '$seq')] = T('seq', T('rest',
                                                       T('rev', snap)))
            else:
                st.store[(b, '$seq')] = T('seq', T('rest', T(
                    'mcall', snap, name, a, k)))
                if name == 'pop':
                    return T('anyitem', snap)
            return NONE
        return None

    def sorted_(self, snap, kw):
        d = dict((k, v) for k, v in kw if k)
        key = d.get('key', NONE)
        if key.op == 'func':
            key = T('keyfn', self.fn_summary(key))
        return T('sorted', snap, self.snap(key),
                 self.snap(d.get('reverse', FALSE_)))

    def fn_summary(self, fn, n=1):
        """value of a function of symbolic arguments"""
        x = [T('sym', '$elem%s' % (i or '')) for i in range(n)]
        st = self.st
        self.st = st.copy()
        rec, self.record = self.record, False
        sinks, self.sinks = self.sinks, []
        esc, self.escaped = self.escaped, []
        try:
            v = self.call_value(fn, x, [])
            v = self.snap(v)
        except Stop:
            v = T('unk', 'keyfn')
        finally:
            self.st = st
            self.record = rec
            self.sinks, self.escaped = sinks, esc
        return v

    def dict_method(self, b, name, args, kw):
        st = self.st
        if name in ('get', 'pop', 'setdefault') and args:
            return self.map_method(b, name, args, kw)
        if name == 'keys':
            return b
        if name == 'copy':
            r = self.mkdict()
            for (x, k), v in list(st.store.items()):
                if x is b:
                    st.store[(r, k)] = v
            return r
        if name == 'update':
            for a in args:
                self.dict_update(b, a)
            for k, v in kw:
                if k is None:
                    self.dict_update(b, v)
                else:
                    self.dict_set(b, const(k), v)
            return NONE
        if name in ('items', 'values'):
            if (b, '$base') in st.store and (b, '$dyn') not in st.store:
                return T(name, self.snap(b))
            out = []
            f = (lambda k, v: T('tuple', k, v)) if name == 'items' else \
                (lambda k, v: v)
            ks = st.store.get((b, '$keys'), T('seq'))
            for s in ks.args:
                k = s.args[-1]
                h, v = self.dict_get(b, key_name(k))
                if not self.feasible(self.bdd.and_(st.pc, h)):
                    continue
                e = f(k, self.simp(v, st.pc))
                if self.bdd.implies(st.pc, h):
                    out.append(T('one', e))
                else:
                    out.append(T('opt', h, e))
            dyn = st.store.get((b, '$dyn'))
            if dyn is not None and dyn.op == 'seq':
                for s in dyn.args:
                    kv = s.args[-1]
                    if s.op in ('one', 'opt', 'each') and kv.op == 'kv':
                        out.append(T(s.op, *(s.args[:-1] + (
                            f(*kv.args),))))
                    else:
                        out.append(T('rest', T(name, self.snap(b))))
                        break
            elif dyn is not None:
                out.append(T('rest', T(name, self.snap(b))))
            if any(s.op == 'rest' for s in out) and len(out) == 1:
                return out[0].args[0]
            return self.mklist(out)
        if name == 'clear':
            for k in [k for k in st.store if k[0] is b]:
                del st.store[k]
            st.store[(b, '$keys')] = T('seq')
            self.ev('mutate', st, recv=b, name=name, args=())
            return NONE
        return None

    def dict_update(self, b, other):
        other = self.simp(other, self.st.pc)
        if other.op == 'phi':
            self.over_phi(other, lambda x: (self.dict_update(b, x), NONE)[1])
            return
        st = self.st
        if other.op == 'dict':
            ents = [(k, c, v) for k, c, v in other.args[0]]
            rest = other.args[1:]
            src = None
        elif other.op == 'ref' and other.args[1] == 'dict':
            ks = st.store.get((other, '$keys'), T('seq'))
            ents = []
            for s in ks.args:
                k = key_name(s.args[-1])
                h, v = self.dict_get(other, k)
                ents.append((k, h, v))
            rest = []
            src = st.store.get((other, '$base'))
            if (other, '$dyn') in st.store:
                rest = [st.store[(other, '$dyn')]]
            if src is not None and b.op == 'ref' and \
                    (b, '$dyn') not in st.store and not rest and \
                    (b, '$base') not in st.store and not st.store.get(
                        (b, '$keys'), T('seq')).args:
                # plain copy, keys taken out of the source stay out
                self.ev('mutate', st, recv=b, name='update',
                        args=(self.strip(src),))
                for (x, k), v in list(st.store.items()):
                    if x is other and (k[0] != '$' or k in ('$keys',
                                                            '$base')):
                        st.store[(b, k)] = v
                return
        else:
            segs = self.seq_of(other)
            if segs is not None:
                for s in segs:
                    kv = s.args[-1]
                    if s.op == 'one' and kv.op == 'tuple' and \
                            len(kv.args) == 2:
                        self.dict_set(b, *kv.args)
                    elif s.op == 'opt' and kv.op == 'tuple' and \
                            len(kv.args) == 2:
                        c = s.args[0]
                        self.over_phi(
                            T('phi', ((c, kv), (self.bdd.neg(c), NONE))),
                            lambda x: (x is NONE or self.dict_set(
                                b, *x.args), NONE)[1])
                        st = self.st
                    else:
                        self.ev('mutate', st, recv=b, name='update',
                                args=(self.snap(other),))
                        dyn = st.store.get((b, '$dyn'), T('seq'))
                        st.store[(b, '$dyn')] = T('seq', *(dyn.args + (
                            T('rest', T('items', s)),)))
                return
            ents, rest, src = [], [], other
        if src is not None:
            self.ev('mutate', st, recv=b, name='update',
                    args=(self.strip(src),))
            if b.op == 'ref':
                ob = st.store.get((b, '$base'))
                keys = [k[1][1:] for k in st.store
                        if k[0] is b and k[1].startswith('?')]
                for k in keys:
                    h0, v0 = self.dict_get(b, k)
                    h1, v1 = self.get_key(src, k)
                    st.store[(b, '?' + k)] = self.mkb(self.bdd.or_(h0, h1))
                    if v0 is not None and (b, k) in st.store:
                        st.store[(b, k)] = self.phi(
                            [(h1, v1), (self.bdd.neg(h1), v0)])
                if ob is None:
                    st.store[(b, '$base')] = src
                else:
                    st.store[(b, '$base')] = T('dict', (), T(
                        'rest', self.snap(ob)), T('rest', self.snap(src)))
            else:
                for k in [k for k in st.store if k[0] is b and
                          k[1][0] not in '?$']:
                    h1, v1 = self.get_key(src, k[1])
                    h0, v0 = self.get_key(b, k[1])
                    st.store[k] = self.phi([
                        (h1, v1), (self.bdd.neg(h1), st.store[k])])
                    st.store[(b, '?' + k[1])] = self.mkb(
                        self.bdd.or_(h0, h1))
                st.store[(b, '$over')] = T('over', src, st.store.get(
                    (b, '$over'), NONE))
        for k, h, v in ents:
            h = self.bdd.restrict(h, self.bdd.and_(
                st.pc, self.bdd.axioms)) if st.pc != FALSE else h
            if h == FALSE or v is None:
                continue
            if h == TRUE:
                self.set_key(b, k, v)
                continue
            h0, v0 = self.get_key(b, k)
            old = self.simp(v0, st.pc) if v0 is not None else v
            self.ev('store', st, recv=b, name=k, value=v)
            st.store[(b, k)] = self.phi([(h, v), (self.bdd.neg(h), old)])
            st.store[(b, '?' + k)] = self.mkb(self.bdd.or_(h, h0))
            if b.op == 'ref' and b.args[1] == 'dict':
                ks = st.store.get((b, '$keys'), T('seq'))
                kk = T('one', name_key(k))
                if kk not in ks.args:
                    st.store[(b, '$keys')] = T('seq', *(ks.args + (kk,)))
        for r in rest:
            self.ev('mutate', st, recv=b, name='update', args=(r,))

    def map_method(self, b, name, args, kw):
        st, bd = self.st, self.bdd
        if name == 'update':
            for a in args:
                self.dict_update(b, a)
            for k, v in kw:
                if k is None:
                    self.dict_update(b, v)
                else:
                    self.set_key(b, k, v)
            return NONE
        if name in ('keys', 'items', 'values'):
            if args:
                return None
            if name == 'keys':
                return T('keys', b)
            return T(name, self.snap(b))
        if not args:
            return None
        k = self.simp(args[0], st.pc)
        if k.op == 'phi' and all(key_name(x) for c, x in k.args[0]):
            return self.over_phi(k, lambda x: self.map_method(
                b, name, [x] + list(args[1:]), kw))
        n = key_name(k)
        d = args[1] if len(args) > 1 else dict(
            (x, y) for x, y in kw if x).get('default', NONE)
        if n is None:
            h = self.membership(k, b)
            if name == 'get':
                v = self.dict_item(b, k) if b.op == 'ref' and \
                    b.args[1] == 'dict' else T('item', self.strip(b),
                                               self.cval_(k))
                return self.phi([(h, v), (bd.neg(h), d)])
            if name == 'setdefault':
                x = self.cval_(k)
                if b.op == 'ref' and b.args[1] == 'dict' and \
                        (b, '$base') not in st.store:
                    m = self.maker(d)
                    if m is not None:
                        return T('group', b, x, m)
                e = self.ev('setdefault', st, recv=b, name=x, value=d)
                if b.op == 'ref' and b.args[1] == 'dict':
                    dyn = st.store.get((b, '$dyn'), T('seq'))
                    if dyn.op != 'seq':
                        dyn = T('seq', T('rest', dyn))
                    pv = self.dict_item(b, k) if h != FALSE else d
                    kv = T('kv', k, d)
                    st.store[(b, '$dyn')] = T('seq', *(dyn.args + (
                        T('opt', bd.neg(h), kv),)))
                    return self.phi([(h, pv), (bd.neg(h), d)])
            return None
        if isinstance(n, str) and n.startswith('#') and name == 'pop' and \
                b.op != 'ref':
            return None
        h, v = self.get_key(b, n)
        if name == 'get':
            return self.phi([(h, v), (bd.neg(h), d)])
        if name == 'setdefault':
            if h == TRUE:
                return v
            self.ev('store', st, recv=b, name=n,
                    value=self.phi([(h, v), (bd.neg(h), d)]))
            nv = self.phi([(h, v), (bd.neg(h), d)])
            rec, self.record = self.record, False
            self.set_key(b, n, nv)
            self.record = rec
            return nv
        if name == 'pop':
            if len(args) < 2 and not kw:
                self.key_guard(h)
                r = v
            else:
                r = self.phi([(h, v), (bd.neg(h), d)])
            self.need()
            r = self.simp(r, self.st.pc)
            self.del_key(b, n)
            return r
        return None

    # --------------------------------------------------------------- strings
    def str_method(self, b, name, args, kw):
        v = self.deref(b)
        bd = self.bdd
        if v.op == 'phi':
            return self.over_phi(v, lambda x: self.method(x, name, args, kw))
        if v.op == 'ref' or v.op == 'tuple':
            if name not in ('count',):
                return None
        args = [self.simp(a, self.st.pc) for a in args]
        if name == 'format':
            if is_str(v):
                return self.format_(cval(v), args, kw)
            a, k = self.snapargs(args, kw)
            return T('mcall', self.strip(v), 'format', a, k)
        if name == 'join' and len(args) == 1:
            x = args[0]
            if x.op == 'phi':
                return self.over_phi(x, lambda y: self.str_method(
                    b, name, [y], kw))
            segs = self.seq_of(x)
            if segs is not None and all(s.op == 'one' for s in segs):
                parts = []
                for i, s in enumerate(segs):
                    if i:
                        parts.append(v)
                    parts.append(self.deref(s.args[0]))
                return self.concat(parts) if parts else const('')
            return T('mcall', self.strip(v), 'join', (self.snap(x),), ())
        if name in ('startswith', 'endswith') and args:
            a = args[0]
            if a.op == 'tuple':
                return self.mkb(bd.or_(*[self.truth(self.str_method(
                    b, name, [x], kw)) for x in a.args]))
            if is_str(v) and is_str(a):
                return const(getattr(cval(v), name)(cval(a)))
            if is_str(a) and len(cval(a)) == 1:
                i = -1 if name == 'endswith' else 0
                return self.mkb(self.eq(self.item_term(
                    self.strip(v), const(i)), a))
            return self.mkb(self.atom(T('mcall', self.strip(v), name,
                                        (self.snap(a),), ())))
        if is_str(v) and all(tm.all_const(self.snap(a)) for a in args) and \
                not kw:
            try:
                r = getattr(cval(v), name)(*[tm.pyval(self.snap(a))
                                             for a in args])
            except Exception:
                return T('unk', 'str')
            if isinstance(r, list):
                return self.mklist([T('one', const(x)) for x in r])
            return const(r)
        if name in ('upper', 'lower') and not args:
            if v.op == 'mcall' and v.args[1] in ('upper', 'lower'):
                return T('mcall', v.args[0], name, (), ())
            return T('mcall', self.strip(v), name, (), ())
        a, k = self.snapargs(args, kw)
        t = T('mcall', self.strip(v), name, a, k)
        if name in ('split', 'rsplit', 'partition', 'splitlines'):
            return self.new(t)
        return t

    # ============================================== external function calls
    def canon_ext(self, name):
        name = OBSPY_ALIAS.get(name, name)
        if name in ('numpy.ma.masked_array', 'numpy.ma.core.MaskedArray'):
            return 'numpy.ma.MaskedArray'
        if name.startswith('obspy.'):
            last = name.split('.')[-1]
            if last in OBSPY_TOP and 'io' not in name.split('.'):
                return 'obspy.' + last
        if name == 'numpy.amax':
            return 'numpy.max'
        if name == 'numpy.amin':
            return 'numpy.min'
        return name

    def norm_args(self, name, args, kw):
        sig = SIGS.get(name) if not name.startswith('.') else \
            MSIGS.get(name[1:])
        if name in PARSER:
            # texts for humans
            kw = [(n, x) for n, x in kw if n not in (
                'help', 'description', 'epilog', 'title', 'metavar')]
            if name == '.add_argument_group':
                args = []
        a, k = self.snapargs(args, kw)
        a = tuple(self.totuple(x) for x in a)
        k = tuple((n, self.totuple(x)) for n, x in k)
        if sig and not any(x.op == 'star' for x in a):
            d = dict(k)
            ok = len(a) <= len(sig)
            if ok:
                for n, x in zip(sig, a):
                    d[n] = x
                for n in list(d):
                    if MDEFAULT.get((name, n)) is d[n]:
                        del d[n]
                return (), self.foldkw(tuple(sorted(
                    d.items(), key=lambda e: (e[0] is None, e[0] or ''))))
        return a, self.foldkw(k)

    def foldkw(self, k):
        """f(a=1, **d) and f(**dict(d, a=1)) are the same call"""
        stars = [x for n, x in k if n is None]
        if len(stars) != 1 or len(k) == 1 or stars[0].op != 'dict':
            return k
        d = stars[0]
        ents = {n: (n, h, v) for n, h, v in d.args[0]}
        for n, x in k:
            if n is not None:
                ents[n] = (n, TRUE, x)
        return ((None, T('dict', tuple(ents[n] for n in sorted(ents)),
                         *d.args[1:])),)

    def totuple(self, x):
        if x.op == 'list' and all(s.op == 'one' for s in x.args):
            return T('tuple', *[self.totuple(s.args[0]) for s in x.args])
        if x.op == 'new':
            return self.totuple(x.args[1])
        if x.op == 'array':
            return self.totuple(x.args[0])
        return x

    def call_ext(self, name, args, kw):
        name = self.canon_ext(name)
        args = [self.simp(a, self.st.pc) for a in args]
        kw = [(k, self.simp(v, self.st.pc)) for k, v in kw]
        mod, _, last = name.rpartition('.')
        if mod == 'builtins':
            m = getattr(self, 'b_' + last, None)
            if m is not None:
                r = m(args, kw)
                if r is not None:
                    return r
        elif mod in ('numpy', 'math', 'cmath', 'operator'):
            r = self.np_call(last, args, kw, mod)
            if r is not None:
                return r
        if name in ('numpy.ma.isMaskedArray', 'numpy.ma.isMA',
                    'numpy.ma.isarray') and len(args) == 1 and not kw:
            return self.mkb(self.isinstance1(
                args[0], T('ext', 'numpy.ma.MaskedArray')))
        m = getattr(self, 'x_' + name.replace('.', '_') + '_', None)
        if m is not None:
            r = m(args, kw)
            if r is not None:
                return r
        return self.ext_call(name, args, kw)

    def x_os_makedirs_(self, args, kw):
        d = dict(kw)
        if set(d) == {'exist_ok'} and len(args) == 1:
            ok = self.truth(d['exist_ok'])
            there = self.truth(self.call_ext('os.path.isdir', args, []))
            self.branch(self.bdd.and_(ok, there), lambda: None,
                        lambda: self.ext_call('os.makedirs', args, []))
            if self.st is None:
                raise Stop()
            return NONE
        return None

    def ext_call(self, name, args, kw):
        a, k = self.norm_args(name, args, kw)
        t = T('call', T('ext', name), a, k)
        r = self.new(t)
        self.ev('call', self.st, fn=T('ext', name), name=name, args=a, kw=k,
                value=r, res=tuple(args) + tuple(x for n, x in kw))
        if name not in NORAISE:
            self.call_may_raise(t)
        if name in ('obspy.read',):
            self.types[r] = 'Stream'
        return r

    def np_call(self, fn, args, kw, mod):
        st = self.st
        if fn == 'flatnonzero' and len(args) == 1 and not kw:
            # the indices of a one-dimensional array
            return self.subscript(self.pure('nonzero',
                                            self.arrval(args[0])), const(0))
        if fn in UNARY and len(args) == 1 and not kw:
            op = UNARY[fn]
            v = self.arrval(args[0])
            return self.pure(op, v)
        if fn in ('cumsum', 'diff') and len(args) == 1:
            return None
        if fn in BINARY and len(args) == 2 and not kw:
            return self.binop(BINARY[fn], self.arrval(args[0]),
                              self.arrval(args[1]))
        if fn == 'sqrt' and len(args) == 1 and not kw:
            return self.lift(lambda x: power(x, const(0.5)),
                             self.arrval(args[0]))
        if fn == 'square' and len(args) == 1:
            return self.lift(lambda x: power(x, const(2)),
                             self.arrval(args[0]))
        if fn in ('negative', 'neg') and len(args) == 1:
            return self.lift(neg, self.arrval(args[0]))
        if fn in ('radians', 'deg2rad') and len(args) == 1:
            return self.lift(lambda x: mul(x, DEG), self.arrval(args[0]))
        if fn in ('degrees', 'rad2deg') and len(args) == 1:
            return self.lift(lambda x: div(x, DEG), self.arrval(args[0]))
        if fn in ('flip', 'flipud') and len(args) == 1 and not kw:
            return self.rev(self.arrval(args[0]))
        if fn in ('max', 'min') and mod == 'numpy' and len(args) == 1 and \
                not kw:
            return self.pure('a' + fn, self.arrval(args[0]))
        if fn in ('maximum', 'minimum') and len(args) == 2 and not kw:
            def f(x, y):
                if y.id < x.id:
                    x, y = y, x
                return T(fn, x, y)
            return self.lift(f, self.arrval(args[0]), self.arrval(args[1]))
        if mod == 'numpy' and fn in ('sum', 'mean') and args:
            d = dict((k, v) for k, v in kw if k)
            if len(args) > 1:
                d['axis'] = args[1]
            a0 = args[0]
            if a0.op == 'new' and self.deref(a0).op == 'array':
                a0 = self.deref(a0).args[0]
            segs = self.seq_of(a0)
            if segs is not None:
                if d.get('axis', NONE) is const(0) and set(d) <= {'axis'}:
                    s = self.sum_segs(segs)
                    if s is not None:
                        if fn == 'mean':
                            return self.new(div(s, self.length(a0)))
                        return self.new(s)
        if mod == 'numpy' and fn in ('array', 'asarray', 'ascontiguousarray',
                                     'asanyarray', 'copy') and args:
            x = args[0]
            segs = self.seq_of(x)
            if x.op == 'ref' or x.op == 'tuple':
                k = tuple((n, v) for n, v in kw)
                s = self.totuple(self.snap(x))
                if x.op == 'ref' and s.op != 'tuple':
                    pass
                return self.new(T('array', s))
            if fn in ('asarray', 'asanyarray', 'ascontiguousarray'):
                return x
            return self.new(self.strip(self.deref(x)))
        if mod == 'numpy' and fn in ('hstack', 'concatenate') and \
                len(args) == 1 and not kw:
            x = args[0]
            segs = self.seq_of(x)
            if segs is not None:
                return self.new(T('hcat', *[
                    T('one', self.totuple(self.snap(s.args[0])))
                    if s.op == 'one' else self.snap_seg(s, 6, ())
                    for s in segs]))
        if mod == 'numpy' and fn == 'roll':
            return None
        if mod == 'math' and fn == 'hypot':
            return None
        if mod == 'numpy' and fn == 'errstate':
            return self.new(T('errstate'))
        return None

    def arrval(self, v):
        if v.op == 'ref':
            return self.totuple(self.snap(v))
        if v.op == 'phi':
            return self.phi([(c, self.arrval(x)) for c, x in v.args[0]])
        v = self.deref(v)
        if self.typeof(v) in self.TRACES:
            return self.arrval(self.read_field(v, 'data'))
        v = self.plain(v)
        return v

    def sum_segs(self, segs):
        tot = const(0)
        for s in segs:
            if s.op == 'one':
                tot = add(tot, self.arrval(s.args[0]))
            elif s.op == 'opt':
                tot = add(tot, T('sum', (), s.args[0],
                                 self.arrval(s.args[1])))
            elif s.op == 'each':
                tot = add(tot, self.sum_term(s.args[0], s.args[1],
                                             self.arrval(s.args[2])))
            else:
                return None
        return tot

    # ------------------------------------------------------------- builtins
    def b_len(self, args, kw):
        if args and args[0].op in ('gencall', 'genexp'):
            self.may_raise(TRUE, T('excls', 'TypeError'))
            raise Stop()
        return self.length(args[0])

    def b_range(self, args, kw):
        a = [self.deref(x) for x in args]
        if any(x.op == 'star' for x in a):
            return None
        if len(a) == 1:
            a = [const(0), a[0], const(1)]
        elif len(a) == 2:
            a = a + [const(1)]
        if all(is_num(x) for x in a):
            r = range(*[int(cval(x)) for x in a])
            if len(r) <= MAXUNROLL:
                return T('tuple', *[const(i) for i in r])
        a = [self.strip(x) for x in a]
        return T('range', *a)

    def b_enumerate(self, args, kw):
        d = dict((k, v) for k, v in kw if k)
        start = args[1] if len(args) > 1 else d.get('start', const(0))
        out, n = [], start
        for s in self.iter_segs(args[0]):
            if s[0] == 'one' and s[1] == TRUE:
                out.append(T('one', T('tuple', n, s[2])))
                n = add(n, const(1))
            elif s[0] == 'one':
                out.append(T('opt', s[1], T('tuple', n, s[2])))
                n = add(n, T('count', (), s[1]))
            else:
                _, doms, c, e = s
                if len(doms) == 1:
                    d0 = sum(1 for l in self.loops if l.dom is doms[0])
                    i = T('idx', doms[0], d0)
                    p = i if c == TRUE else T('pos', i, c)
                    out.append(T('each', doms, c, T('tuple', add(n, p), e)))
                else:
                    out.append(T('each', doms, c, T('tuple', T(
                        'pos', T('idx', doms, 0), c), e)))
                n = add(n, self.length(T('list', T('each', doms, c, e))))
        return self.mklist(out)

    def b_zip(self, args, kw):
        cols = []
        for a in args:
            if a.op == 'star':
                # zip(*x): transposition of a closed sequence
                segs = self.seq_of(self.simp(a.args[0], self.st.pc))
                if segs and all(x.op in ('one', 'opt', 'each') and
                                x.args[-1].op == 'tuple' for x in segs) and \
                        any(x.op == 'each' for x in segs) and \
                        len({len(x.args[-1].args) for x in segs}) == 1:
                    return self.mklist([T('one', self.mklist(
                        [T(x.op, *(x.args[:-1] + (x.args[-1].args[k],)))
                         for x in segs], 'list'))
                        for k in range(len(segs[0].args[-1].args))])
                return self.new(T('zipstar', self.snap(a.args[0])))
            cols.append(self.simp(a, self.st.pc))
        segs = []
        for c in cols:
            s = self.seq_of(c)
            if s is None:
                its = self.iter_segs(c)
                if all(x[0] == 'one' and x[1] == TRUE for x in its):
                    s = tuple(T('one', x[2]) for x in its)
            segs.append(s)
        if all(s is not None and all(x.op == 'one' for x in s)
               for s in segs):
            out = [T('one', T('tuple', *[x.args[0] for x in row]))
                   for row in zip(*segs)]
            return self.mklist(out)
        # open sequences: align on one generic index
        lead = None
        for c in cols:
            its = self.iter_segs(c)
            if len(its) == 1 and its[0][0] == 'each' and \
                    len(its[0][1]) == 1:
                lead = its[0]
                lc = c
                break
        if lead is None:
            self.unsupported.append(('zip of open sequences', 0))
            return T('zip', *[self.snap(c) for c in cols])
        _, doms, cond, _ = lead
        d0 = sum(1 for l in self.loops if l.dom is doms[0])
        i = T('idx', doms[0], d0)
        p = i if cond == TRUE else T('pos', i, cond)
        row = []
        for c, s in zip(cols, segs):
            its = self.iter_segs(c)
            if len(its) == 1 and its[0][0] == 'each' and \
                    its[0][1] == doms and its[0][2] == cond:
                row.append(its[0][3])
            else:
                lst = T('list', *s) if s is not None else self.strip(
                    self.deref(c))
                if self.stream_like(c):
                    lst = self.read_field(c, 'traces')
                row.append(self.item_term(lst, p))
        return self.mklist((T('each', doms, cond, T('tuple', *row)),))

    def b_reversed(self, args, kw):
        segs = self.seq_of(args[0])
        if segs is not None and all(s.op == 'one' for s in segs):
            return self.mklist(tuple(reversed(segs)))
        return self.rev(self.snap(args[0]) if args[0].op == 'ref'
                        else self.deref(args[0]))

    def ones(self, v):
        """the elements of a sequence with a known number of elements"""
        if v.op not in ('ref', 'tuple', 'list', 'new', 'items', 'values',
                        'keys'):
            return None
        if v.op != 'new' and (v.op in ('items', 'values', 'keys') or
                              v.op == 'ref' and v.args[1] == 'dict'):
            segs = self.iter_segs(v)
            if any(x[0] != 'one' or x[1] != TRUE for x in segs):
                return None
            return [x[2] for x in segs]
        if v.op == 'ref' and (v, 'traces') in self.st.store:
            v = self.simp(self.st.store[(v, 'traces')], self.st.pc)
        segs = self.seq_of(v)
        if segs is None or any(x.op != 'one' for x in segs):
            return None
        return [x.args[0] for x in segs]

    def const_keys(self, elems, key):
        """constant sort keys of the elements"""
        out = []
        try:
            for e in elems:
                k = e if key is NONE else self.call_value(key, [e], [])
                out.append(tm.pyval(self.totuple(self.snap(
                    self.simp(k, self.st.pc)))))
        except ValueError:
            return None
        return out

    def sort_known(self, elems, kw):
        d = dict((k, v) for k, v in kw if k)
        rev = d.get('reverse', FALSE_)
        if elems is None or set(d) - {'key', 'reverse'} or \
                not is_const(rev):
            return None
        ks = self.const_keys(elems, d.get('key', NONE))
        if ks is None:
            return None
        try:
            order = sorted(range(len(ks)), key=ks.__getitem__,
                           reverse=bool(cval(rev)))
        except TypeError:
            return None
        return [elems[i] for i in order]

    def x_itertools_groupby_(self, args, kw):
        d = dict((k, v) for k, v in kw if k)
        key = args[1] if len(args) > 1 else d.get('key', NONE)
        elems = self.ones(self.simp(args[0], self.st.pc))
        if elems is None:
            return None
        ks = self.const_keys(elems, key)
        if ks is None:
            return None
        out = []
        for k, e in zip(ks, elems):
            if not out or out[-1][0] != k:
                out.append((k, []))
            out[-1][1].append(T('one', e))
        return self.mklist([T('one', T('tuple', self.pyterm(k),
                                       self.mklist(g))) for k, g in out])

    def pyterm(self, v):
        if isinstance(v, tuple):
            return T('tuple', *[self.pyterm(x) for x in v])
        return const(v)

    def sort_traces(self, b, args, kw):
        """stream.sort() by constant header entries"""
        d = dict((k, v) for k, v in kw if k)
        for n, a in zip(('keys', 'reverse'), args):
            d[n] = a
        ks = self.ones(d['keys']) if 'keys' in d else None
        rev = d.get('reverse', FALSE_)
        elems = self.ones(b)
        if ks is None or elems is None or not is_const(rev) or \
                not all(is_str(k) for k in ks):
            return None
        vals = []
        for e in elems:
            st = self.read_field(e, 'stats')
            row = []
            for k in ks:
                v = self.simp(self.read_field(st, cval(k)), self.st.pc)
                if not is_const(v):
                    return None
                row.append(cval(v))
            vals.append(row)
        try:
            order = sorted(range(len(vals)), key=vals.__getitem__,
                           reverse=bool(cval(rev)))
        except TypeError:
            return None
        t = self.simp(self.st.store[(b, 'traces')], self.st.pc)
        self.ev('mutate', self.st, recv=b, name='sort', args=tuple(args))
        self.st.store[(t, '$seq')] = T('seq', *[T('one', elems[i])
                                                for i in order])
        return b

    def select_known(self, b, args, kw):
        """stream.select() by constant codes"""
        elems = self.ones(b)
        if args or elems is None or not kw or any(
                k not in ('id', 'network', 'station', 'location', 'channel',
                          'component') or not is_str(v) for k, v in kw):
            return None
        out = []
        for e in elems:
            ok = True
            for k, v in kw:
                if k == 'id':
                    x = self.read_field(e, 'id')
                else:
                    x = self.read_field(
                        self.read_field(e, 'stats'),
                        'channel' if k == 'component' else k)
                x = self.simp(x, self.st.pc)
                if not is_str(x):
                    return None
                x = cval(x).upper()
                if k == 'component':
                    x = x[-1:]
                ok = ok and fnmatch.fnmatchcase(x, cval(v).upper())
            if ok:
                out.append(T('one', e))
        return self.mkstream(self.mklist(out), self.refcls.get(b))

    def b_sorted(self, args, kw):
        v = args[0]
        if kw:
            r = self.sort_known(self.ones(self.simp(v, self.st.pc)), kw)
            if r is not None:
                return self.mklist([T('one', x) for x in r])
        s = self.snap(v)
        if s.op in ('list', 'set', 'tuple') and not kw:
            if s.op != 'tuple' and all(
                    x.op in ('one', 'opt') and is_str(x.args[-1])
                    for x in s.args):
                return self.mklist(sorted(
                    s.args, key=lambda x: cval(x.args[-1])))
            try:
                return self.mklist([T('one', const(x))
                                    for x in sorted(tm.pyval(
                                        T('seq', *s.args) if s.op != 'tuple'
                                        else s))])
            except (ValueError, TypeError):
                pass
        pv = self.simp(v, self.st.pc)
        if pv.op == 'ref' and pv.args[1] == 'dict' and not kw or \
                pv.op == 'keys' and not kw or \
                pv.op == 'items' and self.by_first(kw):
            segs = self.iter_segs(pv)
            ks = [self.first_key(pv, x[2]) if x[0] == 'one' else None
                  for x in segs]
            if all(k is not None for k in ks) and len(set(ks)) == len(ks):
                order = sorted(range(len(ks)), key=ks.__getitem__)
                return self.mklist([
                    T('one', segs[i][2]) if segs[i][1] == TRUE else
                    T('opt', segs[i][1], segs[i][2]) for i in order])
        if v.op == 'ref' and v.args[1] == 'dict':
            s = T('keysof', s)
        if s.op == 'items' and self.by_first(kw):
            # keys are unique, the values do not matter for the order
            keys = T('sorted', T('keysof', s.args[0]), NONE, FALSE_)
            return self.mklist((T('each', *self.items_seg(
                keys, s.args[0])[1:]),))
        return self.new(self.sorted_(s, kw))

    def first_key(self, v, x):
        if v.op == 'items':
            x = self.plain(x)
            x = x.args[0] if x.op == 'tuple' and x.args else None
        return cval(x) if x is not None and is_str(x) else None

    def by_first(self, kw):
        if not kw:
            return True
        if len(kw) == 1 and kw[0][0] == 'key':
            e = T('sym', '$elem')
            f = self.plain(kw[0][1])
            if f.op == 'func':
                return self.fn_summary(f) is T('item', e, const(0))
            if f.op == 'new':
                f = f.args[1]
            return f.op == 'call' and f.args[0] is T(
                'ext', 'operator.itemgetter') and \
                f.args[1] == (const(0),)
        return False

    def b_list(self, args, kw):
        return self.to_list(args, 'list')

    def b_set(self, args, kw):
        return self.to_list(args, 'set')

    b_frozenset = b_set

    def to_list(self, args, kind):
        if not args:
            return self.mklist((), kind)
        v = args[0]
        if v.op == 'gencall' or (self.class_of(v) is not None and
                                 not self.stream_like(v)):
            r = self.mklist((), kind)
            self.loop_over(v, lambda x: self.list_append(r, x))
            self.need()
            return r
        segs = []
        for s in self.iter_segs(v):
            segs.append(T('one', s[2]) if s[0] == 'one' and s[1] == TRUE
                        else T('opt', s[1], s[2]) if s[0] == 'one'
                        else T('each', *s[1:]))
        return self.mklist(segs, kind)

    def b_tuple(self, args, kw):
        if not args:
            return T('tuple')
        v = args[0]
        if v.op == 'new' and v.args[1].op == 'zipstar':
            x = v.args[1].args[0]
            return self.new(T('zipped', x)) if x.op != 'tuple' else \
                T('tuple', *[T('tuple', *c) for c in zip(
                    *[y.args for y in x.args if y.op == 'tuple'])])
        segs = self.seq_of(v)
        if segs is not None and all(s.op == 'one' for s in segs):
            return T('tuple', *[s.args[0] for s in segs])
        return self.to_list(args, 'list')

    def b_dict(self, args, kw):
        r = self.mkdict()
        for a in args:
            self.dict_update(r, a)
        for k, v in kw:
            if k is None:
                self.dict_update(r, v)
            else:
                rec, self.record = self.record, False
                self.dict_set(r, const(k), v)
                self.record = rec
        return r

    def b_str(self, args, kw):
        if not args:
            return const('')
        v = self.deref(args[0])
        if is_const(v):
            return const(str(cval(v)))
        return self.mkfmt([T('fv', self.snap(v), '', '')])

    def b_repr(self, args, kw):
        return self.mkfmt([T('fv', self.snap(args[0]), 'r', '')])

    def b_format(self, args, kw):
        sp = cval(args[1]) if len(args) > 1 and is_str(args[1]) else ''
        return self.mkfmt([T('fv', self.snap(args[0]), '', sp)])

    def b_int(self, args, kw):
        if not args:
            return const(0)
        v = self.deref(args[0])

        def f(x):
            x = self.plain(x)
            if is_num(x):
                return const(int(cval(x)))
            if is_str(x):
                try:
                    return const(int(cval(x)))
                except ValueError:
                    return T('unk', 'int')
            if self.is_int(x) or x.op in ('round', 'int'):
                return x
            return T('int', x)
        return self.lift(f, v)

    def b_round(self, args, kw):
        if len(args) == 1 and not kw:
            return self.lift(lambda x: const(round(cval(x)))
                             if is_num(x) else T('round', self.plain(x)),
                             self.deref(args[0]))

    def b_float(self, args, kw):
        v = self.deref(args[0])
        if is_str(v):
            return None
        return v

    def b_bool(self, args, kw):
        return self.mkb(self.truth(self.simp(args[0], self.st.pc), self.st))

    def b_abs(self, args, kw):
        return self.pure('abs', self.arrval(args[0]))

    def b_pow(self, args, kw):
        return self.binop('pow', args[0], args[1]) if len(args) == 2 \
            else None

    def minmax(self, fn, args, kw):
        if len(args) == 1 and not kw:
            segs = self.seq_of(args[0])
            if segs is not None and all(s.op == 'one' for s in segs) and \
                    segs:
                vals = [s.args[0] for s in segs]
            else:
                if segs is not None and len(segs) == 1 and \
                        segs[0].op == 'each':
                    s = self.rename_each(segs[0])
                    return T('run' + fn, NONE, s[0], s[1], self.cval_(s[2]))
                if segs is not None and sum(
                        x.op == 'each' for x in segs) == 1 and all(
                        x.op in ('one', 'each') for x in segs):
                    s = self.rename_each([x for x in segs
                                          if x.op == 'each'][0])
                    own = [self.cval_(x.args[0]) for x in segs
                           if x.op == 'one']
                    init = own[0] if len(own) == 1 else \
                        self.minmax(fn, own, ())
                    return T('run' + fn, init, s[0], s[1],
                             self.cval_(s[2]))
                return self.pure('a' + fn, self.arrval(args[0]))
        elif kw:
            return None
        else:
            vals = args
        if any(x.op == 'star' for x in vals):
            return None
        vals = [self.cval_(x) for x in vals]
        if all(is_num(x) for x in vals):
            return const((max if fn == 'max' else min)(
                cval(x) for x in vals))

        def f(*xs):
            xs = sorted(set(xs), key=lambda t: t.id)
            run = [x for x in xs if x.op == 'run' + fn and
                   x.args[0] is NONE]
            if len(run) == 1 and len(xs) > 1:
                # together with all elements of a collection
                rest = [x for x in xs if x is not run[0]]
                return T('run' + fn, f(*rest), *run[0].args[1:])
            return xs[0] if len(xs) == 1 else T(fn + '2', *xs)
        return self.lift(f, *vals)

    def b_max(self, args, kw):
        return self.minmax('max', args, kw)

    def b_min(self, args, kw):
        return self.minmax('min', args, kw)

    def b_sum(self, args, kw):
        segs = self.seq_of(args[0])
        d = dict((k, v) for k, v in kw if k)
        start = args[1] if len(args) > 1 else d.get('start', const(0))
        if segs is None:
            v = args[0]
            its = self.iter_segs(v)
            segs = [T('one', s[2]) if s[0] == 'one' and s[1] == TRUE
                    else T('opt', s[1], s[2]) if s[0] == 'one'
                    else T('each', *s[1:]) for s in its]
        if start.op == 'ref' or self.stream_like(start):
            x = self.new(T('sumobj', T('list', *[self.snap_seg(s, 6, ())
                                                 for s in segs]),
                           self.snap(start)))
            self.types[x] = self.typeof(start)
            return x
        s = self.sum_segs(segs)
        if s is None:
            return None
        return self.binop('add', start, s)

    def anyall(self, args, isany):
        v = args[0]
        bd = self.bdd
        segs = self.seq_of(v)
        if segs is None:
            segs = [T('one', s[2]) if s[0] == 'one' and s[1] == TRUE
                    else T('opt', s[1], s[2]) if s[0] == 'one'
                    else T('each', *s[1:]) for s in self.iter_segs(v)]
        r = FALSE
        for s in segs:
            def tv(x):
                c = self.truth(self.simp(x, self.st.pc), self.st)
                return c if isany else bd.neg(c)
            if s.op == 'one':
                r = bd.or_(r, tv(s.args[0]))
            elif s.op == 'opt':
                r = bd.or_(r, bd.and_(s.args[0], tv(s.args[1])))
            elif s.op == 'each':
                r = bd.or_(r, self.anyof(s.args[0], bd.and_(
                    s.args[1], tv(s.args[2]))))
            else:
                r = bd.or_(r, self.atom(T('anyrest', s, isany)))
        return self.mkb(r if isany else bd.neg(r))

    def b_any(self, args, kw):
        return self.anyall(args, True)

    def b_all(self, args, kw):
        return self.anyall(args, False)

    def b_iter(self, args, kw):
        return args[0]

    @staticmethod
    def is_set(v):
        return v.op == 'set' or v.op == 'ref' and v.args[1] == 'set' or \
            v.op == 'new' and v.args[1].op == 'set'

    def b_next(self, args, kw):
        v = args[0]
        segs = self.seq_of(v)
        if self.is_set(v) and (
                segs is None or any(s.op != 'one' for s in segs)):
            # the first entry of a set is any of them
            return T('anyitem', self.snap(v))
        d = args[1] if len(args) > 1 else None
        if segs is not None:
            ents, none = [], TRUE
            bd = self.bdd
            for s in segs:
                if s.op == 'one':
                    ents.append((none, s.args[0]))
                    none = FALSE
                    break
                if s.op == 'opt':
                    ents.append((bd.and_(none, s.args[0]), s.args[1]))
                    none = bd.and_(none, bd.neg(s.args[0]))
                elif s.op == 'each':
                    a = self.anyof(s.args[0], s.args[1])
                    fv = T('first', s.args[0], s.args[1], s.args[2])
                    t = self.typeof(s.args[2])
                    if t:
                        self.types[fv] = t
                    ents.append((bd.and_(none, a), fv))
                    none = bd.and_(none, bd.neg(a))
                else:
                    return None
            if d is not None:
                ents.append((none, d))
            elif none != FALSE and self.want_split(['StopIteration']):
                self.may_raise(none, T('excls', 'StopIteration'))
            if ents:
                return self.phi(ents)
        return None

    def b_isinstance(self, args, kw):
        v, c = args[0], args[1]
        cl = list(c.args) if c.op == 'tuple' else [c]
        return self.mkb(self.bdd.or_(*[self.isinstance1(v, x) for x in cl]))

    PYT = {'str': str, 'int': int, 'float': float, 'bool': bool,
           'tuple': tuple, 'list': list, 'dict': dict}

    def cls_name(self, c):
        if c.op == 'ext':
            return self.canon_ext(c.args[0])
        if c.op == 'cls':
            return c.args[0]
        if c.op == 'phi':
            return None
        return show_(c)

    def isinstance1(self, v, c):
        v = self.simp(v, self.st.pc)
        bd = self.bdd
        if c.op == 'phi':
            return bd.or_(*[bd.and_(k, self.isinstance1(v, x))
                            for k, x in c.args[0]])
        if c.op == 'tuple':
            return bd.or_(*[self.isinstance1(v, x) for x in c.args])
        name = self.cls_name(c)
        if v.op == 'exception':
            for h in reversed(self.handler_stack):
                if tuple(h['classes']) == v.args[0]:
                    short = name.split('.')[-1]
                    if short in ('KeyboardInterrupt', 'SystemExit'):
                        return FALSE        # see C27
                    return self.exc_match(h['exc'], [short])
        if v.op == 'phi':
            return bd.or_(*[bd.and_(k, self.isinstance1(x, c))
                            for k, x in v.args[0]])
        short = name.split('.')[-1]
        pv = self.plain(v)
        if name.startswith('builtins.'):
            if pv.op == 'const':
                t = self.PYT.get(short)
                if t:
                    return TRUE if isinstance(cval(pv), t) else FALSE
            if pv.op == 'tuple':
                return TRUE if short == 'tuple' else FALSE
            if v.op == 'ref' or pv.op in ('list', 'dict', 'set'):
                k = v.args[1] if v.op == 'ref' else pv.op
                return TRUE if short == k else FALSE
            if strish(pv):
                return TRUE if short == 'str' else FALSE
            t = self.typeof(v)
            if t in self.STREAMS or t in self.TRACES or t in (
                    'Stats', 'UTC', 'Event') or (
                        isinstance(t, str) and t.startswith('obspy.') and
                        short in self.PYT):
                return FALSE
        else:
            if pv.op in ('const', 'tuple', 'list', 'dict', 'set', 'fmt'):
                if short == 'Iterable':
                    return FALSE if (pv.op == 'const' and
                                     not is_str(pv)) else TRUE
                return FALSE
            t = self.typeof(v)
            if t is None and v.op == 'ref' and v.args[1] in ('list', 'dict',
                                                             'set'):
                return TRUE if short == 'Iterable' else FALSE
            if isinstance(t, str):
                ts = t.split('.')[-1]
                if ts == short:
                    return TRUE
                if (ts, short) in (('RFStream', 'Stream'),
                                   ('RFTrace', 'Trace')):
                    return TRUE
                if (ts, short) == ('UTC', 'UTCDateTime'):
                    return TRUE
                if t.startswith('obspy.') and name.startswith('obspy.'):
                    return FALSE
                if ts in ('RFStream', 'RFTrace', 'Stats', 'UTC') and \
                        short != 'Iterable':
                    return FALSE
                if (ts, short) in (('Stream', 'RFStream'),
                                   ('Trace', 'RFTrace')):
                    pass
                elif ts in ('Stream', 'Trace') and short != 'Iterable':
                    return FALSE
        subj = self.strip(self.deref(v)) if v.op != 'ref' else v
        key = (subj, name)
        n = self.atom(T('isinst', subj, name))
        d = self.isinst.setdefault(subj, {})
        if name not in d:
            py = self.PYT.get(short) if name.startswith('builtins.') else None
            for c2, n2 in self.consts_of.get(subj, {}).items():
                if c2 == 'truthy':
                    continue
                ok = py is not None and isinstance(cval(c2), py)
                self.bdd.add_axiom(bd.neg(bd.and_(n2, bd.neg(n)))
                                   if ok else bd.neg(bd.and_(n2, n)))
            for o, (no, pyo) in d.items():
                if py is not None and pyo is not None and py is not pyo and \
                        not issubclass(py, pyo) and not issubclass(pyo, py):
                    self.bdd.add_axiom(bd.neg(bd.and_(n, no)))
                so = o.split('.')[-1]
                for x, y, nx, ny in ((short, so, n, no), (so, short, no, n)):
                    if (x, y) in (('RFStream', 'Stream'),
                                  ('RFTrace', 'Trace')):
                        self.bdd.add_axiom(bd.or_(bd.neg(nx), ny))
            d[name] = (n, py)
        return n

    def const_eq(self, a, c):
        d = self.consts_of.get(a, {})
        isnew = c not in d
        n = super().const_eq(a, c)
        if isnew and a in self.isinst:
            bd = self.bdd
            for o, (no, py) in self.isinst[a].items():
                ok = py is not None and isinstance(cval(c), py)
                bd.add_axiom(bd.neg(bd.and_(n, bd.neg(no))) if ok
                             else bd.neg(bd.and_(n, no)))
        return n

    def b_issubclass(self, args, kw):
        return self.mkb(self.atom(T('issub', self.snap(args[0]),
                                    self.snap(args[1]))))

    def b_callable(self, args, kw):
        v = self.simp(args[0], self.st.pc)
        if v.op in ('func', 'method', 'cls', 'ext'):
            return TRUE_
        if is_const(v):
            return FALSE_
        return self.mkb(self.atom(T('callable', self.strip(v))))

    def b_hasattr(self, args, kw):
        v = self.simp(args[0], self.st.pc)
        n = cval(args[1]) if is_str(args[1]) else None
        if v.op == 'phi':
            bd = self.bdd
            return self.mkb(bd.or_(*[bd.and_(c, self.truth(self.b_hasattr(
                [x, args[1]], kw))) for c, x in v.args[0]]))
        if self.typeof(v) == 'Stats' and n:
            return self.mkb(self.get_key(v, n)[0])
        if n == 'iterable' and (v.op in ('gencall', 'genexp') or
                                self.stream_like(v) or v.op == 'ref' and
                                (v, 'traces') in self.st.store):
            return FALSE_       # attribute of progress bars
        return self.mkb(self.atom(T('hasattr', self.strip(v), n)))

    def b_getattr(self, args, kw):
        if is_str(args[1]):
            n = cval(args[1])
            if len(args) > 2:
                h = self.truth(self.b_hasattr(args[:2], []))
                return self.phi([(h, self.attr(args[0], n)),
                                 (self.bdd.neg(h), args[2])])
            return self.attr(args[0], n)
        t = T('getattr', self.strip(args[0]), self.cval_(args[1]))
        self.call_may_raise(t)
        return t

    def b_setattr(self, args, kw):
        if is_str(args[1]):
            self.set_attr(args[0], cval(args[1]), args[2])
        else:
            self.set_item(args[0], args[1], args[2])
        return NONE

    def b_slice(self, args, kw):
        a = [self.deref(x) for x in args]
        if kw or not 1 <= len(a) <= 3:
            return None
        if len(a) == 1:
            a = [NONE] + a
        return T('slice', *(a + [NONE] * (3 - len(a))))

    def b_vars(self, args, kw):
        return args[0] if args else None

    def b_type(self, args, kw):
        if len(args) == 1:
            return self.attr(args[0], '__class__')

    def b_map(self, args, kw):
        if len(args) != 2:
            return None
        out = []
        tmp = self.mklist(())
        self.loop_over(args[1], lambda x: self.list_append(
            tmp, self.call_value(args[0], [x], [])))
        self.need()
        return tmp

    def b_filter(self, args, kw):
        if len(args) != 2:
            return None
        tmp = self.mklist(())

        def body(x):
            c = self.truth(self.simp(self.call_value(args[0], [x], [])
                                     if args[0] is not NONE else x,
                                     self.st.pc), self.st)
            self.branch(c, lambda: self.list_append(tmp, x), lambda: None)
        self.loop_over(args[1], body)
        self.need()
        return tmp

    # ------------------------------------------------------ special externals
    def x_obspy_AttribDict_(self, args, kw):
        return self.b_dict([a for a in args if a is not NONE], kw)

    x_collections_OrderedDict_ = x_obspy_AttribDict_

    def x_collections_defaultdict_(self, args, kw):
        r = self.mkdict()
        self.st.store[(r, '$factory')] = args[0] if args else NONE
        return r

    def x_obspy_Stream_(self, args, kw):
        return self.mkstream_call(args, kw, 'Stream')

    def x_obspy_Trace_(self, args, kw):
        return self.mktrace(args, kw, 'Trace')

    def x_copy_copy_(self, args, kw):
        return self.copy_of(args[0])

    x_copy_deepcopy_ = x_copy_copy_

    def x_os_path_join_(self, args, kw):
        if args and all(is_str(a) for a in args):
            return const(os.path.join(*[cval(a) for a in args]))
        if any(a.op == 'star' for a in args):
            return None
        parts = []
        for i, a in enumerate(args):
            if i:
                parts.append(const('/'))
            parts.append(self.deref(a))
        return self.lift(lambda *x: self.concat(list(x)), *parts)

    def x_functools_partial_(self, args, kw):
        if any(k is None for k, v in kw):
            return None
        return T('partial', args[0], tuple(args[1:]), tuple(kw))

    def x_operator_itemgetter_(self, args, kw):
        return T('call', T('ext', 'operator.itemgetter'), tuple(args), ())

    def x_operator_attrgetter_(self, args, kw):
        return T('call', T('ext', 'operator.attrgetter'), tuple(args), ())

    def x_operator_methodcaller_(self, args, kw):
        return T('call', T('ext', 'operator.methodcaller'), tuple(args),
                 tuple(kw))

    def x_itertools_product_(self, args, kw):
        if len(args) != 2 or kw:
            return None
        a = self.iter_segs(args[0])
        b = self.iter_segs(args[1])
        out = []
        for x in a:
            for y in b:
                doms = (tuple(x[1]) if x[0] == 'each' else ()) + \
                    (tuple(y[1]) if y[0] == 'each' else ())
                c = self.bdd.and_(x[-2], y[-2])
                e = T('tuple', x[-1], y[-1])
                out.append(T('each', doms, c, e) if doms else
                           T('one', e) if c == TRUE else T('opt', c, e))
        return self.mklist(out)

    def x_itertools_chain_(self, args, kw):
        out = []
        for a in args:
            for s in self.iter_segs(a):
                out.append(T('one', s[2]) if s[0] == 'one' and s[1] == TRUE
                           else T('opt', s[1], s[2]) if s[0] == 'one'
                           else T('each', *s[1:]))
        return self.mklist(out)

    def x_inspect_getcallargs_(self, args, kw):
        fi = self.fn_of(args[0]) if args else None
        if fi is None:
            return None
        env = self.bind(fi, list(args[1:]), list(kw))
        return self.mkdict([(const(p), env[p]) for p in fi.params + [
            x for x in (fi.vararg,) + tuple(fi.kwonly) + (fi.kwarg,) if x]
            if p in env])

    def fn_of(self, v):
        v = self.simp(v, self.st.pc)
        if v.op == 'func':
            return self.prog.by_id[v.args[0]]
        return None

    def x_os_path_dirname_(self, args, kw):
        return T('call', T('ext', 'os.path.dirname'),
                 (self.cval_(args[0]),), ())

    def x_os_path_split_(self, args, kw):
        a = self.cval_(args[0])
        return T('tuple', T('call', T('ext', 'os.path.dirname'), (a,), ()),
                 T('call', T('ext', 'os.path.basename'), (a,), ()))

    # ------------------------------------------------------ type inference
    def typeof(self, v):
        if v.op in ('mut', 'carried', 'copyof', 'last', 'first', 'after'):
            t = self.types.get(v)
            if t:
                return t
            x = v.args[-1] if v.op in ('last', 'first') else v.args[0]
            return self.typeof(x)
        if v.op == 'sumobj':
            return self.types.get(v)
        if v.op == 'item':
            t = self.types.get(v)
            if t:
                return t
            b = v.args[0]
            if b.op == 'list' and len(b.args) == 1 and \
                    b.args[0].op == 'each':
                return self.typeof(b.args[0].args[2])
            bt = self.typeof(b)
            if bt == 'tracelist' and b.op == 'mut':
                if v.args[1].op == 'slice':
                    return bt
                x = b
                while x.op == 'mut':
                    x = x.args[0]
                return self.elem_tag(x) or 'Trace'
        if v.op == 'call' and v.args[0].op == 'ext':
            t = self.types.get(v.args[0].args[0])
            if t:
                return t
        return super().typeof(v)

    def renorm(self, o, args):
        if o == 'fld' and args[0].op == 'copyof':
            return T('fld', args[0].args[0], args[1])
        if o == 'item' and args[0].op == 'copyof' and \
                self.typeof(args[0]) in (None, 'tracelist'):
            return self.item_term(args[0].args[0], args[1])
        if o == 'len':
            return self.len_term(args[0])
        if o in ('abs', 'real', 'conj', 'cos', 'sin', 'imag'):
            return self.pure(o, *args)
        if o == 'rev':
            return self.rev(args[0])
        return super().renorm(o, args)

    # ================================================================ entry
    def run(self, qual, args=None, types=None, kwsym=None, exits=False):
        """Analyse one function with symbolic parameters."""
        fi = self.prog.function(qual) if isinstance(qual, str) else qual
        args = dict(args or {})
        self.module_env(fi.module)
        self.st = State(store=dict(self.mod_state.store))
        self.nframe += 1
        parent = None
        fr = Frame(fi, self.nframe, parent, cls=fi.cls)
        fr.top = True
        self.frames, self.calls = [], []
        self.sinks, self.loops, self.handler_stack = [], [], []
        self.exceptional = 0
        self.steps = 0
        self.events, self.escaped = [], []
        env = {}
        for p in fi.params + fi.kwonly:
            if p in args:
                v = args[p]
                if not isinstance(v, tm.Term):
                    v = self.lift_py(v)
                env[p] = v
            else:
                env[p] = T('sym', p)
        if fi.vararg:
            env[fi.vararg] = args.get(fi.vararg) or T('sym', fi.vararg)
        if fi.kwarg:
            v = args.get(fi.kwarg)
            if v is None:
                v = self.mkdict()
                self.st.store[(v, '$base')] = T('sym', fi.kwarg)
                self.root_kwarg = (T('sym', fi.kwarg),
                                   tuple(fi.params + fi.kwonly))
            elif not isinstance(v, tm.Term):
                v = self.lift_py(v)
            elif v.op == 'sym':
                self.root_kwarg = v, tuple(fi.params + fi.kwonly)
            env[fi.kwarg] = v
        for k, t in (types or {}).items():
            self.types[T('sym', k)] = t
        for k, v in env.items():
            self.st.vars[(fr.id, k)] = v
        self.env = env
        self.frame_map[fr.id] = fr
        self.top_returns = []
        self.init_shared()
        if exits:
            self.sinks.append({'states': [], 'classes': [], 'broad': True,
                               'anycall': True})
        try:
            val = self.run_frame(fr)
        except Stop:
            val = None
            self.st = None
        r = Result(self, fi, env, val, self.st, self.top_returns, fr)
        r.exits = self.sinks.pop()['states'] if exits else []
        return r

    def lift_py(self, v):
        if isinstance(v, dict):
            return self.mkdict([(const(k), self.lift_py(x)
                                 if not isinstance(x, tm.Term) else x)
                                for k, x in v.items()])
        if isinstance(v, list):
            return self.mklist([T('one', self.lift_py(x)) for x in v])
        if isinstance(v, tm.Term):
            return v
        if isinstance(v, tuple):
            return T('tuple', *[self.lift_py(x) for x in v])
        return const(v)


class Result:
    def __init__(self, ctx, fi, env, value, state, returns, frame):
        self.ctx, self.fi, self.env = ctx, fi, env
        self.value, self.state, self.returns = value, state, returns
        self.frame = frame
        self.events = list(ctx.events)
        self.escaped = list(ctx.escaped)


def show_(t):
    return tm.show(t)
