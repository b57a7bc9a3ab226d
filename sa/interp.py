"""Gated value-dependence analysis of the package.

An abstract interpreter over the syntax tree.  Every variable and every field
gets an abstract value: a hash-consed term (a value number) built from the
function's inputs.  Where control flow joins, values are joined into gated
terms ('phi'), so no paths are enumerated; loops are analysed once, for a
generic element; calls inside the package are summarised in context.  The
analysis records *events* (calls leaving the package, writes to objects the
caller can see, raises, returns, yields) together with the control-dependence
predicate under which they happen.  Nothing of the analysed package is
imported or executed.
"""
import ast
import builtins
import string
from fractions import Fraction

from .bdd import BDD, TRUE, FALSE
from .program import AnalysisError, FunctionInfo, Program
from . import terms as tm
from .terms import (T, const, NONE, TRUE_, FALSE_, is_const, cval, is_num,
                    is_str, pyval, add, sub, mul, div, power, neg, topoly,
                    rebuild, show)

UNBOUND = T('unbound')
MISSING = T('missing')
MAXPHI = 24
MAXUNROLL = 80

STD = {'data', 'starttime', 'endtime', 'npts', 'delta', 'sampling_rate',
       'channel', 'traces'}
# obspy methods that change the object in place -> fields they may change
MUTATORS = {
    'trim': {'data', 'starttime', 'endtime', 'npts', 'traces'},
    '_ltrim': {'data', 'starttime', 'endtime', 'npts'},
    '_rtrim': {'data', 'starttime', 'endtime', 'npts'},
    'cutout': {'data', 'starttime', 'endtime', 'npts', 'traces'},
    'merge': {'data', 'starttime', 'endtime', 'npts', 'traces'},
    'filter': {'data'}, 'taper': {'data'}, 'detrend': {'data'},
    'normalize': {'data'}, 'differentiate': {'data'}, 'integrate': {'data'},
    'remove_response': {'data'}, 'remove_sensitivity': {'data'},
    'simulate': {'data'}, 'trigger': {'data'},
    'rotate': {'data', 'channel', 'traces'},
    'decimate': {'data', 'npts', 'delta', 'sampling_rate', 'endtime'},
    'resample': {'data', 'npts', 'delta', 'sampling_rate', 'endtime'},
    'interpolate': {'data', 'npts', 'delta', 'sampling_rate', 'endtime',
                    'starttime'},
    'sort': {'traces'},
    '_cleanup': {'traces'},
}
CONTAINER_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear',
                 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault',
                 'popitem'}

EXC_PARENT = {
    'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'LookupError': 'Exception', 'ValueError': 'Exception',
    'JSONDecodeError': 'ValueError', 'json.JSONDecodeError': 'ValueError',
    'UnicodeDecodeError': 'ValueError',
    'AttributeError': 'Exception', 'TypeError': 'Exception',
    'AssertionError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'NotImplementedError':
    'RuntimeError', 'RuntimeError': 'Exception', 'IOError': 'Exception',
    'OSError': 'Exception', 'StopIteration': 'Exception',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'NameError': 'Exception', 'Exception': 'BaseException',
    'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException',
}


def exc_isa(name, base, extra=()):
    seen = 0
    while name and seen < 20:
        if name == base or name.split('.')[-1] == base.split('.')[-1]:
            return True
        name = EXC_PARENT.get(name, dict(extra).get(name))
        seen += 1
    return False


MODULE = T('ext', 'importlib.import_module')


class Event:
    __slots__ = ('kind', 'pc', 'loops', 'fn', 'recv', 'args', 'kw', 'value',
                 'name', 'node', 'module', 'stack', 'exceptional', 'state',
                 'res', 'handlers', 'seq', 'old', 'sv', 'srecv')

    def __init__(self, kind, **k):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, k.get(s))

    @property
    def loc(self):
        return '%s:%s' % (self.module.rel if self.module else '?',
                          getattr(self.node, 'lineno', '?'))

    @property
    def where(self):
        fns = [f.qual for f in self.stack] if self.stack else []
        return '%s in %s' % (self.loc, fns[-1] if fns else '<module>')

    def __repr__(self):
        return '<%s %s %s %s %s>' % (self.kind, self.fn or self.name,
                                     self.args, self.kw, self.loc)


class State:
    __slots__ = ('vars', 'store', 'hist', 'pc')

    def __init__(self, vars=None, store=None, hist=None, pc=TRUE):
        self.vars = vars or {}
        self.store = store or {}
        self.hist = hist or {}
        self.pc = pc

    def copy(self, pc=None):
        return State(dict(self.vars), dict(self.store), dict(self.hist),
                     self.pc if pc is None else pc)


class Frame:
    def __init__(self, fi, fid, parent, self_val=None, cls=None):
        self.fi, self.id, self.parent = fi, fid, parent
        self.self_val, self.cls = self_val, cls
        self.returns = []
        self.yield_cb = None
        self.yields = []


class Loop:
    """one active loop: its domain and index term"""

    def __init__(self, dom, idx):
        self.dom, self.idx = dom, idx


class Ctx:
    """One analysis run: program + shared predicate/term tables."""

    def __init__(self, prog, opaque=(), types=None, symbolic=(),
                 max_depth=12, inline_ext=None, transparent_raise=True):
        self.prog = prog
        self.bdd = BDD()
        self.opaque = set(opaque)
        self.symbolic = set(symbolic)      # 'rf.util.DEG2KM' kept symbolic
        self.types = dict(types or {})
        self.max_depth = max_depth
        self.events = []
        self.record = True
        self.sinks = []
        self.loops = []
        self.frames = []
        self.calls = []                    # stack of FunctionInfo
        self.nfresh = 0
        self.nframe = 0
        self.mod_env = {}
        self.mod_state = State()
        self.closures = {}
        self.consts_of = {}                # subject -> {const: node}
        self.thr = {}                      # poly -> {'lt': {c:node}, 'gt':..}
        self.nodestack = []
        self.exceptional = 0
        self.unsupported = []
        self.seqno = 0
        self.handler_stack = []
        self.loopmut = {}
        self.rowaug = []
        self.calltypes = {}  # kinds of results of functions given as values
        self.oracle = None  # results of external methods fixed by the rule
        self.in_settle = 0
        self.refcls = {}
        self.rawnew = {}
        self.lazy_busy = set()
        self.steps = 0
        self.decor_log = []
        self.escaped = []
        self.nmu = 0
        self.mudef, self.mulabel, self.whiledef = {}, {}, {}

    # ------------------------------------------------------------ utilities
    def fresh(self, kind, *extra):
        self.nfresh += 1
        return T('ref', self.nfresh, kind)

    def new(self, term):
        """an externally created mutable object with its own identity"""
        self.nfresh += 1
        return T('new', self.nfresh, term)

    SNAPKINDS = {'store', 'setitem', 'inplace', 'setprop', 'setglobal',
                 'setdefault', 'group', 'yield', 'return'}

    def ev(self, kind, st, **k):
        if not self.record:
            return None
        self.seqno += 1
        e = Event(kind, pc=st.pc,
                  loops=tuple((l.dom, l.idx) for l in self.loops),
                  node=k.pop('node', None) or self.node,
                  module=self.module, stack=tuple(self.calls),
                  exceptional=self.exceptional > 0, state=None,
                  handlers=tuple(self.handler_stack), seq=self.seqno, **k)
        if kind in self.SNAPKINDS and self.st is not None:
            if isinstance(e.value, tm.Term):
                e.sv = self.snap(e.value)
            if isinstance(e.recv, tm.Term):
                e.srecv = self.snap(e.recv) if e.recv.op != 'ref' else e.recv
        self.events.append(e)
        return e

    @property
    def node(self):
        return self.nodestack[-1] if self.nodestack else None

    @property
    def module(self):
        for f in reversed(self.frames):
            return f.fi.module
        return None

    # ----------------------------------------------------------- predicates
    def atom(self, t):
        return self.bdd.var(t)

    def feasible(self, pc):
        return self.bdd.feasible(pc)

    NONNULL = {'poly', 'seq', 'tuple', 'b', 'ref', 'new', 'func', 'ext',
               'cls', 'list', 'dict', 'fmt', 'pow', 'rev', 'len', 'concat',
               'idx', 'pos', 'sum', 'bound', 'slice', 'obj', 'set', 'super'}
    NONNULL_FLD = {'data', 'starttime', 'endtime', 'npts', 'delta',
                   'sampling_rate', 'stats', 'traces', 'channel', 'id',
                   'network', 'station', 'location'}

    def eq(self, a, b):
        bd = self.bdd
        a, b = self.plain(a), self.plain(b)
        if a is b:
            return TRUE
        if a.op == 'phi' or b.op == 'phi':
            return self.lift_node(self.eq, a, b)
        if is_const(a) and is_const(b):
            try:
                return TRUE if cval(a) == cval(b) else FALSE
            except Exception:
                return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op in ('tuple', 'list', 'dict') and \
                    (y.op in ('len', 'poly', 'pow', 'count', 'fmt') or
                     is_num(y)):
                return FALSE
        if is_const(a):
            a, b = b, a
        if a.op == 'b' and is_const(b):
            if cval(b) is True or cval(b) == 1:
                return a.args[0]
            if cval(b) is False or cval(b) == 0:
                return bd.neg(a.args[0])
            return FALSE
        if b is NONE:
            if a.op in self.NONNULL:
                return FALSE
            if a.op == 'sym' and isinstance(self.types.get(a), str):
                return FALSE
            if a.op == 'call' and a.args[0] is MODULE:
                return FALSE
            if self.numeric(a) or self.never_none(a):
                return FALSE
            if a.op == 'fld' and a.args[1] in self.NONNULL_FLD:
                return FALSE
        seqs = ('tuple', 'list')
        if a.op in seqs and b.op in seqs:
            try:
                x = self.plain_items(a)
                y = self.plain_items(b)
            except ValueError:
                x = y = None
            if x is not None:
                if len(x) != len(y):
                    return FALSE
                return bd.and_(*[self.eq(p, q) for p, q in zip(x, y)])
        if a.op in seqs and is_const(b):
            return FALSE
        num = (is_num(b) or a.op in ('poly', 'len', 'pow') or
               b.op in ('poly', 'len', 'pow'))
        if num and not is_str(a) and not is_str(b) and b is not NONE:
            d = topoly(sub(a, b))
            k = d.pop((), Fraction(0))
            if not d:
                return TRUE if k == 0 else FALSE
            lead = tm.p_content(d)
            p = tm.frompoly({m: c / lead for m, c in d.items()})
            return self.cmp_atom('eq', p, -k / lead)
        if is_const(b):
            return self.const_eq(a, b)
        if b.id < a.id:
            a, b = b, a
        return self.atom(T('eq', a, b))

    def numeric(self, a):
        """an array of NumPy or a part of it"""
        while a.op in ('item', 'rev'):
            a = a.args[0]
        return a.op == 'call' and a.args[0].op == 'ext' and \
            str(a.args[0].args[0]).startswith('numpy.')

    # operations of other packages which never give None
    GIVES = {'get_coordinates', 'get_contents', 'get_travel_times', 'copy',
             'select', 'slice', 'slice2', 'split', 'strip', 'format', 'join',
             'get_id', 'times', 'upper', 'lower', 'replace', 'astype'}
    OPENS = {'obspy.read', 'obspy.read_events', 'obspy.read_inventory',
             'importlib.import_module', 'open', 'obspy.UTCDateTime',
             'obspy.taup.TauPyModel', 'rf.rfstream.read_rf',
             'rf.simple_model.load_model'}
    # own methods which return a stream
    MAKES = {'rf.rfstream.RFStream.stack', 'rf.rfstream.RFStream.profile',
             'rf.rfstream.RFStream.harmonics'}

    def never_none(self, a):
        if a.op == 'mcall':
            return a.args[1] in self.GIVES
        if a.op == 'item' and a.args[0].op == 'call' and \
                a.args[1].op != 'slice' and a.args[0].args[0].op in ('func', 'ext'):
            # an element of a stream
            return str(a.args[0].args[0].args[0]) in self.MAKES
        if a.op == 'item' and a.args[0].op == 'mcall' and \
                a.args[1].op != 'slice' and a.args[0].args[1] in (
                    'stack', 'harmonics', 'profile'):
            return True
        if a.op == 'call' and a.args[0].op in ('ext', 'func'):
            return str(a.args[0].args[0]) in self.OPENS
        if a.op == 'fld' and a.args[1] in ('sac', 'sh', 'mseed'):
            return self.typeof(a.args[0]) == 'Stats'
        return False

    def const_eq(self, a, c):
        d = self.consts_of.setdefault(a, {})
        if c in d:
            return d[c]
        bd = self.bdd
        if a.op == 'mcall' and a.args[1] in ('upper', 'lower') and \
                not a.args[2] and a.args[0].op == 'item' and \
                is_num(a.args[0].args[1]) and is_str(c) and \
                len(cval(c)) == 1 and cval(c).isalpha():
            # one letter: its two forms
            if cval(c) != getattr(cval(c), a.args[1])():
                return FALSE
            n = bd.or_(self.const_eq(a.args[0], const(cval(c).upper())),
                       self.const_eq(a.args[0], const(cval(c).lower())))
        else:
            n = self.atom(T('eq', a, c))
        for c2, n2 in d.items():
            if c2 == 'truthy':
                tv = bool(cval(c))
                bd.add_axiom(bd.neg(bd.and_(n, bd.neg(n2) if tv else n2)))
            else:
                same = False
                try:
                    same = cval(c) == cval(c2)
                except Exception:
                    pass
                if not same:
                    bd.add_axiom(bd.neg(bd.and_(n, n2)))
        d[c] = n
        return n

    def is_int(self, p):
        if p.op in ('len', 'idx', 'pos', 'count', 'int', 'npts'):
            return True
        if p.op == 'mcall' and p.args[1] == 'find' and len(p.args[2]) == 1:
            return True
        if p.op == 'fld' and p.args[1] in ('npts', 'num'):
            return True
        if p.op == 'poly':
            return all(c.denominator == 1 and all(
                self.is_int(a) and e.denominator == 1 and e > 0
                for a, e in m) for m, c in p.args)
        return False

    def cmp_atom(self, kind, p, c):
        """node for  p (==|<|>) c ; p is a primitive polynomial"""
        bd = self.bdd
        if self.is_int(p):
            import math
            if kind == 'eq':
                if c.denominator != 1:
                    return FALSE
                return bd.and_(self.thr_atom(p, 'lt', c + 1),
                               bd.neg(self.thr_atom(p, 'lt', c)))
            if kind == 'lt':
                return self.thr_atom(p, 'lt', Fraction(math.ceil(c)))
            return bd.neg(self.thr_atom(p, 'lt', Fraction(math.floor(c) + 1)))
        if kind == 'eq':
            return bd.and_(bd.neg(self.thr_atom(p, 'lt', c)),
                           bd.neg(self.thr_atom(p, 'gt', c))) \
                if (p in self.thr and c in self.thr[p]['lt']) else \
                self.num_eq(p, c)
        return self.thr_atom(p, kind, c)

    def num_eq(self, p, c):
        n = self.const_eq(p, const(c))
        return n

    def count_lt(self, p, c):
        """exact condition of  sum of counts < c"""
        bd = self.bdd
        parts = []
        for m, co in topoly(p).items():
            if len(m) != 1 or m[0][1] != 1 or co != 1:
                return None
            parts.append(m[0][0])
        if not any(x.op == 'count' for x in parts):
            return None
        if c == 1:
            r = TRUE
            for x in parts:
                if x.op == 'count':
                    r = bd.and_(r, bd.neg(self.anyof(*x.args)))
                elif x.op == 'len':
                    r = bd.and_(r, self.thr_atom(x, 'lt', Fraction(1)))
                else:
                    return None
            return r
        if 1 < c <= 8 and len(parts) <= 24 and \
                all(x.op == 'count' and x.args[0] == () for x in parts):
            c = int(c)
            row = [TRUE] + [FALSE] * c      # row[i]: at least i so far
            for x in parts:
                g = x.args[1]
                row = [TRUE] + [bd.or_(row[i], bd.and_(row[i - 1], g))
                                for i in range(1, c + 1)]
            return bd.neg(row[c])
        return None

    def no_entries(self, p):
        """p is the number of entries of a set: that it has none"""
        if p.op != 'len' or p.args[0].op != 'set':
            return None
        bd, r = self.bdd, TRUE
        for s in p.args[0].args:
            if s.op == 'one':
                return FALSE
            if s.op == 'opt':
                r = bd.and_(r, bd.neg(s.args[0]))
            elif s.op == 'each':
                r = bd.and_(r, bd.neg(self.anyof(s.args[0], s.args[1])))
            else:
                return None
        return r

    def thr_atom(self, p, kind, c):
        bd = self.bdd
        if kind == 'lt' and p.op in ('len', 'npts', 'count', 'idx', 'pos') \
                and c <= 0:
            return FALSE
        if p.op == 'poly' and kind == 'lt' and all(
                co > 0 and (m == () or all(a.op in ('len', 'count')
                                           for a, e in m))
                for m, co in p.args) and c <= 0:
            return FALSE
        if kind == 'lt' and p.op == 'mcall' and c <= 0 and self.is_int(p):
            # the position of some text: -1 if it is not found
            return FALSE if c < 0 else bd.neg(
                self.isin(p.args[2][0], p.args[0]))
        if kind == 'lt':
            n = self.count_lt(p, c)
            if n is not None:
                return n
        d = self.thr.setdefault(p, {'lt': {}, 'gt': {}})
        if c in d[kind]:
            return d[kind][c]
        empty = self.no_entries(p) if kind == 'lt' else None
        if empty is not None and c <= 1:
            return empty
        n = self.atom(T(kind, p, const(c)))
        if empty is not None:
            bd.add_axiom(bd.or_(bd.neg(empty), n))
        if kind == 'lt':
            for c2, n2 in d['lt'].items():
                a, b = (n, n2) if c < c2 else (n2, n)
                bd.add_axiom(bd.or_(bd.neg(a), b))
            for c2, n2 in d['gt'].items():
                if c <= c2 or c == c2:
                    bd.add_axiom(bd.neg(bd.and_(n, n2)))
                else:
                    bd.add_axiom(bd.or_(n, n2))
        else:
            for c2, n2 in d['gt'].items():
                a, b = (n, n2) if c > c2 else (n2, n)
                bd.add_axiom(bd.or_(bd.neg(a), b))
            for c2, n2 in d['lt'].items():
                if c2 <= c:
                    bd.add_axiom(bd.neg(bd.and_(n, n2)))
                else:
                    bd.add_axiom(bd.or_(n, n2))
        d[kind][c] = n
        for cc, n2 in self.consts_of.get(p, {}).items():
            if cc != 'truthy' and is_num(cc):
                f = tm.frac(cval(cc))
                holds = f < c if kind == 'lt' else f > c
                bd.add_axiom(bd.or_(bd.neg(n2), n if holds else bd.neg(n)))
        return n

    def lt(self, a, b):
        a, b = self.plain(a), self.plain(b)
        if a.op == 'phi' or b.op == 'phi':
            return self.lift_node(self.lt, a, b)
        if is_const(a) and is_const(b):
            try:
                return TRUE if cval(a) < cval(b) else FALSE
            except Exception:
                return self.atom(T('ltx', a, b))
        d = topoly(sub(b, a))            # d > 0 ?
        k = d.pop((), Fraction(0))
        if not d:
            return TRUE if k > 0 else FALSE
        lead = tm.p_content(d)
        p = tm.frompoly({m: c / lead for m, c in d.items()})
        c = -k / lead
        return self.cmp_atom('gt' if lead > 0 else 'lt', p, c)

    def le(self, a, b):
        return self.bdd.neg(self.lt(b, a))

    def truth(self, v, st=None):
        bd = self.bdd
        if v.op == 'b':
            return v.args[0]
        if v.op == 'phi':
            return bd.or_(*[bd.and_(c, self.truth(x, st))
                            for c, x in v.args[0]])
        if v.op == 'ref' and st is not None:
            return self.ref_truth(v, st)
        if v.op == 'new':
            inner = v.args[1]
            if inner.op in ('list', 'tuple', 'dict', 'set'):
                return self.truth(inner, st)
            v = inner
        if is_const(v):
            return TRUE if cval(v) else FALSE
        if v.op == 'tuple':
            return TRUE if v.args else FALSE
        if v.op in ('list', 'set'):
            return self.seq_truth(v.args)
        if v.op == 'dict':
            return self.atom(T('truthy', v)) if v.args else FALSE
        if v.op in ('func', 'ext', 'cls', 'bound', 'idxdom', 'fmtx'):
            return TRUE
        if v.op == 'call' and v.args[0] is MODULE:
            return TRUE
        if v.op == 'len' or self.is_int(v) or v.op == 'poly':
            return bd.neg(self.eq(v, const(0)))
        if v.op == 'unbound':
            return FALSE
        if self.typeof(v) in ('Stats', 'UTC'):
            return TRUE
        if v.op == 'fmt' or v.op == 'call' and v.args[0].op == 'ext' and \
                v.args[0].args[0] in ('os.path.dirname', 'os.path.basename',
                                      'os.path.join', 'os.getcwd'):
            return bd.neg(self.eq(v, const('')))
        if self.stream_like(v):
            return bd.neg(self.eq(T('len', T('fld', v, 'traces')), const(0)))
        d = self.consts_of.setdefault(v, {})
        if 'truthy' in d:
            return d['truthy']
        n = self.atom(T('truthy', v))
        for c, n2 in d.items():
            tv = bool(cval(c))
            bd.add_axiom(bd.neg(bd.and_(n2, bd.neg(n) if tv else n)))
        # None and the empty values are false
        d['truthy'] = n
        return n

    def seq_truth(self, segs):
        bd = self.bdd
        r = FALSE
        for s in segs:
            if s.op == 'one':
                return TRUE
            if s.op == 'opt':
                r = bd.or_(r, s.args[0])
            elif s.op == 'each':
                r = bd.or_(r, self.anyof(s.args[0], s.args[1]))
            else:
                r = bd.or_(r, bd.neg(self.eq(T('len', s), const(0))))
        return r

    def anyof(self, doms, cond):
        """exists an element of the domain(s) with cond"""
        if cond == FALSE:
            return FALSE
        if doms == ():
            return cond
        # conditions that do not depend on the element come out
        if cond == TRUE:
            if len(doms) == 1:
                return self.bdd.neg(self.eq(T('len', doms[0]), const(0)))
            return self.atom(T('anyof', doms, cond))
        ids = set()
        for a in self.bdd.support(cond):
            ids |= {x for x in tm.subterms(a) if x.op in ('idx', 'pos')}
        if not any(x.args[0] in doms for x in ids):
            return self.bdd.and_(cond, self.anyof(doms, TRUE))
        return self.atom(T('anyof', doms, cond))

    def ref_truth(self, v, st):
        seq = st.store.get((v, '$seq'))
        if seq is not None:
            if seq.op == 'seq':
                return self.seq_truth(seq.args)
            return self.bdd.neg(self.eq(T('len', seq), const(0)))
        if v.args[1] == 'dict':
            r = FALSE
            for (b, k), x in st.store.items():
                if b is v and k.startswith('?'):
                    r = self.bdd.or_(r, self.truth(x, st))
            if (v, '$base') in st.store:
                r = self.bdd.or_(r, self.truth(st.store[(v, '$base')], st))
            dyn = st.store.get((v, '$dyn'))
            if dyn is not None and dyn.op == 'phi':
                for c, x in dyn.args[0]:
                    if x.op == 'seq':
                        r = self.bdd.or_(r, self.bdd.and_(
                            c, self.seq_truth(x.args)))
            elif dyn is not None and dyn.op == 'seq':
                r = self.bdd.or_(r, self.seq_truth(dyn.args))
            return r
        tr = st.store.get((v, 'traces'))
        if tr is not None:
            return self.truth(tr, st)
        return TRUE

    def lift_node(self, fn, *vals):
        bd = self.bdd
        alts = [v.args[0] if v.op == 'phi' else ((TRUE, v),) for v in vals]
        r = FALSE

        def go(i, cond, acc):
            nonlocal r
            if cond == FALSE:
                return
            if i == len(alts):
                r = bd.or_(r, bd.and_(cond, fn(*acc)))
                return
            for c, x in alts[i]:
                go(i + 1, bd.and_(cond, c), acc + [x])
        go(0, TRUE, [])
        return r

    # ------------------------------------------------------------------ phi
    def phi(self, entries):
        """gated join of (cond, value)"""
        bd = self.bdd
        flat = {}

        def put(c, v):
            if c == FALSE:
                return
            if v.op == 'phi':
                for c2, v2 in v.args[0]:
                    put(bd.and_(c, c2), v2)
            else:
                flat[v] = bd.or_(flat.get(v, FALSE), c)
        for c, v in entries:
            put(c, v)
        if len(flat) > 1:
            for v in [v for v, c in flat.items() if not bd.feasible(c)]:
                del flat[v]
        if not flat:
            return entries[0][1] if entries else UNBOUND
        if len(flat) == 1:
            return next(iter(flat))
        if all(v.op == 'b' or (v.op == 'const' and v.args[0] == 'bool')
               for v in flat):
            return self.mkb(bd.or_(*[bd.and_(c, self.truth(v))
                                     for v, c in flat.items()]))
        vs = sorted(flat, key=lambda x: x.id)
        n = len(vs[0].args)
        if all(v.op == 'tuple' and len(v.args) == n for v in vs):
            return T('tuple', *[self.phi([(flat[v], v.args[i]) for v in vs])
                                for i in range(n)])
        return T('phi', tuple((flat[v], v) for v in vs))

    def mkb(self, n):
        if n == TRUE:
            return TRUE_
        if n == FALSE:
            return FALSE_
        return T('b', n)

    def simp(self, v, pc):
        """value under the current predicate"""
        if v.op == 'phi':
            bd = self.bdd
            out = []
            for c, x in v.args[0]:
                k = bd.and_(pc, c)
                if bd.feasible(k):
                    out.append((c, x))
            if len(out) == 1:
                return out[0][1]
            if not out:
                return v.args[0][0][1]
            if len(out) < len(v.args[0]):
                return self.phi([(bd.restrict(c, bd.and_(pc, bd.axioms))
                                  if pc != FALSE else c, x) for c, x in out])
        elif v.op == 'b':
            n = v.args[0]
            if self.bdd.implies(pc, n):
                return TRUE_
            if self.bdd.implies(pc, self.bdd.neg(n)):
                return FALSE_
        return v

    def lift(self, fn, *vals):
        n = 1
        for v in vals:
            if v.op == 'phi':
                n *= len(v.args[0])
        if n == 1:
            return fn(*vals)
        if n > MAXPHI:
            return fn(*vals)
        bd = self.bdd
        out = []

        def go(i, cond, acc):
            if cond == FALSE or not bd.feasible(cond):
                return
            if i == len(vals):
                out.append((cond, fn(*acc)))
                return
            v = vals[i]
            for c, x in (v.args[0] if v.op == 'phi' else ((TRUE, v),)):
                go(i + 1, bd.and_(cond, c), acc + [x])
        go(0, TRUE, [])
        return self.phi(out) if out else fn(*vals)

    # ------------------------------------------------------- plain / strip
    def plain(self, v):
        if v.op == 'new':
            return self.plain(v.args[1])
        return v

    def plain_items(self, t):
        if t.op == 'tuple':
            return list(t.args)
        return tm.seq_items(T('seq', *t.args))

    def strip(self, v):
        """remove object identities (for comparing values)"""
        return self.subst(v, lambda t: self.strip(t.args[1])
                          if t.op == 'new' else
                          t if t.op == 'mu' else None)

    def subst(self, v, fn, memo=None):
        memo = {} if memo is None else memo
        return self._subst(v, fn, memo)

    def _subst(self, t, fn, memo):
        if t in memo:
            return memo[t]
        r = fn(t)
        if r is None:
            o = t.op
            if o == 'const' or o in ('ref', 'func', 'ext', 'cls', 'sym'):
                r = t
            elif o == 'poly':
                r = const(0)
                for m, c in t.args:
                    x = const(c)
                    for a, e in m:
                        x = mul(x, power(self._subst(a, fn, memo), const(e)))
                    r = add(r, x)
            elif o == 'pow':
                r = power(self._subst(t.args[0], fn, memo), const(t.args[1]))
            elif o == 'b':
                r = self.mkb(self.subst_node(t.args[0], fn, memo))
            elif o == 'phi':
                r = self.phi([(self.subst_node(c, fn, memo),
                               self._subst(x, fn, memo))
                              for c, x in t.args[0]])
            elif o in ('each', 'anyof', 'first', 'count', 'opt', 'pos',
                       'kveach'):
                # predicate arguments are ints
                r = T(o, *[self.subst_node(a, fn, memo)
                           if isinstance(a, int) else
                           self._sub_arg(a, fn, memo) for a in t.args])
            else:
                args = [self._sub_arg(a, fn, memo) for a in t.args]
                r = self.renorm(o, args)
        memo[t] = r
        return r

    def renorm(self, o, args):
        if o == 'item' and len(args) == 2:
            return self.item_term(args[0], args[1])
        if o == 'fld' and args[0].op in ('tuple',):
            return T(o, *args)
        return T(o, *args)

    def _sub_arg(self, a, fn, memo):
        if isinstance(a, tm.Term):
            return self._subst(a, fn, memo)
        if isinstance(a, tuple):
            return tuple(self._sub_arg(x, fn, memo) for x in a)
        return a

    def subst_node(self, n, fn, memo=None, nm=None):
        bd = self.bdd
        memo = {} if memo is None else memo
        nm = {} if nm is None else nm
        if n < 2:
            return n
        if n in nm:
            return nm[n]
        v, lo, hi = bd.nodes[n]
        a = bd.atoms[v]
        b = self._subst_atom(a, fn, memo)
        r = bd.ite(b, self.subst_node(hi, fn, memo, nm),
                   self.subst_node(lo, fn, memo, nm))
        nm[n] = r
        return r

    def _subst_atom(self, a, fn, memo):
        b = T(a.op, *[self.subst_node(x, fn, memo) if isinstance(x, int)
                      and a.op in ('anyof',) else self._sub_arg(x, fn, memo)
                      for x in a.args])
        if b is a:
            return self.atom(a)
        if a.op in ('lt', 'gt', 'eq'):
            # a value which is kept in no or all rounds of a loop
            for t in tm.subterms(b):
                if t.op == 'phi' and len(t.args[0]) == 2 and any(
                        x.op == 'carry' for c, x in t.args[0]):
                    bd, r = self.bdd, FALSE
                    for c, x in t.args[0]:
                        y = tm.rebuild(b, lambda u: x if u is t else None)
                        r = bd.or_(r, bd.and_(c, self.atom_node(y)))
                    return r
        return self.atom_node(b)

    def atom_node(self, b):
        o = b.op
        if o == 'eq':
            return self.eq(*b.args)
        if o == 'lt':
            return self.lt(*b.args)
        if o == 'gt':
            return self.lt(b.args[1], b.args[0])
        if o == 'truthy':
            return self.truth(b.args[0])
        if o == 'anyof':
            return self.anyof(*b.args)
        if o == 'in':
            return self.isin(b.args[0], b.args[1])
        return self.atom(b)

    # ------------------------------------------------------------- type tags
    def typeof(self, v):
        t = self.types.get(v)
        if t:
            return t
        o = v.op
        if o == 'new':
            return self.types.get(v.args[1]) or self.typeof(v.args[1])
        if o == 'phi':
            ts = {self.typeof(x) for c, x in v.args[0] if x is not NONE}
            return ts.pop() if len(ts) == 1 else None
        if o == 'ref':
            return self.refcls.get(v)
        if o == 'item':
            b = v.args[0]
            bt = self.typeof(b)
            if bt == 'tracelist':
                return self.elem_tag(b) if v.args[1].op != 'slice' else bt
            if bt in self.STREAMS:
                if v.args[1].op == 'slice':
                    return bt
                return self.STREAMS[bt]
            if isinstance(bt, tuple) and bt[0] == 'listof':
                return bt[1]
        if o == 'fld':
            bt = self.typeof(v.args[0])
            if v.args[1] == 'traces' and bt in self.STREAMS:
                return 'tracelist'
            if v.args[1] == 'stats' and bt in self.TRACES:
                return 'Stats'
            if v.args[1] in ('starttime', 'endtime', 'onset', 'event_time') \
                    and (bt == 'Stats' or (v.args[0].op == 'after')):
                return 'UTC'
        if o == 'after':
            return self.typeof(v.args[0])
        if o == 'mcall':
            bt = self.typeof(v.args[0])
            if v.args[1] in ('copy', 'select', 'slice', 'slice2', 'sort',
                             'trim', 'trim2', 'filter', 'merge', 'detrend',
                             'taper', 'rotate', 'decimate', 'cutout',
                             'resample', 'interpolate', 'normalize'):
                return bt
        if o == 'call' and v.args[0].op == 'ext':
            if v.args[0].args[0] == 'obspy.read':
                return 'Stream'
            if v.args[0].args[0] in ('copy.copy', 'copy.deepcopy'):
                return self.typeof(v.args[1][0])
        if o == 'call' and v.args[0].op == 'cls':
            return v.args[0].args[0]
        if o == 'call' and v.args[0].op == 'fld' and \
                v.args[0].args[1] == '__class__':
            return self.typeof(v.args[0].args[0])
        return None

    STREAMS = {'Stream': 'Trace', 'rf.rfstream.RFStream':
               'rf.rfstream.RFTrace'}
    TRACES = {'Trace', 'rf.rfstream.RFTrace'}

    def elem_tag(self, tl):
        if tl.op == 'fld':
            return self.STREAMS.get(self.typeof(tl.args[0]))
        return 'rf.rfstream.RFTrace'

    def stream_like(self, v):
        return self.typeof(v) in self.STREAMS

    def class_of(self, v):
        t = self.typeof(v)
        return self.prog.classes.get(t) if isinstance(t, str) else None

    def isin(self, x, coll):
        bd = self.bdd
        x, coll = self.plain(x), self.plain(coll)
        if x.op == 'phi' or coll.op == 'phi':
            return self.lift_node(self.isin, x, coll)
        if is_str(coll):
            s = cval(coll)
            if is_const(x):
                return TRUE if is_str(x) and cval(x) in s else FALSE
            if self.one_char(x):
                return bd.or_(*[self.eq(x, const(c)) for c in sorted(set(s))])
            if len(s) <= 5:
                subs = {s[i:j] for i in range(len(s) + 1)
                        for j in range(i, len(s) + 1)}
                return bd.or_(*[self.eq(x, const(c)) for c in sorted(subs)])
            return self.atom(T('in', x, coll))
        if coll.op in ('tuple', 'list', 'set'):
            segs = [T('one', a) for a in coll.args] if coll.op == 'tuple' \
                else coll.args
            r = FALSE
            for s in segs:
                if s.op == 'one':
                    r = bd.or_(r, self.eq(x, s.args[0]))
                elif s.op == 'opt':
                    r = bd.or_(r, bd.and_(s.args[0], self.eq(x, s.args[1])))
                elif s.op == 'each':
                    r = bd.or_(r, self.anyof(
                        s.args[0], bd.and_(s.args[1],
                                           self.eq(x, s.args[2]))))
                else:
                    r = bd.or_(r, self.atom(T('in', x, s)))
            return r
        if is_const(coll):
            return FALSE
        if is_str(x):
            return self.atom(T('has', coll, cval(x)))
        return self.atom(T('in', x, coll))

    @staticmethod
    def one_char(x):
        return (x.op == 'item' and is_const(x.args[1]) and
                isinstance(cval(x.args[1]), int)) or \
            (x.op == 'mcall' and x.args[1] in ('upper', 'lower') and
             Ctx.one_char(x.args[0]))

    # ------------------------------------------------------------ item term
    def item_term(self, b, i):
        if b.op == 'new':
            b2 = b.args[1]
            if b2.op in ('tuple', 'list'):
                b = b2
        if b.op == 'phi' or i.op == 'phi':
            return self.lift(self.item_term, b, i)
        if b.op == 'item' and b.args[1].op == 'slice' and is_const(i) and \
                isinstance(cval(i), int) and cval(i) >= 0:
            lo, hi, step = b.args[1].args
            if all(is_const(x) for x in (lo, hi, step)) and \
                    cval(step) in (None, 1) and (cval(lo) or 0) >= 0 and \
                    (cval(hi) is None or cval(hi) > cval(i) + (cval(lo) or 0)):
                return self.item_term(b.args[0],
                                      const(cval(i) + (cval(lo) or 0)))
        if i.op == 'slice':
            lo, hi, step = i.args
            if lo is NONE and hi is NONE and step is const(-1):
                return self.rev(b)
            if lo is NONE and hi is NONE and step in (NONE, const(1)):
                return T('copyof', b) if b.op not in ('const', 'tuple') else b
            if all(is_const(x) for x in i.args):
                sl = slice(*[cval(x) for x in i.args])
                try:
                    if is_str(b):
                        return const(cval(b)[sl])
                    if b.op == 'tuple':
                        return T('tuple', *b.args[sl])
                    if b.op == 'list':
                        items = tm.seq_items(T('seq', *b.args))
                        return T('list', *[T('one', x) for x in items[sl]])
                except (ValueError, TypeError):
                    pass
            if lo is const(-1) and hi is NONE and step is NONE and \
                    b.op == 'fld' and b.args[1] in ('channel', 'phase', 'id'):
                return T('item', b, const(-1))
            if step is const(1):
                i = T('slice', lo, hi, NONE)
            if lo is const(0):
                i = T('slice', NONE, hi, i.args[2])
            return T('item', b, i)
        if is_const(i) and b.op == 'mcall' and \
                b.args[1] in ('upper', 'lower') and not b.args[2]:
            return T('mcall', self.item_term(b.args[0], i), *b.args[1:])
        if is_const(i):
            k = cval(i)
            if isinstance(k, int) and not isinstance(k, bool):
                try:
                    if is_str(b):
                        return const(cval(b)[k])
                    if b.op == 'tuple':
                        return b.args[k]
                    if b.op == 'list':
                        return tm.seq_items(T('seq', *b.args))[k]
                except (IndexError, ValueError):
                    pass
                if b.op == 'list' and k >= 0:
                    # leading plain items
                    for n, s in enumerate(b.args):
                        if s.op != 'one':
                            break
                        if n == k:
                            return s.args[0]
            if b.op == 'dict':
                for key, c, val in b.args[0]:
                    if key == k and c == TRUE:
                        return val
            if b.op == 'list' and len(b.args) == 1 and \
                    b.args[0].op == 'each' and isinstance(k, int):
                return self.at(b.args[0], i)
        if b.op == 'list' and len(b.args) == 1 and b.args[0].op == 'each':
            return self.at(b.args[0], i)
        if b.op == 'upd' and b.args[1] is i and i.op in ('mu', 'idx', 'poly'):
            return b.args[2]
        if b.op == 'upd' and is_const(i) and isinstance(cval(i), int):
            # rows which were set
            u = b
            while u.op == 'upd' and is_const(u.args[1]) and \
                    isinstance(cval(u.args[1]), int) and \
                    cval(u.args[1]) * cval(i) >= 0 and \
                    (cval(u.args[1]) < 0) == (cval(i) < 0):
                if u.args[1] is i:
                    return u.args[2]
                u = u.args[0]
        if b.op == 'poly' and len(b.args) == 1 and is_const(i) and \
                isinstance(cval(i), int):
            # a row of an array times numbers
            (m, c), = b.args
            arr = [f for f in m if not self.number(f[0])]
            if len(arr) == 1 and arr[0][1] == 1 and c == c:
                r = mul(const(c), self.item_term(arr[0][0], i))
                for f, e in m:
                    if f is not arr[0][0]:
                        r = mul(r, tm.power(f, const(e)))
                return r
        return T('item', b, i)

    def number(self, t):
        return t.op in ('amax', 'amin', 'len', 'const', 'size')

    def at(self, seg, i):
        """element number i of an 'each' segment"""
        doms, cond, elem = seg.args
        if len(doms) == 1:
            cur = self.pos_term(doms[0], cond)
            if cur is i:
                return elem
            if cond == TRUE:
                idx = T('idx', doms[0], 0)
                own = [x for x in tm.subterms(elem) if x.op == 'idx' and
                       x.args[0] is doms[0]]
                if len(own) <= 1:
                    tgt = own[0] if own else idx
                    return self.subst(elem, lambda t: i if t is tgt else None)
        return T('item', T('list', seg), i)

    def pos_term(self, dom, cond):
        idx = None
        for l in reversed(self.loops):
            if l.dom is dom:
                idx = l.idx
                break
        if idx is None:
            idx = T('idx', dom, 0)
        if cond == TRUE:
            return idx
        return T('pos', idx, cond)

    def rev(self, v):
        v = self.plain(v)
        if v.op == 'rev':
            return v.args[0]
        if v.op == 'poly' and len(v.args) == 1:
            (m, c), = v.args
            # reversal commutes with scalar factors
            if len(m) == 1 and m[0][1] == 1:
                return mul(const(c), self.rev(m[0][0]))
        if v.op == 'tuple':
            return T('tuple', *reversed(v.args))
        if v.op == 'phi':
            return self.lift(self.rev, v)
        return T('rev', v)
