"""Statement and expression transfer functions (see interp.py)."""
import ast
import sys
import fnmatch
import builtins
import os.path
import string
from fractions import Fraction
from _string import formatter_field_name_split

from .bdd import TRUE, FALSE
from .interp import (Ctx, State, Frame, Loop, UNBOUND, MISSING, MUTATORS,
                     CONTAINER_MUT, EXC_PARENT, exc_isa, MAXUNROLL, STD)
from .program import AnalysisError
from . import terms as tm
from .terms import (T, const, NONE, TRUE_, FALSE_, is_const, cval, is_num,
                    is_str, add, sub, mul, div, power, neg, topoly)


class Stop(Exception):
    pass


def key_name(k):
    if k.op == 'const':
        v = cval(k)
        return v if isinstance(v, str) else '#%r' % (v,)
    if k.op == 'tuple':
        try:
            return '#%r' % (tm.pyval(k),)
        except ValueError:
            return None
    return None


def name_key(n):
    if n.startswith('#'):
        import ast as _a
        return const(_a.literal_eval(n[1:]))
    return const(n)


STRFLD = {'channel', 'id', 'phase', 'station', 'network', 'location'}


def strish(v):
    if is_str(v) or v.op == 'fmt':
        return True
    if v.op == 'mcall' and v.args[1] in ('upper', 'lower', 'strip', 'join',
                                         'format', 'replace'):
        return True
    if v.op == 'fld' and v.args[1] in STRFLD:
        return True
    if v.op == 'item' and strish(v.args[0]):
        return True
    if v.op == 'phi':
        return all(strish(x) or x is NONE for c, x in v.args[0])
    return False


MAPPINGS = {'json.load', 'json.loads', 'builtins.vars', 'vars'}


class Interp(Ctx):

    # ============================================================== merging
    def default_read(self, st, base, name):
        """value of a field that this state has no entry for"""
        old, self.st = self.st, st
        try:
            if name.startswith('?'):
                return self.mkb(self.has_default(base, name[1:]))
            if name == '$over':
                return NONE
            if name == '$val' and base.op == 'new':
                return base.args[1]
            if name.startswith('$'):
                return MISSING
            return self.read_raw(base, name)
        finally:
            self.st = old

    st = None
    jsonkeys = None     # keys a decoded JSON text can have (None: any)

    def merge(self, states):
        states = [s for s in states if s is not None and
                  self.feasible(s.pc)]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        bd = self.bdd
        P = bd.or_(*[s.pc for s in states])
        conds = [bd.restrict(s.pc, P) for s in states]
        out = State(pc=P)
        keys = set()
        for s in states:
            keys.update(s.vars)
        v0 = states[0].vars
        for k in keys:
            vals = [s.vars.get(k) for s in states]
            f = vals[0]
            if all(x is f for x in vals):
                out.vars[k] = f
            else:
                out.vars[k] = self.phi([(c, UNBOUND if x is None else x)
                                        for c, x in zip(conds, vals)])
        keys = set()
        for s in states:
            keys.update(s.store)
        for k in keys:
            vals = [s.store.get(k) for s in states]
            f = vals[0]
            if all(x is f for x in vals):
                out.store[k] = f
                continue
            if any(x is None for x in vals):
                present = [x for x in vals if x is not None]
                base, name = k
                if base.op == 'ref' and not any(
                        b is base for s, x in zip(states, vals) if x is None
                        for (b, n) in s.store):
                    # object allocated on one side only
                    out.store[k] = present[0] if len(
                        set(present)) == 1 else self.merge_val(
                        k, [(c, x) for c, x in zip(conds, vals)
                            if x is not None])
                    continue
                vals = [x if x is not None else
                        self.default_read(s, base, name)
                        for s, x in zip(states, vals)]
                if any(x is MISSING for x in vals):
                    pr = [(c, x) for c, x in zip(conds, vals)
                          if x is not MISSING]
                    out.store[k] = self.merge_val(k, pr)
                    continue
            out.store[k] = self.merge_val(k, list(zip(conds, vals)))
        return out

    def merge_val(self, k, entries):
        base, name = k
        if name == '$keys':
            return self.key_union([x for c, x in entries])
        if name in ('$seq', '$dyn') and all(
                x.op == 'seq' for c, x in entries):
            segs = [x.args for c, x in entries]
            n = 0
            while all(len(s) > n for s in segs) and \
                    len({s[n] for s in segs}) == 1:
                n += 1
            out = list(segs[0][:n])
            bd = self.bdd
            rest = {}
            for (c, x), s in zip(entries, segs):
                for seg in s[n:]:
                    seg2 = self.gate_seg(c, seg)
                    if seg2 is not None:
                        key = (seg2.op,) + tuple(
                            a for i, a in enumerate(seg2.args)
                            if not (seg2.op == 'opt' and i == 0) and
                            not (seg2.op == 'each' and i == 1))
                        if key in rest:
                            if seg2.op not in ('opt', 'each'):
                                continue
                            o = rest[key]
                            i = 0 if seg2.op == 'opt' else 1
                            c2 = bd.or_(out[o].args[i], seg2.args[i])
                            a = list(seg2.args)
                            a[i] = c2
                            out[o] = T(seg2.op, *a)
                        else:
                            rest[key] = len(out)
                            out.append(seg2)
            out = [T('one', s.args[1]) if s.op == 'opt' and s.args[0] == TRUE
                   else s for s in out]
            return T('seq', *out)
        return self.phi(entries)

    def key_union(self, seqs):
        """Keys a dictionary may hold (presence is kept per key)"""
        out = []
        for x in seqs:
            if x is not None and x.op == 'seq':
                for s in x.args:
                    k = T('one', s.args[-1])
                    if k not in out:
                        out.append(k)
        return T('seq', *out)

    def gate_seg(self, c, seg):
        bd = self.bdd
        if seg.op == 'one':
            return T('opt', c, seg.args[0])
        if seg.op == 'opt':
            cc = bd.and_(c, seg.args[0])
            return T('opt', cc, seg.args[1]) if bd.feasible(cc) else None
        if seg.op == 'each':
            cc = bd.and_(c, seg.args[1])
            return T('each', seg.args[0], cc, seg.args[2]) \
                if bd.feasible(cc) else None
        return seg

    # ============================================================== reading
    def get_var(self, name):
        f = self.frames[-1]
        st = self.st
        while f is not None:
            v = st.vars.get((f.id, name))
            if v is None:
                v = self.mod_state.vars.get((f.id, name))
            if v is not None:
                s = self.simp(v, st.pc)
                if s.op == 'phi' and any(x is UNBOUND for c, x in s.args[0]):
                    c = [c for c, x in s.args[0] if x is UNBOUND][0]
                    if self.feasible(self.bdd.and_(st.pc, c)):
                        self.ev('unbound', st, name=name,
                                value=self.mkb(c))
                    s = self.phi([(c, x) for c, x in s.args[0]
                                  if x is not UNBOUND])
                if s is UNBOUND:
                    self.ev('unbound', st, name=name, value=TRUE_)
                    return T('unk', name)
                return s
            if f.fi.module is not None and name in f.fi.locals and \
                    name not in f.fi.globals and f.fi.name != '<module>':
                self.ev('unbound', st, name=name, value=TRUE_)
                return T('unk', name)
            f = f.parent
        m = self.frames[-1].fi.module
        return self.global_name(m, name)

    def global_name(self, m, name):
        if name in m.classes and name not in self.mod_env.get(m.name, {}):
            return T('cls', m.classes[name].qual)
        env = self.module_env(m)
        if name in env:
            full = m.name + '.' + name
            if full in self.symbolic:
                return T('sym', full)
            if (m.name, name) in self.prog.mutated_globals:
                v = env[name]
                if v.op not in ('func', 'cls', 'ext', 'lazy'):
                    return T('sym', full)
            v = env[name]
            if v.op == 'lazy':
                v = self.resolve_import(v.args[0], v.args[1])
            return v
        if name in ('__file__', '__name__', '__doc__'):
            return T('sym', m.name + '.' + name)
        if hasattr(builtins, name):
            v = getattr(builtins, name)
            if v is None or v is True or v is False:
                return const(v)
            return T('ext', 'builtins.' + name)
        if name.startswith('__') and name.endswith('__') is False:
            pass
        self.ev('undefined', self.st, name=name)
        if self.sinks and self.st is not None:
            self.do_raise(T('excls', 'NameError'), 'NameError')
            raise Stop()
        return T('unk', name)

    def resolve_import(self, modname, name):
        m = self.prog.modules.get(modname)
        if m is None:
            return T('ext', modname + '.' + name)
        sub_ = self.prog.modules.get(modname + '.' + name)
        env = self.module_env(m)
        if name in env or name in m.classes:
            return self.global_name(m, name)
        if sub_ is not None:
            return T('mod', sub_.name)
        self.ev('badimport', self.st or State(), name=modname + '.' + name)
        return T('unk', name)

    def module_env(self, m):
        env = self.mod_env.get(m.name)
        if env is not None:
            return env
        env = self.mod_env[m.name] = {}
        saved = (self.st, self.frames, self.sinks, self.loops, self.record,
                 self.calls, self.nodestack, self.handler_stack,
                 self.exceptional, self.loopctl)
        self.st = State(store=dict(self.mod_state.store))
        pseudo = type('M', (), {})()
        fi = pseudo
        fi.module, fi.name, fi.locals, fi.globals = m, '<module>', set(), \
            set()
        fi.nonlocals = set()
        fi.qual, fi.cls, fi.id = m.name, None, -1
        fr = Frame(fi, 'mod:' + m.name, None)
        self.frames, self.sinks, self.loops = [fr], [], []
        self.record, self.calls, self.nodestack = False, [], []
        self.handler_stack, self.exceptional = [], 0
        self.loopctl = []
        try:
            for s in m.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    self.exec_stmt(s)
                    self._sync(m, env)
            for s in m.tree.body:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    if self.st is None:
                        break
                    self.exec_stmt(s)
                    self._sync(m, env)
        finally:
            if self.st is not None:
                self.mod_state.store.update(self.st.store)
                self.mod_state.vars.update(
                    (k, v) for k, v in self.st.vars.items()
                    if not isinstance(k[0], str))
                store = self.st.store
            else:
                store = {}
            (self.st, self.frames, self.sinks, self.loops, self.record,
             self.calls, self.nodestack, self.handler_stack,
             self.exceptional, self.loopctl) = saved
            if self.st is not None:
                for k, v in store.items():
                    self.st.store.setdefault(k, v)
        return env

    def _sync(self, m, env):
        if self.st is None:
            return
        fid = 'mod:' + m.name
        for (f, n), v in self.st.vars.items():
            if f == fid:
                env[n] = v

    # ------------------------------------------------------- field reading
    def deref(self, v):
        """value (not identity) of a mutable external object"""
        if v.op == 'new':
            x = self.st.store.get((v, '$val'))
            return self.simp(x, self.st.pc) if x is not None \
                else self.deref(v.args[1])
        if v.op == 'phi':
            if any(x.op == 'new' for c, x in v.args[0]):
                return self.phi([(c, self.deref(x)) for c, x in v.args[0]])
        return v

    def idx0(self, base):
        """the same element under the outermost generic index"""
        hit = [x for x in tm.subterms(base)
               if x.op == 'idx' and x.args[1] > 0]
        if not hit:
            return None
        return hit

    def read_field(self, base, name, node=None):
        base = self.simp(base, self.st.pc)
        if base.op == 'phi':
            out = []
            pc0 = self.st.pc
            st0 = self.st
            for c, x in base.args[0]:
                if x is NONE and len(base.args[0]) > 1:
                    continue
                out.append((c, self.read_field(x, name)))
            return self.phi(out) if out else T('fld', base, name)
        v = self.read_raw(base, name)
        return self.simp(v, self.st.pc)

    def read_raw(self, base, name):
        st = self.st
        v = st.store.get((base, name))
        if v is not None:
            return v
        o = base.op
        if o == 'ext':
            return T('ext', base.args[0] + '.' + name)
        if o == 'mod':
            m = self.prog.modules[base.args[0]]
            return self.resolve_import(m.name, name)
        if o == 'cls':
            ci = self.prog.classes.get(base.args[0])
            if name == '__name__' and ci:
                return const(ci.name)
            if ci:
                fi = self.find_method(ci, name)
                if fi is not None:
                    return T('func', fi.id, 'mod:' + fi.module.name)
                a = self.class_attr(ci, name)
                if a is not None:
                    return a
            return T('fld', base, name)
        if o == 'func' and name in ('__name__', '__doc__'):
            return const(self.prog.by_id[base.args[0]].name) \
                if name == '__name__' else T('fld', base, name)
        if o == 'super':
            return T('bound', base, name)
        # nested generic index of the same collection
        hit = self.idx0(base)
        if hit:
            m0 = {x: T('idx', x.args[0], 0) for x in hit}
            b0 = self.subst(base, lambda t: m0.get(t))
            v = st.store.get((b0, name))
            if v is not None:
                back = {y: x for x, y in m0.items()}
                r = self.subst(v, lambda t: back.get(t))
                if (b0, name) in self.loopmut:
                    r = T('carried', r)
                return r
        ci = self.class_of(base)
        if ci is not None and name != '__class__':
            fi = self.find_method(ci, name)
            if fi is not None:
                if 'property' in fi.decorators():
                    if fi.qual in self.opaque or \
                            self.calls.count(fi) > 0:
                        return T('fld', base, name)
                    return self.call_function(fi, [base], [], cls=fi.cls)
                if 'staticmethod' in fi.decorators():
                    return T('func', fi.id, 'mod:' + fi.module.name)
                if 'classmethod' in fi.decorators():
                    return T('method', fi.id, T('cls', ci.qual))
                return T('method', fi.id, base)
            a = self.class_attr(ci, name)
            if a is not None:
                return a
        if name == '__class__':
            t = self.typeof(base)
            if isinstance(t, str) and t in self.prog.classes:
                return T('fld', base, '__class__')
            return T('fld', base, name)
        if o == 'ref':
            kind = base.args[1]
            if kind == 'dict':
                h, v = self.dict_get(base, name)
                if v is not None:
                    return v
            if name == 'stats' and self.refcls.get(base):
                return T('fld', base, 'stats')
            return T('fld', base, name)
        # canonical forms
        if name == 'delta':
            return power(self.read_field(base, 'sampling_rate'), const(-1))
        if name == 'real':
            return self.pure('real', self.deref(base))
        if name == 'imag':
            return self.pure('imag', self.deref(base))
        if name == 'T':
            return self.pure('transpose', self.deref(base))
        if name == 'component' and self.typeof(base) == 'Stats':
            return self.item_term(self.read_field(base, 'channel'),
                                  const(-1))
        if name == 'npts' and self.typeof(base) == 'Stats':
            return self.length(base.args[0]) if base.op == 'fld' else \
                T('fld', base, name)
        # updates from a symbolic mapping
        over = st.store.get((base, '$over'))
        if over is not None:
            return self.over_get(over, base, name)[1]
        return self.chain(base, name)

    def over_get(self, over, base, key):
        """(present?, value) of a key of a symbolic mapping after updates
        from other symbolic mappings"""
        if over.op == 'phi':
            hs, vs = FALSE, []
            for c, x in over.args[0]:
                h, v = self.over_get(x, base, key)
                hs = self.bdd.or_(hs, self.bdd.and_(c, h))
                vs.append((c, v))
            return hs, self.phi(vs)
        if over.op != 'over':
            return self.atom(T('has', base, key)), T('fld', base, key)
        h, v = self.get_key(over.args[0], key)
        h0, v0 = self.over_get(over.args[1], base, key)
        return self.bdd.or_(h, h0), self.phi([(h, v), (self.bdd.neg(h), v0)])

    def chain(self, base, name):
        """apply pending in-place operations of the containing stream"""
        raw = T('fld', base, name)
        tr = base
        if tr.op == 'fld' and tr.args[1] == 'stats':
            tr = tr.args[0]
        if tr.op == 'item' and tr.args[0].op == 'fld' and \
                tr.args[0].args[1] == 'traces':
            c = tr.args[0].args[0]
        elif tr.op == 'item':
            c = tr.args[0]
        else:
            return raw
        ch = self.st.store.get((c, '$mut:' + name))
        if ch is not None:
            return self.apply_chain(raw, ch)
        return raw

    def apply_chain(self, v, ch):
        if ch.op == 'phi':
            return self.phi([(c, self.apply_chain(v, x))
                             for c, x in ch.args[0]])
        if ch.op != 'mutchain':
            return v
        prev, what = ch.args
        if prev is not NONE:
            v = self.apply_chain(v, prev)
        return T('mut', v, what)

    def class_attr(self, ci, name):
        for s in ci.node.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        try:
                            return const(ast.literal_eval(s.value))
                        except Exception:
                            return T('classattr', ci.qual, name)
        return None

    def find_method(self, ci, name, after=None):
        seen = set()
        if name.startswith('_' + ci.name.lstrip('_') + '__'):
            name = name[len('_' + ci.name.lstrip('_')):]
        todo = [ci]
        while todo:
            c = todo.pop(0)
            if c.qual in seen:
                continue
            seen.add(c.qual)
            if name in c.methods and (after is None or c is not after):
                return c.methods[name]
            for b in c.bases:
                b = b.split('.')[-1]
                bc = c.module.classes.get(b)
                if bc is None:
                    for m in self.prog.modules.values():
                        if b in m.classes:
                            bc = m.classes[b]
                if bc is not None:
                    todo.append(bc)
        return None

    def find_setter(self, ci, name):
        return ci.setters.get(name)

    # ------------------------------------------------------------ mappings
    def has_default(self, base, key):
        if base.op == 'ref':
            b = self.st.store.get((base, '$base'))
            if b is not None:
                return self.get_key(b, key)[0]
            if base.args[1] == 'dict':
                return FALSE
            return FALSE
        if base.op == 'new':
            b = self.strip(base)
            if self.jsonkeys is not None and key not in self.jsonkeys and \
                    b.op == 'call' and b.args[0].op == 'ext' and \
                    b.args[0].args[0] == 'json.loads':
                return FALSE
            return self.atom(T('has', b, key))
        hit = self.idx0(base)
        if hit:
            m0 = {x: T('idx', x.args[0], 0) for x in hit}
            b0 = self.subst(base, lambda t: m0.get(t))
            v = self.st.store.get((b0, '?' + key))
            if v is not None:
                back = {y: x for x, y in m0.items()}
                return self.truth(self.subst(v, lambda t: back.get(t)))
        over = self.st.store.get((base, '$over'))
        if over is not None:
            return self.over_get(over, base, key)[0]
        return self.atom(T('has', base, key))

    def dict_get(self, ref, key):
        h = self.st.store.get((ref, '?' + key))
        if h is None:
            b = self.st.store.get((ref, '$base'))
            if b is not None:
                return self.get_key(b, key)
            return FALSE, None
        return self.truth(h), self.st.store.get((ref, key))

    def get_key(self, base, key):
        """(present?, value) of a constant key of a mapping"""
        if base.op == 'phi':
            hs, vs = FALSE, []
            for c, x in base.args[0]:
                h, v = self.get_key(x, key)
                hs = self.bdd.or_(hs, self.bdd.and_(c, h))
                if v is not None:
                    vs.append((c, v))
            return hs, (self.phi(vs) if vs else T('unk', key))
        if base.op == 'ref' and base.args[1] == 'dict':
            h, v = self.dict_get(base, key)
            if v is None:
                v = T('unk', key)
            return h, v
        if base.op == 'dict':
            for k, c, v in base.args[0]:
                if k == key or k is name_key(key):
                    return c, v
            hs, vs = FALSE, []
            for r in base.args[:0:-1]:
                if r.op == 'rest':
                    h, v = self.get_key(r.args[0], key)
                    vs.append((self.bdd.and_(h, self.bdd.neg(hs)), v))
                    hs = self.bdd.or_(hs, h)
            return hs, self.phi(vs) if vs and hs != FALSE else \
                T('unk', key)
        h = self.st.store.get((base, '?' + key))
        h = self.truth(h) if h is not None else self.has_default(base, key)
        return h, self.read_field(base, key)

    def set_key(self, base, key, v, node=None):
        """strong update of one field of one object"""
        st = self.st
        if base.op == 'phi':
            for c, x in base.args[0]:
                pc = self.bdd.and_(st.pc, c)
                if not self.feasible(pc):
                    continue
                s0 = self.st
                a = s0.copy(pc=pc)
                b = s0.copy(pc=self.bdd.and_(s0.pc, self.bdd.neg(c)))
                self.st = a
                self.set_key(x, key, v)
                self.st = self.merge([self.st, b])
            return
        if base.op in ('const', 'tuple'):
            return
        if not key.startswith('$'):
            old = st.store.get((base, key))
            e = self.ev('store', st, recv=base, name=key, value=v)
            if e:
                e.old = old
        if base.op == 'ref' and base.args[1] == 'dict':
            ks = st.store.get((base, '$keys'), T('seq'))
            k = T('one', name_key(key))
            if k not in ks.args:
                st.store[(base, '$keys')] = T('seq', *(ks.args + (k,)))
        if key == 'data' or key == 'traces':
            # dependent fields
            pass
        if key == 'delta':
            key, v = 'sampling_rate', power(v, const(-1))
        st.store[(base, key)] = v
        st.store[(base, '?' + key)] = TRUE_

    def del_key(self, base, key):
        st = self.st
        self.ev('delete', st, recv=base, name=key)
        st.store[(base, '?' + key)] = FALSE_
        if base.op == 'ref':
            ks = st.store.get((base, '$keys'))
            if ks is not None:
                st.store[(base, '$keys')] = T('seq', *[
                    s for s in ks.args if s.args[-1] is not name_key(key)])

    # -------------------------------------------------------- list objects
    def mklist(self, segs, kind='list'):
        r = self.fresh(kind)
        if kind == 'set' and all(x.op == 'one' and is_const(x.args[0])
                                 for x in segs):
            segs = tuple(dict.fromkeys(segs))
        self.st.store[(r, '$seq')] = T('seq', *segs)
        return r

    def mkdict(self, items=()):
        r = self.fresh('dict')
        self.st.store[(r, '$keys')] = T('seq')
        rec, self.record = self.record, False
        for k, v in items:
            self.dict_set(r, k, v)
        self.record = rec
        return r

    def dict_set(self, r, k, v):
        k = self.simp(k, self.st.pc)
        if k.op == 'phi' and all(key_name(x) for c, x in k.args[0]):
            s0 = self.st
            outs = []
            for c, x in k.args[0]:
                s = s0.copy(pc=self.bdd.and_(s0.pc, c))
                if self.feasible(s.pc):
                    self.st = s
                    self.set_key(r, key_name(x), v)
                    outs.append(self.st)
            self.st = self.merge(outs)
            return
        n = key_name(k)
        if n is not None:
            self.set_key(r, n, v)
            return
        self.ev('setitem', self.st, recv=r, name=k, value=v)
        dyn = self.st.store.get((r, '$dyn'), T('seq'))
        if dyn.op != 'seq':
            dyn = T('seq', T('rest', dyn))
        kv = T('kv', k, v)
        m = self.maker(v)
        if m is not None and self.bdd.implies(self.st.pc, self.bdd.neg(
                self.membership(k, r))):
            kv = T('mk', self.cval_(k), m)      # start of a group
        self.st.store[(r, '$dyn')] = T('seq', *(dyn.args + (
            T('one', kv),)))

    def entries(self, v, x, depth, seen):
        st = self.st
        ents = []
        for (b, k), h in sorted(
                ((kk, vv) for kk, vv in st.store.items()
                 if kk[0] is v and kk[1].startswith('?')),
                key=lambda kv: kv[0][1]):
            hn = self.bdd.and_(self.truth(h), TRUE)
            if self.bdd.implies(st.pc, hn):
                hn = TRUE
            elif not self.feasible(self.bdd.and_(st.pc, hn)):
                hn = FALSE
            val = st.store.get((v, k[1:]))
            ents.append((k[1:], hn, NONE if val is None or hn == FALSE else
                         self.snap(self.simp(val, st.pc), depth - 1, seen)))
        ents = self.possible(ents, x)
        if ents:
            return T('dict', tuple(ents), T('rest', x))
        return None

    def possible(self, ents, base):
        """entries without absent ones, which cannot be given either"""
        if base is not self.root_kwarg[0]:
            return ents
        return [e for e in ents
                if e[1] != FALSE or e[0] not in self.root_kwarg[1]]

    def mapping(self, t):
        """a dictionary coming from outside"""
        return t.op == 'call' and t.args[0].op == 'ext' and \
            t.args[0].args[0] in MAPPINGS or \
            t.op == 'mcall' and t.args[1] == 'parse_args'

    root_kwarg = (None, ())

    def based(self, ents, base):
        """dictionary with these entries on top of another"""
        if base is self.root_kwarg[0]:
            ents = self.possible(ents, base)
        if base.op == 'dict':
            d = {e[0]: e for e in base.args[0]}
            d.update({e[0]: e for e in ents})
            more = base.args[1:]
            return T('dict', tuple(d[k] for k in sorted(d)
                                   if more or d[k][1] != FALSE), *more)
        return T('dict', tuple(ents), T('rest', base))

    def snap(self, v, depth=12, seen=()):
        """structural value of a term (objects replaced by their content)"""
        st = self.st
        if depth <= 0:
            return v
        o = v.op
        if o == 'ref':
            if v in seen:
                return T('cycle')
            seen = seen + (v,)
            kind = v.args[1]
            if kind in ('list', 'set'):
                seq = st.store.get((v, '$seq'))
                if seq is None:
                    return T('unk', 'list')
                if seq.op != 'seq':
                    return self.snap(seq, depth - 1, seen)
                return T(kind, *[self.snap_seg(s, depth, seen)
                                 for s in seq.args])
            if kind == 'dict':
                ents = []
                for (b, k), h in sorted(
                        ((kk, vv) for kk, vv in st.store.items()
                         if kk[0] is v and kk[1].startswith('?')),
                        key=lambda kv: kv[0][1]):
                    hn = self.bdd.and_(self.truth(h), TRUE)
                    if not self.feasible(self.bdd.and_(st.pc, hn)):
                        hn = FALSE
                        if (v, '$base') not in st.store:
                            continue
                    elif self.bdd.implies(st.pc, hn):
                        hn = TRUE
                    val = st.store.get((v, k[1:]))
                    pc = self.bdd.and_(st.pc, hn)
                    if pc == FALSE:
                        pc = st.pc
                    ents.append((k[1:], hn, NONE if val is None else
                                 self.snap(self.simp(val, pc), depth - 1,
                                           seen)))
                base = st.store.get((v, '$base'))
                dyn = st.store.get((v, '$dyn'))
                rest = []
                if dyn is None:
                    ents = self.possible(ents, base)
                if base is not None and dyn is None:
                    alts = [(c, self.snap(x, depth - 1, seen)) for c, x in (
                        base.args[0] if base.op == 'phi' else
                        ((TRUE, base),))]
                    if any(x.op == 'dict' for c, x in alts) and \
                            len(alts) <= 3:
                        return self.phi([(c, self.based(ents, x))
                                         for c, x in alts])
                if base is not None:
                    rest.append(T('rest', self.snap(base, depth - 1, seen)))
                if dyn is not None:
                    if dyn.op == 'seq':
                        rest += [self.snap_seg(s, depth, seen)
                                 for s in dyn.args]
                    else:
                        rest.append(dyn)
                return T('dict', tuple(ents), *rest)
            flds = []
            for (b, k), x in sorted(((kk, vv) for kk, vv in st.store.items()
                                     if kk[0] is v and
                                     kk[1][0] not in '?$'),
                                    key=lambda kv: kv[0][1]):
                flds.append((k, self.snap(self.simp(x, st.pc), depth - 1,
                                          seen)))
            return T('obj', self.refcls.get(v) or kind, tuple(flds))
        if o == 'new':
            x = st.store.get((v, '$val'))
            if x is not None:
                return self.snap(self.simp(x, st.pc), depth, seen)
            x = self.snap(v.args[1], depth, seen)
            if self.mapping(v.args[1]):
                return self.entries(v, x, depth, seen) or x
            return x
        if o == 'tuple':
            return T('tuple', *[self.snap(x, depth - 1, seen)
                                for x in v.args])
        if o == 'phi':
            return self.phi([(c, self.snap(x, depth, seen))
                             for c, x in v.args[0]])
        if o in ('item', 'sym', 'carried', 'loopval'):
            x = st.store.get((v, '$val'))       # changed in place
            if x is not None and x is not v:
                return self.strip(self.simp(x, st.pc))
            if self.types.get(v) == 'dict' and depth < 12:
                x = self.entries(v, self.strip(v), depth, seen)
                if x is not None:
                    return x
        if o in ('const', 'sym', 'ext', 'cls', 'func'):
            return v
        return self.strip(v)

    def snap_seg(self, s, depth, seen):
        if s.op == 'one':
            return T('one', self.snap(self.simp(s.args[0], self.st.pc),
                                      depth - 1, seen))
        if s.op == 'opt':
            return T('opt', s.args[0], self.snap(s.args[1], depth - 1, seen))
        if s.op == 'each':
            return T('each', s.args[0], s.args[1],
                     self.snap(s.args[2], depth - 1, seen))
        if s.op == 'kv':
            return T('kv', *[self.snap(x, depth - 1, seen) for x in s.args])
        if s.op == 'rest':
            return s
        return s

    def seq_of(self, v):
        """segments of a list-like value, or None"""
        v = self.simp(v, self.st.pc)
        if v.op == 'new' and v.args[1].op in ('list', 'tuple', 'set',
                                              'copyof'):
            v = v.args[1]
        if v.op == 'copyof':
            return self.seq_of(v.args[0])
        if v.op == 'ref':
            s = self.st.store.get((v, '$seq'))
            if s is not None:
                if s.op == 'seq':
                    return s.args
                if s.op == 'phi':
                    return None
                return self.seq_of(s)
            return None
        if v.op == 'tuple':
            return tuple(T('one', x) for x in v.args)
        if v.op in ('list', 'set'):
            return v.args
        if is_str(v):
            return tuple(T('one', const(c)) for c in cval(v))
        return None

    # ----------------------------------------------------------- iteration
    def iter_segs(self, v):
        """segments to iterate over: ('one',c,elem) / ('each',doms,c,elem)"""
        v = self.simp(v, self.st.pc)
        segs = self.seq_of(v)
        if segs is not None:
            out = []
            for s in segs:
                if s.op == 'one':
                    out.append(('one', TRUE, s.args[0]))
                elif s.op == 'opt':
                    out.append(('one', s.args[0], s.args[1]))
                elif s.op == 'each':
                    out.append(('each',) + self.rename_each(s))
                else:
                    out += self.iter_segs(s.args[0]) if s.op == 'rest' \
                        else [self.gen_seg(s)]
            return out
        if v.op == 'ref' and v.args[1] == 'dict':
            out = []
            ks = self.st.store.get((v, '$keys'), T('seq'))
            for s in ks.args:
                k = s.args[-1]
                h = self.dict_get(v, key_name(k))[0]
                if h != FALSE:
                    out.append(('one', TRUE if self.bdd.implies(
                        self.st.pc, h) else h, k))
            b = self.st.store.get((v, '$base'))
            if b is not None:
                out += self.iter_segs(b)
            dyn = self.st.store.get((v, '$dyn'))
            if dyn is not None:
                out.append(self.gen_seg(T('keysof', self.snap(v))))
            return out
        if v.op in ('items', 'values') and len(v.args) == 1:
            return [self.items_seg(T('keysof', v.args[0]), v.args[0],
                                   v.op)]
        if v.op == 'phi':
            # one segment list per alternative, if all are closed
            alts = [(c, self.iter_segs(x)) for c, x in v.args[0]
                    if x is not NONE]
            if all(s[0] == 'one' for c, a in alts for s in a) and \
                    sum(len(a) for c, a in alts) <= 48:
                n = max([len(a) for c, a in alts] or [0])
                out = self.align(alts)
                if out is not None:
                    return out
                out = []
                for i in range(n):
                    col = [(self.bdd.and_(c, a[i][1]), a[i][2])
                           for c, a in alts if len(a) > i]
                    out.append(('one', self.bdd.or_(*[c for c, e in col]),
                                self.phi(col)))
                return out
            if len(alts) == 1:
                return [(s[0], s[1], s[2]) if s[0] == 'one' else s
                        for s in alts[0][1]]
            return [self.gen_seg(self.snap(v))]
        if self.stream_like(v) or (v.op == 'ref' and
                                   (v, 'traces') in self.st.store):
            t = self.read_field(v, 'traces')
            if t is not v and t.op != 'fld':
                return self.iter_segs(t)
            return [self.gen_seg(t)]
        if v.op == 'dict':
            return [('one', c, name_key(k)) for k, c, x in v.args[0]] + \
                [self.gen_seg(r) for r in v.args[1:]]
        if v.op == 'range':
            return [self.range_seg(v)]
        if v.op == 'new' and (v, '$val') in self.st.store:
            x = self.deref(v)
            if x.op != 'new' and x is not v:
                return [self.gen_seg(self.strip(x))] if x.op == 'upd' else \
                    self.iter_segs(x)
        return [self.gen_seg(self.strip(v))]

    def align(self, alts):
        """one guarded sequence for alternatives which share elements"""
        pos = {}
        for c, a in alts:
            for i, s in enumerate(a):
                pos.setdefault(s[2], set()).add(i)
        if not any(len(v) > 1 for v in pos.values()):
            return None
        out = []
        for c, a in sorted(alts, key=lambda x: -len(x[1])):
            p = 0
            for s in a:
                k = self.bdd.and_(c, s[1])
                for i in range(p, len(out)):
                    if out[i][1] is s[2]:
                        out[i][0] = self.bdd.or_(out[i][0], k)
                        p = i + 1
                        break
                else:
                    out.insert(p, [k, s[2]])
                    p += 1
        return [('one', TRUE if self.bdd.implies(self.st.pc, k) else k, x)
                for k, x in out]

    def gen_seg(self, dom, elem=None):
        d = sum(1 for l in self.loops if l.dom is dom)
        idx = T('idx', dom, d)
        return ('each', (dom,), TRUE,
                self.item_term(dom, idx) if elem is None else elem(idx))

    def items_seg(self, keys, d, name='items'):
        def elem(i):
            k = self.item_term(keys, i)
            v = self.item_term(d, k)
            return v if name == 'values' else T('tuple', k, v)
        return self.gen_seg(keys, elem)

    def range_seg(self, v):
        a, b, c = v.args
        if c is const(1):
            n = sub(b, a)
            ln = n
            if ln.op == 'len':
                return self.gen_seg(ln.args[0], lambda i: add(a, i))
            if ln.op == 'count':
                doms, cond = ln.args
                if len(doms) == 1:
                    d = sum(1 for l in self.loops if l.dom is doms[0])
                    i = T('idx', doms[0], d)
                    if d:
                        i0 = T('idx', doms[0], 0)
                        cond = self.subst_node(
                            cond, lambda t: i if t is i0 else None)
                    return ('each', doms, cond,
                            add(a, T('pos', i, cond)))
            return self.gen_seg(T('range', const(0), n, const(1)),
                                lambda i: add(a, i))
        return self.gen_seg(v, lambda i: T('item', v, i))

    def rename_each(self, seg):
        doms, cond, elem = seg.args
        m = {}
        for dom in doms:
            d = sum(1 for l in self.loops if l.dom is dom)
            own = sorted({x for x in tm.subterms(elem) | self.node_terms(cond)
                          if x.op == 'idx' and x.args[0] is dom},
                         key=lambda x: x.args[1])
            if own:
                # the innermost one belongs to this segment
                x = own[-1]
                if x.args[1] != d:
                    m[x] = T('idx', dom, d)
        if m:
            memo = {}
            elem = self._subst(elem, lambda t: m.get(t), memo)
            cond = self.subst_node(cond, lambda t: m.get(t), memo)
        return doms, cond, elem

    def node_terms(self, n):
        out = set()
        for a in self.bdd.support(n):
            out |= tm.subterms(a)
            for x in list(out):
                for y in x.args:
                    if isinstance(y, int) and x.op == 'anyof':
                        out |= self.node_terms(y)
        return out

    def length(self, v):
        v = self.simp(v, self.st.pc)
        if v.op == 'phi':
            return self.phi([(c, self.length(x)) for c, x in v.args[0]])
        if self.typeof(v) in self.TRACES and v.op != 'ref':
            return self.length(self.read_field(v, 'data'))
        segs = self.seq_of(v)
        if segs is not None and self.is_set(v) and len(segs) + sum(
                x.op == 'each' for x in segs) > 1 and not all(
                x.op == 'one' and is_const(x.args[0]) for x in segs):
            # equal entries of a set count once
            return T('len', T('set', *segs))
        if segs is not None:
            tot = const(0)
            for s in segs:
                if s.op == 'one':
                    tot = add(tot, const(1))
                elif s.op == 'opt':
                    tot = add(tot, self.phi([(s.args[0], const(1)),
                                             (self.bdd.neg(s.args[0]),
                                              const(0))])) \
                        if False else add(tot, T('count', (), s.args[0]))
                elif s.op == 'each':
                    if s.args[1] == TRUE and len(s.args[0]) == 1:
                        tot = add(tot, self.len_term(s.args[0][0]))
                    else:
                        tot = add(tot, T('count', s.args[0], s.args[1]))
                else:
                    tot = add(tot, T('len', s))
            return tot
        if v.op == 'ref' and v.args[1] == 'dict':
            s = self.snap(v)
            if len(s.args) == 1:
                tot = const(0)
                for k, c, x in s.args[0]:
                    if c != FALSE:
                        tot = add(tot, const(1) if c == TRUE else
                                  T('count', (), c))
                return tot
            return T('len', s)
        if self.stream_like(v) or (v.op == 'ref' and
                                   (v, 'traces') in self.st.store):
            t = self.read_field(v, 'traces')
            return self.length(t) if t.op != 'fld' else T('len', t)
        ci = self.class_of(v)
        if ci is not None:
            fi = self.find_method(ci, '__len__')
            if fi is not None:
                return self.call_function(fi, [v], [], cls=fi.cls)
        return self.len_term(self.deref(v))

    def len_term(self, v):
        v = self.plain(v)
        if is_str(v):
            return const(len(cval(v)))
        if v.op == 'rev':
            return self.len_term(v.args[0])
        if v.op == 'range':
            a, b, c = v.args
            if c is const(1):
                return sub(b, a)
        if v.op == 'poly' and len(v.args) == 1:
            (m, c), = v.args
            if len(m) == 1 and m[0][1] == 1:
                return self.len_term(m[0][0])
        if v.op == 'nonzero':
            return const(1)     # an array of indices per dimension
        if v.op == 'copyof' or v.op in ('real', 'imag', 'conj'):
            return self.len_term(v.args[0])
        if v.op == 'call' and v.args[0].op == 'ext':
            name, kw = v.args[0].args[0], dict(v.args[2])
            if name == 'scipy.signal.detrend' and 'data' in kw:
                return self.len_term(kw['data'])
            if name == 'numpy.zeros' and self.whole(kw.get('shape')):
                return kw['shape']
        return T('len', v)

    def whole(self, v):
        """a number of elements, not a tuple"""
        return v is not None and (v.op in ('poly', 'len') or is_num(v) or
                                  self.typeof(v) == 'int')

    # ============================================================ operators
    def pure(self, op, *a):
        def f(*x):
            if op in ('real', 'imag', 'conj') and x[0].op == op:
                return x[0]
            if op in ('real',) and x[0].op == 'poly' and \
                    len(x[0].args) == 1:
                (m, c), = x[0].args
                if len(m) == 1 and m[0][1] == 1:
                    return mul(const(c), T(op, m[0][0]))
            if op in ('real', 'imag', 'conj', 'abs') and x[0].op == 'rev':
                return self.rev(T(op, x[0].args[0]))
            if op == 'abs':
                v = x[0]
                if is_num(v):
                    return const(abs(cval(v)))
                if v.op == 'abs':
                    return v
                c, b = tm.linear_coeff(v)
                if c != 1 and b is not v:
                    return mul(const(abs(c)), T('abs', b))
            if op in ('cos', 'sin'):
                p = topoly(x[0])
                if p:
                    lead = tm.p_content(p)
                    if lead < 0:
                        y = T(op, neg(x[0]))
                        return y if op == 'cos' else neg(y)
            if op == 'isnan' and x[0].op == 'poly' and \
                    len(x[0].args) == 1:
                (m, c), = x[0].args
                if len(m) == 1 and m[0][1] == 1:
                    return T(op, m[0][0])
            if op == 'transpose' and x[0].op == 'transpose':
                return x[0].args[0]
            return T(op, *x)
        return self.lift(f, *a)

    def binop(self, op, a, b):
        if op in ('add', 'mod', 'mul'):
            r = self.seq_binop(op, a, b)
            if r is not None:
                return r
        a, b = self.deref(a), self.deref(b)
        if op == 'add':
            a, b = self.enum(a), self.enum(b)
        return self.lift(lambda x, y: self.binop1(op, x, y), a, b)

    def enum(self, v):
        """a value known to be one of few strings, as these strings"""
        d = self.consts_of.get(v)
        if not d or self.st is None or v.op == 'const':
            return v
        cs = [(n, c) for c, n in d.items() if c != 'truthy' and is_str(c) and
              self.feasible(self.bdd.and_(self.st.pc, n))]
        if not 0 < len(cs) <= 4 or self.feasible(self.bdd.and_(
                self.st.pc, self.bdd.neg(self.bdd.or_(*[n for n, c in cs])))):
            return v
        return self.phi(cs)

    def seq_binop(self, op, a, b):
        if op == 'add':
            for x in (a, b):
                if x.op == 'phi' and all(
                        self.seq_of(y) is not None and not is_str(y)
                        for c, y in x.args[0]) and len(x.args[0]) <= 4:
                    return self.phi([
                        (c, self.binop(op, *((y, b) if x is a else (a, y))))
                        for c, y in x.args[0]])
            sa, sb = self.seq_of(a), self.seq_of(b)
            if is_str(a) or is_str(b):
                return None
            if sa is not None and sb is not None:
                if 'tuple' in (a.op, b.op) and all(
                        x.op == 'one' for x in sa + sb):
                    return T('tuple', *[x.args[0] for x in sa + sb])
                return self.mklist(sa + sb)
            if (sa is not None and a.op in ('ref', 'list')) or \
                    (sb is not None and b.op in ('ref', 'list')):
                x = sa if sa is not None else (T('rest', a),)
                y = sb if sb is not None else (T('rest', b),)
                return self.mklist(x + y)
        return None

    def binop1(self, op, a, b):
        a, b = self.plain(a), self.plain(b)
        if op == 'add':
            if strish(a) or strish(b):
                return self.concat([a, b])
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            if is_str(a) and is_num(b):
                return const(cval(a) * int(cval(b)))
            return self.lin_mul(a, b)
        if op == 'div':
            return div(a, b)
        if op == 'pow':
            return power(a, b)
        if op == 'mod':
            if is_str(a):
                return self.percent(cval(a), b)
            if is_num(a) and is_num(b) and cval(b):
                return const(cval(a) % cval(b))
            r = self.fmt_percent(a, b)
            if r is not None:
                return r
            return T('modulo', a, b)
        if op == 'floordiv':
            if is_num(a) and is_num(b) and cval(b):
                return const(cval(a) // cval(b))
            return T('floordiv', a, b)
        if op == 'matmul':
            return T('matmul', a, b)
        return T('bin', op, a, b)

    def lin_mul(self, a, b):
        return mul(a, b)

    # -------------------------------------------------------------- strings
    def fparts(self, v):
        if is_str(v):
            return [v]
        if v.op == 'fmt':
            return list(v.args)
        return [T('fv', v, '', '')]

    def mkfmt(self, parts):
        out = []
        for p in parts:
            if p.op == 'fv' and p.args[1] == '' and p.args[2] == '' and \
                    is_const(p.args[0]):
                p = const(str(cval(p.args[0])))
            elif p.op == 'fv' and is_const(p.args[0]) and p.args[1] == '':
                try:
                    p = const(format(cval(p.args[0]), p.args[2]))
                except Exception:
                    pass
            elif p.op == 'fv' and p.args[0].op == 'fmt' and \
                    p.args[1:] == ('', ''):
                for q in p.args[0].args:
                    out.append(q)
                continue
            if is_str(p):
                if cval(p) == '':
                    continue
                if out and is_str(out[-1]):
                    out[-1] = const(cval(out[-1]) + cval(p))
                    continue
            out.append(p)
        if not out:
            return const('')
        if len(out) == 1:
            if is_str(out[0]):
                return out[0]
            if out[0].op == 'fv' and out[0].args[1:] == ('', '') and \
                    strish(out[0].args[0]):
                return out[0].args[0]
        return T('fmt', *out)

    def concat(self, vs):
        parts = []
        for v in vs:
            parts += self.fparts(self.plain(v))
        return self.mkfmt(parts)

    def percent(self, s, arg):
        parts, i, n = [], 0, 0
        vals = list(arg.args) if arg.op == 'tuple' else [arg]
        while i < len(s):
            j = s.find('%', i)
            if j < 0:
                parts.append(const(s[i:]))
                break
            parts.append(const(s[i:j]))
            j += 1
            if j < len(s) and s[j] == '%':
                parts.append(const('%'))
                i = j + 1
                continue
            name = None
            if j < len(s) and s[j] == '(':
                k = s.index(')', j)
                name = s[j + 1:k]
                j = k + 1
            k = j
            while k < len(s) and s[k] in '0123456789.+-# ':
                k += 1
            if k >= len(s):
                break
            spec, ty = s[j:k], s[k]
            if name is not None:
                v = self.get_key(arg, name)[1]
            else:
                v = vals[n] if n < len(vals) else T('unk', 'fmt')
                n += 1
            v = self.snap(v)
            if ty in 'sr':
                parts.append(T('fv', v, 'r' if ty == 'r' else '', spec))
            else:
                parts.append(T('fv', v, '', spec + ty))
            i = k + 1
        return self.mkfmt(parts)

    def fmt_percent(self, a, b):
        """'%' on a format string whose other values contain no '%'"""
        if a.op != 'fmt':
            return None
        s, vals = '', []
        for p in a.args:
            if is_str(p):
                s += cval(p)
                continue
            if p.op != 'fv' or not (
                    p.args[0].op == 'fld' and p.args[0].args[1] == '__name__'
                    or p.args[2][-1:] in tuple('dfgexi')):
                return None
            s += chr(0xe000 + len(vals))
            vals.append(p)
        r = self.percent(s, b)
        out = []
        for p in (r.args if r.op == 'fmt' else (r,)):
            if not is_str(p):
                out.append(p)
                continue
            piece = ''
            for c in cval(p):
                if 0xe000 <= ord(c) < 0xe000 + len(vals):
                    out += [const(piece), vals[ord(c) - 0xe000]]
                    piece = ''
                else:
                    piece += c
            out.append(const(piece))
        return self.mkfmt(out)

    def format_(self, s, args, kw, star=None):
        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(s))
        except ValueError:
            return T('mcall', const(s), 'format', tuple(args), tuple(kw))
        for lit, name, spec, conv in fields:
            if lit:
                parts.append(const(lit))
            if name is None:
                continue
            first, rest = formatter_field_name_split(name)
            if first == '':
                first, auto = auto, auto + 1
            if isinstance(first, int):
                v = args[first] if first < len(args) else T('unk', 'fmt')
            else:
                d = dict((k, x) for k, x in kw if k is not None)
                if first in d:
                    v = d[first]
                else:
                    v = None
                    for k, x in kw:
                        if k is None:
                            v = self.get_key(x, first)[1]
                    if v is None:
                        v = T('unk', 'fmt:' + first)
            for is_attr, nm in rest:
                if is_attr:
                    v = self.read_field(v, nm)
                else:
                    v = self.subscript(v, const(nm))
            parts.append(self.fv_part(v, conv or '', spec or ''))
        return self.fmt_alts(parts)

    def fv_part(self, v, conv, spec):
        """one formatted value, own formatting methods are used"""
        v = self.simp(v, self.st.pc)
        for c, x in v.args[0] if v.op == 'phi' else ((TRUE, v),):
            ci = self.class_of(x)
            if ci is not None and not conv and \
                    self.find_method(ci, '__format__') is not None:
                break
        else:
            return T('fv', self.snap(v), conv, spec)
        out = []
        for c, x in v.args[0] if v.op == 'phi' else ((TRUE, v),):
            ci = self.class_of(x)
            m = None if ci is None else self.find_method(ci, '__format__')
            if m is None:
                out.append((c, T('fv', self.snap(x), conv, spec)))
                continue
            x = self.call_function(m, [x, const(spec)], [], cls=m.cls)
            out.append((c, x if is_str(x) else T('fv', self.snap(x), '',
                                                 '')))
        return T('fvalt', *out)

    def fmt_alts(self, parts):
        for i, p in enumerate(parts):
            if p.op == 'fvalt':
                return self.phi([(c, self.fmt_alts(
                    parts[:i] + [x] + parts[i + 1:])) for c, x in p.args])
        return self.mkfmt(parts)

    # ============================================================ raise/try
    def want_split(self, kinds):
        """does some enclosing handler react to these exception classes?"""
        for s in reversed(self.sinks):
            if s['broad']:
                return True
            for c in s['classes']:
                for k in kinds:
                    if exc_isa(k, c) or exc_isa(c, k):
                        return True
        return False

    def may_raise(self, cond, exc):
        """split the state on cond; the raising half goes to the handler"""
        st = self.st
        if not self.sinks or st is None:
            return
        bd = self.bdd
        pc = bd.and_(st.pc, cond)
        if self.feasible(pc):
            self.sinks[-1]['states'].append((st.copy(pc=pc), exc))
        st.pc = bd.and_(st.pc, bd.neg(cond))
        if not self.feasible(st.pc):
            raise Stop()

    def logs(self, t):
        """a call of the logging package"""
        while t.op in ('mcall', 'new'):
            t = t.args[0] if t.op == 'mcall' else t.args[1]
        return t.op == 'call' and t.args[0].op == 'ext' and \
            t.args[0].args[0].startswith('logging.')

    def call_may_raise(self, term):
        if not self.sinks or self.logs(term):
            return
        if any(s['broad'] or s['anycall'] for s in self.sinks):
            c = self.atom(T('raises', self.strip(term)))
            if self.bdd.implies(self.st.pc, self.bdd.neg(c)):
                return
            self.may_raise(c, T('exc', term))

    def key_guard(self, h, exc='KeyError'):
        if h == TRUE or not self.sinks:
            return
        if self.want_split([exc]):
            self.may_raise(self.bdd.neg(h), T('excls', exc))

    def key_exit(self, h, exc='KeyError'):
        """lookup in a dictionary whose keys are all known: it ends here
        for all other keys"""
        if self.sinks and self.want_split([exc]):
            return self.key_guard(h, exc)
        bd, st = self.bdd, self.st
        miss = bd.and_(st.pc, bd.neg(h))
        if h == TRUE or not self.feasible(miss):
            return
        self.throw(st.copy(pc=miss), T('excls', exc))
        st.pc = bd.and_(st.pc, h)
        if not self.feasible(st.pc):
            raise Stop()

    # =============================================================== blocks
    loopctl = None

    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            if not self.feasible(self.st.pc):
                self.st = None
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.nodestack.append(s)
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisError('analysis budget exhausted')
        try:
            m = getattr(self, 'x_' + type(s).__name__, None)
            if m is None:
                self.unsupported.append((type(s).__name__,
                                         getattr(s, 'lineno', 0)))
                return
            try:
                m(s)
            except Stop:
                self.st = None
        finally:
            self.nodestack.pop()

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        v = s.value
        if isinstance(v, ast.ListComp) and not any(
                g.is_async for g in v.generators):
            # result thrown away: a loop over the elements
            body = [ast.copy_location(ast.Expr(v.elt), v.elt)]
            for g in reversed(v.generators):
                for t in reversed(g.ifs):
                    body = [ast.copy_location(ast.If(t, body, []), t)]
                body = [ast.copy_location(
                    ast.For(g.target, g.iter, body, [], None), v)]
            f = self.frames[-1]
            names = {x.id for g in v.generators for x in ast.walk(g.target)
                     if isinstance(x, ast.Name)}
            saved = {k: self.st.vars.get((f.id, k)) for k in names}
            self.exec_block(body)
            if self.st is not None:
                for k, x in saved.items():
                    if x is None:
                        self.st.vars.pop((f.id, k), None)
                    else:
                        self.st.vars[(f.id, k)] = x
            return
        self.eval(v)

    def x_Import(self, s):
        for a in s.names:
            if a.asname:
                nm, val = a.asname, self.mod_ref(a.name)
            else:
                nm = a.name.split('.')[0]
                val = self.mod_ref(nm)
            self.ev('import', self.st, name=a.name)
            self.import_guard(a.name)
            self.set_var(nm, val)

    def import_guard(self, name):
        top = name.split('.')[0]
        if self.sinks and top != self.prog.package and \
                top not in sys.stdlib_module_names and \
                self.want_split(['ImportError']):
            c = self.atom(T('raises', T('import', name)))
            if not self.bdd.implies(self.st.pc, self.bdd.neg(c)):
                self.may_raise(c, T('excls', 'ImportError'))

    def mod_ref(self, name):
        if name in self.prog.modules:
            return T('mod', name)
        return T('ext', name)

    def x_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.frames[-1].fi.module.name.split('.')
            if not self.frames[-1].fi.module.rel.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([s.module] if s.module else []))
        self.ev('import', self.st, name=mod)
        self.import_guard(mod)
        for a in s.names:
            if mod in self.prog.modules:
                if self.frames[-1].fi.name == '<module>':
                    v = T('lazy', mod, a.name)
                else:
                    v = self.resolve_import(mod, a.name)
            else:
                v = T('ext', mod + '.' + a.name)
            self.set_var(a.asname or a.name, v)

    def x_Global(self, s):
        pass

    x_Nonlocal = x_Global

    def x_FunctionDef(self, s):
        fi = self.prog.node_fi.get(s)
        if fi is None:
            return
        f = self.frames[-1]
        f.has_closure = True
        fid = f.id
        self.frame_map[fid] = f
        v = T('func', fi.id, fid)
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, fi)
        self.set_var(s.name, v)

    def decorate(self, v, d, fi):
        return v

    def x_ClassDef(self, s):
        for ci in self.prog.classes.values():
            if ci.node is s:
                self.set_var(s.name, T('cls', ci.qual))

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        f = self.frames[-1]
        f.returns.append((self.st, v))
        if f.top:
            self.ev('return', self.st, value=v)
        self.st = None

    def x_Raise(self, s):
        exc = self.eval(s.exc) if s.exc is not None else T('reraise')
        if s.cause is not None:
            self.eval(s.cause)
        name = self.exc_name(exc)
        self.ev('raise', self.st, value=exc, name=name)
        self.do_raise(exc, name)

    def do_raise(self, exc, name):
        if name is None and exc.op == 'reraise' and self.handler_stack:
            t = self.handler_stack[-1].get('exc')
            t = t if t is not None else T('exc', T('unk', 'reraised'))
        else:
            t = T('excls', name or 'Exception')
        self.throw(self.st, t)
        self.st = None

    def throw(self, st, t):
        if self.sinks:
            self.sinks[-1]['states'].append((st, t))
        elif self.record:
            self.escaped.append((st.pc, t, tuple(l.dom for l in self.loops),
                                 self.node, self.module))

    def exc_name(self, exc):
        if exc.op == 'new':
            exc = exc.args[1]
        if exc.op == 'call':
            exc = exc.args[0]
        if exc.op == 'ref':
            c = self.refcls.get(exc)
            return c.split('.')[-1] if c else None
        if exc.op == 'ext':
            return exc.args[0].split('.')[-1]
        if exc.op == 'cls':
            return exc.args[0].split('.')[-1]
        return None

    def x_Assert(self, s):
        c = self.cond(s.test)
        bd = self.bdd
        if self.st is None:
            return
        bad = bd.and_(self.st.pc, bd.neg(c))
        if self.feasible(bad):
            b = self.st.copy(pc=bad)
            good, self.st = self.st, b
            self.ev('raise', b, value=T('ext', 'builtins.AssertionError'),
                    name='AssertionError')
            self.throw(b, T('excls', 'AssertionError'))
            self.st = good
        self.st.pc = bd.and_(self.st.pc, c)
        if not self.feasible(self.st.pc):
            self.st = None

    def x_If(self, s):
        c = self.cond(s.test)
        self.branch(c, lambda: self.exec_block(s.body),
                    lambda: self.exec_block(s.orelse))

    def branch(self, c, then, other):
        bd = self.bdd
        st = self.st
        a = bd.and_(st.pc, c)
        b = bd.and_(st.pc, bd.neg(c))
        fa, fb = self.feasible(a), self.feasible(b)
        if fa and not fb:
            then()
            return
        if fb and not fa:
            other()
            return
        if not fa and not fb:
            self.st = None
            return
        self.st = st.copy(pc=a)
        then()
        s1 = self.st
        self.st = st.copy(pc=b)
        other()
        s2 = self.st
        self.st = self.merge([s1, s2])

    def x_Break(self, s):
        self.loopctl[-1]['break'].append(self.st)
        self.st = None

    def x_Continue(self, s):
        self.loopctl[-1]['continue'].append(self.st)
        self.st = None

    # ----------------------------------------------------------- assignment
    def set_var(self, name, v):
        f = self.frames[-1]
        if name in f.fi.globals:
            self.ev('setglobal', self.st, name=name, value=v,
                    recv=T('mod', f.fi.module.name))
            return
        if name in f.fi.nonlocals:
            p = f.parent
            while p is not None:
                if (p.id, name) in self.st.vars or name in p.fi.locals:
                    self.st.vars[(p.id, name)] = v
                    return
                p = p.parent
        self.st.vars[(f.id, name)] = v

    def x_Assign(self, s):
        v = self.eval(s.value)
        if self.st is None:
            return
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.set_var(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            self.set_attr(base, t.attr, v)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            k = self.eval_index(t.slice)
            self.set_item(base, k, v, t.value)

    def unpack(self, elts, v):
        v = self.simp(v, self.st.pc)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        segs = self.seq_of(v)
        items = None
        if segs is not None and all(x.op == 'one' for x in segs):
            items = [x.args[0] for x in segs]
        if items is None and v.op == 'phi':
            cols = []
            for c, x in v.args[0]:
                sg = self.seq_of(x)
                if sg is None or not all(y.op == 'one' for y in sg) or \
                        len(sg) != len(elts):
                    cols = None
                    break
                cols.append((c, [y.args[0] for y in sg]))
            if cols and not star:
                items = [self.phi([(c, it[i]) for c, it in cols])
                         for i in range(len(elts))]
        if items is not None and not star and len(items) != len(elts):
            if self.want_split(['ValueError']):
                self.may_raise(TRUE, T('excls', 'ValueError'))
            items = None
        if star:
            i = star[0]
            n = len(elts) - i - 1
            if items is not None:
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x)
                mid = items[i:len(items) - n] if n else items[i:]
                self.assign(elts[i].value,
                            self.mklist([T('one', x) for x in mid]))
                for e, x in zip(elts[i + 1:], items[len(items) - n:]):
                    self.assign(e, x)
                return
            for k, e in enumerate(elts):
                if k == i:
                    self.assign(e.value, T('item', v, T(
                        'slice', const(i), const(-n) if n else NONE, NONE)))
                else:
                    self.assign(e, T('item', v, const(
                        k if k < i else k - len(elts))))
            return
        if items is None:
            pv = self.deref(v)
            if self.want_split(['ValueError']) and pv.op != 'phi':
                c = self.bdd.neg(self.eq(
                    self.length(pv), const(len(elts)))) if self.numeric(
                        pv) else self.atom(T('raises', T(
                            'unpack', self.strip(pv), len(elts))))
                self.may_raise(c, T('excls', 'ValueError'))
            items = [self.item_term(pv, const(i)) for i in range(len(elts))]
            if len(elts) == 1 and v.op == 'ref' and v.args[1] == 'set':
                items = [T('anyitem', self.snap(v))]
        for e, x in zip(elts, items):
            self.assign(e, x)

    def set_attr(self, base, name, v):
        base = self.simp(base, self.st.pc)
        ci = self.class_of(base)
        if ci is not None:
            fi = self.find_setter(ci, name)
            if fi is not None and fi.qual not in self.opaque:
                self.ev('setprop', self.st, recv=base, name=name, value=v)
                self.call_function(fi, [base, v], [], cls=fi.cls)
                return
        if base.op in ('ext', 'mod'):
            self.ev('store', self.st, recv=base, name=name, value=v)
            if base.op == 'ext' and (base.args[0], name) in self.SHARED:
                self.st.store[(base, name)] = v
            return
        self.set_key(base, name, v)

    ARRAYFLD = {'data'}

    def is_local(self, name):
        f = self.frames[-1]
        while f is not None:
            if (f.id, name) in self.st.vars:
                return True
            f = f.parent
        return False

    def set_item(self, base, k, v, node=None):
        st = self.st
        base = self.simp(base, st.pc)
        if base.op == 'phi':
            outs = []
            s0 = self.st
            for c, x in base.args[0]:
                pc = self.bdd.and_(s0.pc, c)
                if not self.feasible(pc):
                    continue
                self.st = s0.copy(pc=pc)
                self.set_item(x, k, v)
                outs.append(self.st)
            self.st = self.merge(outs)
            return
        if base.op == 'ref' and base.args[1] == 'dict':
            self.dict_set(base, k, v)
            return
        if base.op == 'ref' and base.args[1] == 'list':
            self.ev('setitem', st, recv=base, name=k, value=v)
            segs = st.store.get((base, '$seq'))
            if k.op == 'slice' and all(x is NONE for x in k.args):
                if v is base:
                    return
                o = self.seq_of(v)
                if o is not None:
                    st.store[(base, '$seq')] = T('seq', *o)
                    return
            if is_const(k) and segs is not None and segs.op == 'seq' and \
                    all(x.op == 'one' for x in segs.args):
                try:
                    l = list(segs.args)
                    l[cval(k)] = T('one', v)
                    st.store[(base, '$seq')] = T('seq', *l)
                    return
                except (IndexError, TypeError):
                    pass
            if segs is not None:
                st.store[(base, '$seq')] = T('upd', self.snap(base), k,
                                             self.snap(v))
            return
        n = key_name(k)
        if n is not None and not n.startswith('#') and base.op not in (
                'poly',):
            self.set_key(base, n, v)
            return
        self.ev('setitem', st, recv=base, name=k, value=v)
        val = T('upd', self.deref(base), self.snap(k), self.snap(v))
        if base.op == 'new':
            st.store[(base, '$val')] = val
        elif base.op == 'fld' and base.args[1] in self.ARRAYFLD:
            st.store[(base.args[0], base.args[1])] = val
        elif isinstance(node, ast.Name) and self.is_local(node.id):
            self.set_var(node.id, val)
        elif isinstance(node, ast.Attribute):
            b = self.eval(node.value)
            rec, self.record = self.record, False
            self.set_attr(b, node.attr, val)
            self.record = rec
        elif isinstance(node, ast.Subscript):
            # x[i][j] = v : update of the row
            b = self.eval(node.value)
            self.st.store.setdefault((b, '$touched'), TRUE_)
        elif base.op in ('sym', 'fld', 'item', 'call', 'mcall', 'upd'):
            st.store[(base, '$val')] = val

    OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div',
           ast.Pow: 'pow', ast.Mod: 'mod', ast.FloorDiv: 'floordiv',
           ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or',
           ast.BitXor: 'xor', ast.LShift: 'shl', ast.RShift: 'shr'}

    def x_AugAssign(self, s):
        t = s.target
        op = self.OPN[type(s.op)]
        rhs = self.eval(s.value)
        if isinstance(t, ast.Name):
            old = self.get_var(t.id)
            if op == 'add' and old.op == 'ref' and old.args[1] == 'list':
                self.list_extend(old, rhs)
                return
            new = self.binop(op, old, rhs)
            tgt = self.simp(old, self.st.pc)
            self.ev('aug', self.st, recv=tgt, name=op, value=rhs)
            for i, (e, pc, acc) in enumerate(self.rowaug):
                if e is tgt:
                    acc.append((op, self.strip(self.snap(rhs)),
                                self.bdd.implies(pc, self.st.pc)))
            if tgt.op == 'new':
                self.ev('inplace', self.st, recv=tgt, name=op, value=rhs)
                self.st.store[(tgt, '$val')] = new
                return
            if tgt.op == 'fld' and tgt.args[1] in self.ARRAYFLD:
                self.ev('inplace', self.st, recv=tgt, name=op, value=rhs)
                self.set_key(tgt.args[0], tgt.args[1], new)
                self.set_var(t.id, new)
                return
            if tgt.op == 'phi' and any(x.op == 'new'
                                       for c, x in tgt.args[0]):
                bd, alts = self.bdd, []
                for c, x in tgt.args[0]:
                    y = self.binop(op, x, rhs)
                    if x.op == 'new':
                        self.ev('inplace', self.st, recv=x, name=op,
                                value=rhs)
                        self.st.store[(x, '$val')] = self.phi(
                            [(c, y), (bd.neg(c), self.deref(x))])
                        y = x
                    alts.append((c, y))
                self.set_var(t.id, self.phi(alts))
                return
            if tgt.op in ('item', 'sym', 'carried'):
                # in-place for arrays; rebinding for scalars
                self.ev('inplace', self.st, recv=tgt, name=op, value=rhs)
                self.st.store[(tgt, '$val')] = new
            self.set_var(t.id, new)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            old = self.read_field(base, t.attr)
            if op == 'add' and old.op == 'ref' and old.args[1] == 'list':
                self.list_extend(old, rhs)
                return
            self.ev('augold', self.st, recv=old, name=t.attr, value=rhs,
                    args=(base,))
            self.set_attr(base, t.attr, self.binop(op, old, rhs))
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            k = self.eval_index(t.slice)
            old = self.subscript(base, k)
            if op == 'add' and old.op == 'ref' and old.args[1] == 'list':
                self.list_extend(old, rhs)
                return
            if old.op == 'new':
                self.ev('inplace', self.st, recv=old, name=op, value=rhs)
                self.st.store[(old, '$val')] = self.binop(op, old, rhs)
                return
            self.ev('augold', self.st, recv=old, name='[]', value=rhs,
                    args=(base,))
            self.set_item(base, k, self.binop(op, old, rhs), t.value)

    def list_extend(self, ref, other):
        st = self.st
        self.ev('mutate', st, recv=ref, name='extend', args=(other,))
        segs = st.store.get((ref, '$seq'), T('seq'))
        o = self.seq_of(other)
        if o is None:
            o = []
            for s in self.iter_segs(other):
                o.append(T('one', s[2]) if s[0] == 'one' and s[1] == TRUE
                         else T('opt', s[1], s[2]) if s[0] == 'one'
                         else T('each', *s[1:]))
        if segs.op != 'seq':
            segs = T('seq', T('rest', segs))
        st.store[(ref, '$seq')] = T('seq', *(segs.args + tuple(o)))

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.vars[(self.frames[-1].id, t.id)] = UNBOUND
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                k = self.eval_index(t.slice)
                n = key_name(k)
                b = self.simp(base, self.st.pc)
                if b.op == 'ref' and b.args[1] == 'list' and is_const(k):
                    self.list_method(b, 'pop', [k], [])
                elif n is not None:
                    self.key_guard(self.get_key(base, n)[0])
                    self.del_key(base, n)
                else:
                    self.ev('delete', self.st, recv=base, name=k)
            elif isinstance(t, ast.Attribute):
                self.del_key(self.eval(t.value), t.attr)

    # --------------------------------------------------------------- try
    def handler_classes(self, h):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t) for t in ts]

    BROAD = {'Exception', 'BaseException'}
    KEYISH = {'KeyError', 'IndexError', 'LookupError'}

    def x_Try(self, s):
        self.try_(s.handlers, s.finalbody,
                  lambda: self.exec_block(s.body),
                  lambda: self.exec_block(s.orelse))

    x_TryStar = x_Try

    def try_(self, handlers, finalbody, body, orelse):
        f = self.frames[-1]
        outer = bool(finalbody)
        fin_sink = None
        if finalbody:
            fin_sink = {'states': [], 'classes': [], 'broad': True,
                        'anycall': True, 'final': True}
            self.sinks.append(fin_sink)
            nret = len(f.returns)
            ctl = self.loopctl[-1] if self.loopctl else None
            nb = (len(ctl['break']), len(ctl['continue'])) if ctl else None
        done = []
        if handlers:
            classes = [c for h in handlers for c in self.handler_classes(h)]
            sink = {'states': [], 'classes': classes,
                    'broad': any(c in self.BROAD for c in classes),
                    'anycall': any(c.split('.')[-1] not in self.KEYISH
                                   for c in classes)}
            self.sinks.append(sink)
            body()
            self.sinks.pop()
            if self.st is not None:
                orelse()
            done.append(self.st)
            pending = sink['states']
            for h in handlers:
                cl = self.handler_classes(h)
                hit, miss = [], []
                for st, exc in pending:
                    c = self.exc_match(exc, cl)
                    a = self.bdd.and_(st.pc, c)
                    b = self.bdd.and_(st.pc, self.bdd.neg(c))
                    if self.feasible(a):
                        hit.append((st if c == TRUE else st.copy(pc=a), exc))
                    if self.feasible(b):
                        miss.append((st if c == FALSE else st.copy(pc=b),
                                     exc))
                pending = miss
                if not hit:
                    continue
                self.st = self.merge([x for x, e in hit])
                if self.st is None:
                    continue
                excs = {e for x, e in hit}
                exc = next(iter(excs)) if len(excs) == 1 else \
                    T('exc', T('unk', 'several'))
                self.handler_stack.append({'classes': cl, 'exc': exc,
                                           'node': h})
                if h.name:
                    self.set_var(h.name, T('exception', tuple(cl)))
                self.exec_block(h.body)
                self.handler_stack.pop()
                done.append(self.st)
            for x, e in pending:
                self.throw(x, e)
            self.st = self.merge(done)
        else:
            body()
            if self.st is not None:
                orelse()
        if not finalbody:
            return
        self.sinks.pop()
        normal = self.st
        # exceptional exits run the final block too
        ex = fin_sink['states']
        if ex:
            self.st = self.merge([x for x, e in ex])
            if self.st is not None:
                self.exceptional += 1
                self.exec_block(finalbody)
                self.exceptional -= 1
                excs = {e for x, e in ex}
                if self.st is not None:
                    self.ev('escape', self.st)
                    self.throw(self.st, next(iter(excs)) if len(excs) == 1
                               else T('exc', T('unk', 'several')))
        rets = f.returns[nret:]
        if rets:
            del f.returns[nret:]
            for st, v in rets:
                self.st = st
                self.exec_block(finalbody)
                if self.st is not None:
                    f.returns.append((self.st, v))
        if ctl:
            for which, n in zip(('break', 'continue'), nb):
                ss = ctl[which][n:]
                del ctl[which][n:]
                for st in ss:
                    self.st = st
                    self.exec_block(finalbody)
                    if self.st is not None:
                        ctl[which].append(self.st)
        self.st = normal
        if normal is not None:
            self.exec_block(finalbody)

    def exc_match(self, exc, classes):
        if any(c == 'BaseException' for c in classes):
            return TRUE
        if exc.op == 'excls':
            user = {ci.name: (ci.bases[0].split('.')[-1] if ci.bases else
                              'Exception')
                    for ci in self.prog.classes.values()}
            return TRUE if any(exc_isa(exc.args[0], c, user)
                               for c in classes) else FALSE
        if any(c == 'Exception' for c in classes):
            return TRUE
        alias = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}
        return self.bdd.or_(*[self.atom(T('excis', self.strip(exc), (
            alias.get(c, c),))) for c in classes])

    # --------------------------------------------------------------- with
    def x_With(self, s):
        self.with_items(list(s.items), s.body)

    x_AsyncWith = x_With

    def with_items(self, items, body):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        e = it.context_expr
        rest = items[1:]
        if isinstance(e, ast.Call):
            fn = self.eval(e.func)
            args, kw = self.eval_args(e)
            if fn.op == 'ext' and fn.args[0] == 'contextlib.suppress':
                cls = [self.exc_name(a) or 'Exception' for a in args]
                h = ast.ExceptHandler(
                    type=ast.Tuple([ast.Name(c) for c in cls], ast.Load()),
                    name=None, body=[ast.Pass()])
                ast.fix_missing_locations(h)
                self.try_([h], [], lambda: self.with_items(rest, body),
                          lambda: None)
                return
            fi = self.func_info(fn)
            if fi is not None and fi.is_generator:
                left, on = [], []

                def cb(v):
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v)
                    f = self.frames[-1]
                    n = len(f.returns)
                    ctl = {'break': [], 'continue': []}
                    self.loopctl.append(ctl)
                    try:
                        self.with_items(rest, body)
                    finally:
                        self.loopctl.pop()
                    left.extend(('', s, v) for s, v in f.returns[n:])
                    del f.returns[n:]
                    for k in ctl:
                        left.extend((k, s, None) for s in ctl[k])
                    on.append(self.st.pc if self.st is not None else FALSE)
                    if left:
                        self.st = self.merge(
                            [self.st] + [s for k, s, v in left])
                self.call_value(fn, args, kw, yield_cb=cb)
                if left and self.st is not None:
                    # the block was left early: what ends it has been run
                    st0, f = self.st, self.frames[-1]
                    for k, s, v in left:
                        pc = self.bdd.and_(st0.pc, s.pc)
                        if not self.feasible(pc):
                            continue
                        if not k:
                            f.returns.append((st0.copy(pc=pc), v))
                        elif self.loopctl:
                            self.loopctl[-1][k].append(st0.copy(pc=pc))
                    pc = self.bdd.and_(st0.pc, self.bdd.or_(*on))
                    self.st = st0.copy(pc=pc) if self.feasible(pc) else None
                return
            v = self.call_value(fn, args, kw)
        else:
            v = self.eval(e)
        if self.st is None:
            return
        ci = self.class_of(v)
        ent = self.find_method(ci, '__enter__') if ci else None
        if ent is not None:
            v2 = self.call_function(ent, [v], [], cls=ent.cls)
        else:
            v2 = T('enter', v) if self.plain(v).op in ('call', 'mcall') \
                else v
            self.ev('with', self.st, recv=v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v2)
        ext = self.find_method(ci, '__exit__') if ci else None
        if ext is not None:
            # behaves like try/finally
            stub = []

            def fin():
                self.call_function(ext, [v, T('unk', 'et'), T('unk', 'ev'),
                                         T('unk', 'tb')], [], cls=ext.cls)
            self.try_fn(lambda: self.with_items(rest, body), fin)
            return
        self.with_items(rest, body)

    def try_fn(self, body, fin):
        """try: body() finally: fin()"""
        st_ = ast.Pass()
        st_.lineno = getattr(self.node, 'lineno', 0)
        marker = _Final(fin)
        self.try_([], [marker], body, lambda: None)

    def x__Final(self, s):
        s.fn()

    # =============================================================== loops
    def x_For(self, s):
        w = self.counted(s)
        if w is not None:
            self.exec_block(w)
            return
        it = None
        s = self.counting(s)
        if self.numbered(s):
            f = self.frames[-1]
            number, target = s.target.elts
            it = self.eval_iter(s.iter.args[0])
            if not self.reads(f.fi.node if f.fi else self.module.tree,
                              number.id) and not self.reads(s, number.id):
                s = self.plain_loop(s, s.iter.args[0])
            elif it.op == 'gencall':
                # count along, the generator is run step by step
                src, k = '$src%d' % s.lineno, '$num%d' % s.lineno
                self.st.vars[(f.id, src)] = it
                a = s.iter.args[1:] + [x.value for x in s.iter.keywords]
                self.st.vars[(f.id, k)] = self.eval(a[0]) if a else const(0)
                step = [ast.Assign([number], ast.Name(k, ast.Load())),
                        ast.Assign([ast.Name(k, ast.Store())], ast.BinOp(
                            ast.Name(k, ast.Load()), ast.Add(),
                            ast.Constant(1)))]
                s = self.plain_loop(s, ast.Name(src, ast.Load()), step)
            else:
                it = self.b_enumerate([it] + [
                    self.eval(a) for a in s.iter.args[1:]], [
                        (x.arg, self.eval(x.value)) for x in s.iter.keywords])
        if it is None:
            it = self.eval_iter(s.iter)

        def body(elem):
            self.assign(s.target, elem)
            self.exec_block(s.body)
        self.loop_over(it, body, s.orelse, s)

    x_AsyncFor = x_For

    def counting(self, s):
        """
        A variable increased by the same number once in each step is the first
        value plus so many times the number.
        """
        f = self.frames[-1]
        names = {}
        for x in ast.walk(ast.Module(s.body, [])):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                names[x.id] = names.get(x.id, 0) + 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                return s
        if leaves_loop(s.body, (ast.Continue,)):
            return s
        taken = [x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)]
        found = []
        for x in s.body:
            step = self.step(x)
            if step and names[step[0]] == 1 and step[0] not in taken and \
                    (f.id, step[0]) in self.st.vars:
                found.append(step)
        if not found or not isinstance(s, ast.For):
            return s
        k = '$step%d' % s.lineno
        more = []
        for name, number in found:
            first = '$first%d%s' % (s.lineno, name)
            self.st.vars[(f.id, first)] = self.st.vars[(f.id, name)]
            n = ast.Name(k, ast.Load())
            if number != 1:
                n = ast.BinOp(n, ast.Mult(), ast.Constant(number))
            more.append(ast.Assign(
                [ast.Name(name, ast.Store())],
                ast.BinOp(ast.Name(first, ast.Load()), ast.Add(), n)))
        r = ast.For(ast.Tuple([ast.Name(k, ast.Store()), s.target],
                              ast.Store()),
                    ast.Call(ast.Name('enumerate', ast.Load()), [s.iter], []),
                    more + s.body, s.orelse)
        ast.copy_location(r, s)
        for x in more:
            ast.copy_location(x, s)
        ast.fix_missing_locations(r)
        return r if self.numbered(r) else s

    def step(self, x):
        """(v, n) for v += n and v = v + n"""
        if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and \
                isinstance(x.target, ast.Name):
            v, n = x.target.id, x.value
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                isinstance(x.targets[0], ast.Name) and isinstance(
                    x.value, ast.BinOp) and isinstance(x.value.op, ast.Add):
            v = x.targets[0].id
            a, b = x.value.left, x.value.right
            if isinstance(b, ast.Name) and b.id == v:
                a, b = b, a
            if not (isinstance(a, ast.Name) and a.id == v):
                return None
            n = b
        else:
            return None
        if isinstance(n, ast.Constant) and type(n.value) is int:
            return v, n.value
        return None

    def numbered(self, s):
        """for i, x in enumerate(...)"""
        c = s.iter
        return isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and \
            c.func.id == 'enumerate' and isinstance(s, ast.For) and \
            1 <= len(c.args) + len(c.keywords) <= 2 and c.args and \
            not isinstance(c.args[0], ast.Starred) and \
            all(k.arg == 'start' for k in c.keywords) and \
            isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and \
            isinstance(s.target.elts[0], ast.Name) and \
            self.eval(c.func) is T('ext', 'builtins.enumerate')

    def reads(self, node, name):
        return any(isinstance(n, ast.Name) and n.id == name and
                   not isinstance(n.ctx, ast.Store) for n in ast.walk(node))

    def plain_loop(self, s, it, more=()):
        r = ast.For(s.target.elts[1], it, list(more) + s.body, s.orelse)
        ast.copy_location(r, s)
        for x in more:
            ast.copy_location(x, s)
        ast.fix_missing_locations(r)
        return r

    def eval_iter(self, node):
        return self.eval(node)

    def loop_over(self, it, body, orelse=(), node=None):
        it = self.simp(it, self.st.pc)
        ev = self.ev('loop', self.st, value=it)
        if it.op == 'gencall':
            fnv, args, kw = it.args
            self.call_value(fnv, list(args), [list(x) for x in kw],
                            yield_cb=body, force=True)
            if orelse and self.st is not None:
                self.exec_block(orelse)
            return
        if it.op == 'genexp':
            segs = self.iter_segs(it.args[0])
        else:
            if it.op == 'new' and it.args[1].op == 'sorted' and \
                    it.args[1].args[0].op == 'set':
                # one of the orders in which a set may be gone through
                it = it.args[1].args[0]
            ci = self.class_of(it)
            if ci is not None and not self.stream_like(it):
                fi = self.find_method(ci, '__iter__')
                if fi is not None:
                    if fi.is_generator:
                        self.call_function(fi, [it], [], yield_cb=body,
                                           cls=fi.cls)
                        return
                    it = self.call_function(fi, [it], [], cls=fi.cls)
                    self.loop_over(it, body, orelse)
                    return
            segs = self.iter_segs(it)
        ones = sum(1 for s in segs if s[0] == 'one')
        if ones > MAXUNROLL:
            segs = [self.gen_seg(self.snap(it))]
        brk = []
        rows = None
        if it.op == 'new' and len(segs) == 1 and segs[0][0] == 'each' and \
                segs[0][3].op == 'item' and segs[0][2] == TRUE:
            # rows of an array, changed in place
            rows = segs[0][3]
            inner = body
            aug = []
            before = self.deref(it)
            during = node is not None and isinstance(
                node.target, ast.Name) and any(
                    isinstance(x, ast.AugAssign) and
                    isinstance(x.target, ast.Name) and
                    x.target.id == node.target.id
                    for b in node.body for x in ast.walk(b))
            if during:
                # anything reading the whole array in the loop sees the
                # rows changed so far
                self.st.store[(it, '$val')] = T('during', before)

            def body(e):
                cur = []
                self.rowaug.append((rows, self.st.pc, cur))
                inner(e)
                self.rowaug.pop()
                aug[:] = cur
        for seg in segs:
            if self.st is None:
                break
            if seg[0] == 'one':
                self.one_iter(seg, body, brk)
            else:
                self.generic_loop(seg[1], seg[2],
                                  lambda: body(seg[3]), brk)
        if rows is not None and during and self.st is not None:
            self.st.store[(it, '$val')] = before
        if rows is not None and aug and self.st is not None:
            if brk or any(not c or self.depends(r, {rows.args[1]})
                          for o, r, c in aug):
                val = T('unk', 'rows')
            else:
                val = self.deref(it)
                for o, r, c in aug:
                    if any(x.op == 'during' for x in tm.subterms(r)):
                        val = T('rowwise', o, val, r)
                    else:
                        val = self.binop(o, val, r)
            self.st.store[(it, '$val')] = val
            self.st.store.pop((rows, '$val'), None)
        if orelse and self.st is not None:
            self.exec_block(orelse)
        if brk:
            self.st = self.merge([self.st] + brk)

    def one_iter(self, seg, body, brk):
        c, elem = seg[1], seg[2]
        bd = self.bdd
        skip = None
        if c != TRUE:
            st = self.st
            no = bd.and_(st.pc, bd.neg(c))
            yes = bd.and_(st.pc, c)
            if not self.feasible(yes):
                return
            if self.feasible(no):
                skip = st.copy(pc=no)
                self.st = st.copy(pc=yes)
        ctl = {'break': [], 'continue': []}
        self.loopctl.append(ctl)
        try:
            body(elem)
        except Stop:
            self.st = None
        self.loopctl.pop()
        self.st = self.merge([self.st, skip] + ctl['continue'])
        brk += ctl['break']

    def _run_body(self, st, doms, body):
        """one symbolic pass over the loop body"""
        f = self.frames[-1]
        ctl = {'break': [], 'continue': []}
        self.loopctl.append(ctl)
        for d in doms:
            k = sum(1 for l in self.loops if l.dom is d)
            self.loops.append(Loop(d, T('idx', d, k)))
        nret = len(f.returns)
        nsink = [len(s['states']) for s in self.sinks]
        self.st = st
        try:
            body()
        except Stop:
            self.st = None
        end = self.merge([self.st] + ctl['continue'])
        del self.loops[len(self.loops) - len(doms):]
        self.loopctl.pop()
        rets = f.returns[nret:]
        del f.returns[nret:]
        sunk = []
        for s, n in zip(self.sinks, nsink):
            sunk.append(s['states'][n:])
            del s['states'][n:]
        return end, ctl['break'], rets, sunk

    def settle(self, st0, pc_in, carried, keysets, first, doms, body, idxs):
        """locations which have their final value after the first pass
        (like an option set by setdefault), if nothing else in the body
        depends on whether a pass is the first one"""
        cand = {}
        if first is None or self.in_settle:
            return {}, ()
        for kind, k in carried:
            if kind != 's' or k[1].startswith('$'):
                continue
            v = first.store.get(k)
            if v is None or v is MISSING or self.depends(v, idxs) or \
                    self.depends(k[0], idxs) or carried[kind, k].op != 'mu':
                continue
            cand[kind, k] = v
        if not cand:
            return {}, ()

        counters = self.nfresh, self.nmu

        def trial(vals):
            s = st0.copy(pc=pc_in)
            for (kind, k), mu in carried.items():
                if (kind, k) not in cand:
                    (s.vars if kind == 'v' else s.store)[k] = mu
            s.store.update(keysets)
            for (kind, k), v in vals.items():
                s.store[k] = v
            saved, self.events = self.events, []
            self.record = True
            seq = self.seqno
            self.nfresh, self.nmu = counters
            try:
                end, brks, rets, sunk = self._run_body(s, doms, body)
                return end, self.events, brks, rets
            finally:
                self.seqno = seq if not vals else self.seqno
                self.events = saved
                self.record = False
        self.in_settle += 1
        try:
            a, ea, b1, r1 = trial({})
            b, eb, b2, r2 = trial(cand)
        finally:
            self.in_settle -= 1
        if a is None or b is None or b1 or b2 or r1 or r2:
            return {}, ()
        own = {k for kind, k in cand}
        for k in own:
            if a.store.get(k) is not cand['s', k] or \
                    b.store.get(k) is not cand['s', k]:
                return {}, ()
        for k in set(a.store) | set(b.store):
            if a.store.get(k) is not b.store.get(k):
                return {}, ()
        for k in set(a.vars) | set(b.vars):
            if a.vars.get(k) is not b.vars.get(k):
                return {}, ()
        if a.pc != b.pc:
            return {}, ()

        def key(e):
            return (e.kind, e.name, e.fn, e.recv, e.args, e.kw, e.value,
                    e.pc, e.sv)

        def other(es):
            return [key(e) for e in es if not (
                e.kind in ('store', 'delete') and
                (e.recv, e.name) in own)]
        if other(ea) != other(eb):
            return {}, ()
        return cand, ea

    def depends(self, t, idxs):
        if isinstance(t, int):
            return any(x in idxs for x in self.node_terms(t))
        for x in tm.subterms(t):
            if x in idxs:
                return True
            if x.op in ('phi',):
                for c, y in x.args[0]:
                    if any(z in idxs for z in self.node_terms(c)):
                        return True
            elif x.op in ('b', 'pos', 'opt', 'each', 'count', 'first'):
                for y in x.args:
                    if isinstance(y, int) and y > 1 and x.op != 'ref' and \
                            any(z in idxs for z in self.node_terms(y)):
                        return True
        return False

    def stopped(self, doms, cond, pc_in, result, idxs):
        """an earlier element has left the loop"""
        bd = self.bdd
        leave = [x.pc for x in result[2]] + [x.pc for x, v in result[3]]
        if not leave or len(doms) != 1:
            return FALSE
        x = bd.or_(*[bd.and_(cond, bd.restrict(
            pc, bd.and_(pc_in, bd.axioms))) for pc in leave])
        for t in self.node_terms(x):
            if t.op in ('mu', 'loopval', 'carried', 'unk'):
                return FALSE
        b = T('before', doms[0])
        to = {i: T('idx', b, i.args[1]) for i in idxs}
        x = self.subst_node(x, lambda t: to.get(t), {}, {})
        return self.anyof((b,), x)

    def generic_loop(self, doms, cond, body, brk, while_=None):
        bd = self.bdd
        st0 = self.st
        idxs = set()
        for d in doms:
            k = sum(1 for l in self.loops if l.dom is d)
            idxs.add(T('idx', d, k))
        pc_in = bd.and_(st0.pc, cond)
        if not self.feasible(pc_in):
            return
        carried = {}
        acc = {}
        rec = self.record
        pend = self.loopmut
        self.loopmut = dict(pend)
        fid = self.frames[-1].id
        result = None
        keysets = {}
        for it in range(6):
            s = st0.copy(pc=pc_in)
            for (kind, k), mu in carried.items():
                (s.vars if kind == 'v' else s.store)[k] = mu
            s.store.update(keysets)
            start_v, start_s = dict(s.vars), dict(s.store)
            self.record = False
            save = (self.nfresh,)
            end, brks, rets, sunk = self._run_body(s, doms, body)
            new = {}
            ends = [x for x in [end] + brks if x is not None]
            if it == 0:
                first = end if end is not None and not brks and \
                    not rets else None
            for e in ends:
                for k, v in e.vars.items():
                    o = start_v.get(k)
                    if o is not None and v is not o and \
                            ('v', k) not in carried and o is not UNBOUND:
                        new[('v', k)] = o
                for k, v in e.store.items():
                    if ('s', k) in carried:
                        continue
                    o = start_s.get(k)
                    if v is o:
                        continue
                    base, name = k
                    if name == '$keys' and o is not None:
                        u = self.key_union([o, v])
                        if len(u.args) > len(o.args):
                            new[('k', k)] = u
                        continue
                    if o is None and base.op == 'ref' and not any(
                            b is base for b, n in start_s):
                        continue          # allocated in the body
                    if o is None and base.op == 'new' and \
                            base.args[0] > save[0]:
                        continue
                    if self.depends(base, idxs):
                        self.loopmut[k] = True
                        continue          # element-wise
                    if name in ('$seq', '$dyn') and o is not None:
                        pass
                    elif name == '$dyn' and base.op == 'ref':
                        o = T('seq')
                    elif o is None:
                        o = self.default_read(st0, base, name)
                    new[('s', k)] = o
            if not new:
                result = (s, end, brks, rets, sunk)
                break
            for key, o in new.items():
                kind, k = key
                if kind == 'k':
                    keysets[k] = self.key_union([keysets.get(k), o])
                    continue
                self.nmu += 1
                if kind == 's' and k[1] in ('$seq', '$dyn') and \
                        o.op == 'seq':
                    mu = T('seq', T('rest', T('mu', doms, self.nmu)))
                else:
                    mu = T('mu', doms, self.nmu)
                self.mulabel[self.nmu] = self.mu_name(k)
                if mu.op == 'mu':
                    t = self.typeof(o)
                    if t:
                        self.types[mu] = t
                    if kind == 'v' and o.op == 'ref':
                        # rebinding of an object variable
                        pass
                carried[key] = mu
        counters = self.nfresh, self.nmu
        settled, events = self.settle(st0, pc_in, carried, keysets, first,
                                      doms, body, idxs)
        for k in settled:
            del carried[k]
        self.record = rec
        stop, stay, before = FALSE, cond, cond
        if settled:
            s = st0.copy(pc=pc_in)
            for (kind, k), mu in carried.items():
                (s.vars if kind == 'v' else s.store)[k] = mu
            s.store.update(keysets)
            for (kind, k), v in settled.items():
                (s.vars if kind == 'v' else s.store)[k] = v
            self.record = False
            self.nfresh, self.nmu = counters
            result = (s,) + self._run_body(s, doms, body)
            self.record = rec
            if rec:
                self.events += events
        else:
            if result is not None and while_ is None:
                stop = self.stopped(doms, cond, pc_in, result, idxs)
            if rec or result is None or stop != FALSE:
                s = st0.copy(pc=bd.and_(pc_in, bd.neg(stop)))
                for (kind, k), mu in carried.items():
                    (s.vars if kind == 'v' else s.store)[k] = mu
                s.store.update(keysets)
                result = (s,) + self._run_body(s, doms, body)
                if stop != FALSE:
                    # leaving the loop: the first element to do so
                    own = set(self.bdd.support(stop)) - set(
                        self.bdd.support(pc_in))
                    gone = FALSE
                    for x in result[2] + [x for x, v in result[3]]:
                        x.pc = bd.and_(bd.exists(
                            x.pc, lambda a: a in own), pc_in)
                        gone = bd.or_(gone, bd.restrict(
                            x.pc, bd.and_(pc_in, bd.axioms)))
                    before = bd.and_(cond, bd.neg(stop))
                    stay = bd.and_(before, bd.neg(gone))
        self.loopmut = pend
        s, end, brks, rets, sunk = result
        out = st0.copy()
        base_pc = pc_in

        def rel(pc):
            return bd.restrict(pc, bd.and_(base_pc, bd.axioms)) \
                if base_pc != FALSE else pc
        # --- values after the loop
        if end is not None:
            got = bd.and_(cond, rel(end.pc)) if cond != TRUE else \
                rel(end.pc)
            for (kind, k), mu in carried.items():
                nxt = (end.vars if kind == 'v' else end.store).get(k)
                init = (st0.vars if kind == 'v' else st0.store).get(k)
                if mu.op == 'mu' and nxt is not None and init is not None:
                    self.mudef[mu.args[1]] = (init, nxt)
            for (kind, k), mu in carried.items():
                src = end.vars if kind == 'v' else end.store
                nxt = src.get(k)
                init = (st0.vars if kind == 'v' else st0.store).get(k)
                if init is None and kind == 's' and k[1] == '$dyn':
                    init = T('seq')
                if init is None:
                    init = self.default_read(st0, *k)
                if nxt is None:
                    continue
                m0 = mu.args[0].args[0] if mu.op == 'seq' else mu
                self.mudef[m0.args[1]] = (init, nxt)
                cv = stay
                left = [(x.vars if kind == 'v' else x.store).get(k)
                        for x in brks + [x for x, v in rets]]
                if stop != FALSE and all(x is nxt for x in left):
                    cv = before
                val = self.close_loop(doms, cv, mu, init, nxt, idxs, k)
                (out.vars if kind == 'v' else out.store)[k] = val
            for (kind, k), v in settled.items():
                src = st0.vars if kind == 'v' else st0.store
                c = self.anyof(doms, got)
                init = src[k] if k in src else self.default_read(st0, *k)
                (out.vars if kind == 'v' else out.store)[k] = \
                    self.merge_val(k, [(c, v), (bd.neg(c), init)]) \
                    if kind == 's' else self.phi([(c, v), (bd.neg(c), init)])
            for k, v in end.vars.items():
                if ('v', k) in carried or st0.vars.get(k) is v or \
                        ('v', k) in settled:
                    continue
                init = st0.vars.get(k)
                out.vars[k] = self.last_value(doms, stay, v, init, idxs)
            for k, v in end.store.items():
                if ('s', k) in carried or ('s', k) in settled:
                    continue
                o = st0.store.get(k)
                if o is v:
                    continue
                if o is None:
                    if k[0].op == 'ref' and not any(
                            b is k[0] for b, n in st0.store):
                        out.store[k] = v
                        continue
                    o = self.default_read(st0, *k)
                    if o is MISSING:
                        out.store[k] = v
                        continue
                c = got
                if c == TRUE:
                    out.store[k] = v
                else:
                    out.store[k] = self.merge_val(
                        k, [(c, v), (bd.neg(c), o)])
        # --- control leaving the loop
        leave = FALSE
        f = self.frames[-1]

        def exit_pc(pc):
            return self.anyof(doms, bd.and_(cond, rel(pc)))
        for st in brks:
            a = exit_pc(st.pc)
            leave = bd.or_(leave, a)
            o2 = out.copy(pc=bd.and_(st0.pc, a))
            for k, v in st.vars.items():
                if out.vars.get(k) is v or st0.vars.get(k) is v or \
                        carried.get(('v', k)) is v:
                    continue
                o2.vars[k] = self.first_value(doms, st.pc, rel, cond, v,
                                              idxs)
            for k, v in st.store.items():
                if st0.store.get(k) is not v and k not in out.store:
                    o2.store[k] = v
            brk.append(o2)
        for st, v in rets:
            a = exit_pc(st.pc)
            leave = bd.or_(leave, a)
            o2 = st.copy(pc=bd.and_(st0.pc, a))
            f.returns.append((o2, self.first_value(doms, st.pc, rel, cond,
                                                   v, idxs)))
        # what the elements before the one which failed left behind
        left = {}
        if end is not None:
            for k, v in end.store.items():
                if st0.store.get(k) is v or ('s', k) in carried:
                    continue
                if self.depends(k[0], idxs):
                    left[k] = v
        early = bd.var(T('earlier', doms)) if left else TRUE
        for sk, states in zip(self.sinks, sunk):
            for st, exc in states:
                a = exit_pc(st.pc)
                st2 = st.copy(pc=bd.and_(st0.pc, a))
                for k, v in left.items():
                    o = st.store.get(k)
                    if o is None:
                        o = self.default_read(st, *k)
                    if o is v or o is MISSING:
                        continue
                    st2.store[k] = self.phi([(early, v),
                                             (bd.neg(early), o)])
                sk['states'].append((st2, exc))
        if while_ is None:
            okpc = end.pc if end is not None else FALSE
            died = bd.and_(base_pc, bd.neg(okpc), bd.neg(stop))
            for st in brks:
                died = bd.and_(died, bd.neg(st.pc))
            for st, v in rets:
                died = bd.and_(died, bd.neg(st.pc))
            if self.feasible(died):
                d = rel(died)
                d = bd.exists(d, lambda a: a.op in ('raises', 'excis') and
                              not self.kept(a, self.keepfail))
                if d != TRUE:
                    leave = bd.or_(leave, self.anyof(
                        doms, bd.and_(cond, d)))
        out.pc = bd.and_(st0.pc, bd.neg(leave))
        if rets or brks:
            out.pc = bd.and_(st0.pc, bd.neg(leave))
        self.st = out if self.feasible(out.pc) else None
        self.last_loop = (doms, carried, end)

    keepfail = ()

    def kept(self, a, patterns):
        """condition on the failure of one of these calls"""
        if not patterns:
            return False
        t = a.args[0]
        if t.op == 'exc':
            t = t.args[0]
        name = tm.show(t.args[0]) if t.op == 'call' else \
            '.' + str(t.args[1]) if t.op == 'mcall' else t.op
        return any(fnmatch.fnmatch(name, k) for k in patterns)

    def mu_name(self, k):
        # stable label of a loop-carried location
        return str(k[1])

    def first_value(self, doms, pc, rel, cond, v, idxs):
        sv = v
        if not self.depends(sv, idxs):
            return v
        return T('first', doms, self.bdd.and_(cond, rel(pc)), v)

    def last_value(self, doms, cond, v, init, idxs):
        if v.op in ('func', 'cls', 'ext', 'mod'):
            return v
        if not self.depends(v, idxs):
            r = v
        else:
            r = T('last', doms, cond, v) if v.op not in ('ref', 'new') else v
            t = self.typeof(v)
            if t:
                self.types[r] = t
        if init is None or init is UNBOUND:
            return r
        ne = self.anyof(doms, cond)
        return self.phi([(ne, r), (self.bdd.neg(ne), init)])

    def exclusive(self, segs, cond):
        """elements of which one round of a loop adds at most one"""
        bd = self.bdd
        if len(segs) < 2 or not all(x.op == 'opt' for x in segs):
            return segs
        seen = FALSE
        for x in segs:
            if self.feasible(bd.and_(cond, seen, x.args[0])):
                return segs
            seen = bd.or_(seen, x.args[0])
        if any(not isinstance(x.args[1], tm.Term) for x in segs):
            return segs
        v = self.phi([(x.args[0], x.args[1]) for x in segs])
        if not self.feasible(bd.and_(cond, bd.neg(seen))):
            return (T('one', v),)
        return (T('opt', seen, v),)

    def close_loop(self, doms, cond, mu, init, nxt, idxs, k):
        """value of a loop-carried location after the loop"""
        bd = self.bdd
        if isinstance(k[1], str) and k[1] in ('$seq', '$dyn') and \
                init.op == 'seq':
            if nxt.op == 'seq' and nxt.args and nxt.args[0] is mu.args[0]:
                out = list(init.args)
                for seg in self.exclusive(nxt.args[1:], cond):
                    if seg.op == 'one':
                        out.append(T('each', doms, cond, seg.args[0]))
                    elif seg.op == 'opt':
                        out.append(T('each', doms, bd.and_(cond,
                                                           seg.args[0]),
                                     seg.args[1]))
                    elif seg.op == 'each':
                        out.append(T('each', doms + seg.args[0],
                                     bd.and_(cond, seg.args[1]),
                                     seg.args[2]))
                    else:
                        out.append(T('rest', T('loopseg', doms, seg)))
                return T('seq', *out)
            if nxt.op == 'seq' and nxt.args and \
                    nxt.args[-1] is mu.args[0] and all(
                        x.op in ('one', 'opt') for x in nxt.args[:-1]):
                # each element is put in front of the earlier ones
                segs = [T('each', doms, cond, x.args[0]) if x.op == 'one'
                        else T('each', doms, bd.and_(cond, x.args[0]),
                               x.args[1]) for x in reversed(nxt.args[:-1])]
                return T('seq', *([T('rest', T('reversed', T(
                    'list', *segs)))] + list(init.args)))
            return T('seq', T('rest', T('loopval', doms, init, nxt)))
        if nxt is mu:
            return init
        muset = {mu}

        def has_mu(t):
            return self.depends(t, muset)
        # running sum
        if nxt.op != 'phi':
            d = sub(nxt, mu) if nxt.op in ('poly',) else None
            if d is not None and not has_mu(d):
                return add(init, self.sum_term(doms, cond, d))
        else:
            alts = nxt.args[0]
            ds, ok = [], True
            for c, x in alts:
                if self.depends(c, muset):
                    ok = False
                    break
                if x is mu:
                    ds.append((c, const(0)))
                elif x.op == 'poly' and not has_mu(sub(x, mu)):
                    ds.append((c, sub(x, mu)))
                else:
                    ok = False
                    break
            if ok and ds:
                tot = init
                for c, d in ds:
                    if d is not const(0):
                        tot = add(tot, self.sum_term(
                            doms, bd.and_(cond, c), d))
                return tot
            # flag / last assignment under a condition
            own = [(c, x) for c, x in alts if x is not mu]
            if len(own) == 1 and len(alts) == 2 and \
                    not self.depends(own[0][0], muset) and \
                    not has_mu(own[0][1]):
                c, x = own[0]
                c = bd.and_(cond, c)
                if not self.depends(x, idxs):
                    a = self.anyof(doms, c)
                    return self.phi([(a, x), (bd.neg(a), init)])
                a = self.anyof(doms, c)
                return self.phi([(a, T('last', doms, c, x)),
                                 (bd.neg(a), init)])
        # running maximum / minimum
        m = self.minmax_step(mu, nxt)
        if m is not None:
            kind, e, when = m
            if not has_mu(e):
                return T('run' + kind, init, doms, bd.and_(cond, when),
                         self.strip(e))
        if nxt.op == 'b':
            # flag: mu or c
            n = nxt.args[0]
            am = self.atom(T('truthy', mu)) if False else self.truth(mu)
            c1 = bd.assign(n, lambda a: False
                           if a.op == 'truthy' and a.args[0] is mu else None)
            c2 = bd.assign(n, lambda a: True
                           if a.op == 'truthy' and a.args[0] is mu else None)
            if c2 == TRUE and not self.depends(c1, muset):
                return self.mkb(bd.or_(self.truth(init), self.anyof(
                    doms, bd.and_(cond, c1))))
        if not has_mu(nxt):
            # one more than another counter
            if nxt.op in ('poly', 'mu') and cond == TRUE:
                for x in tm.subterms(nxt):
                    if x.op != 'mu' or x.args[0] != doms or \
                            x.args[1] not in self.mudef:
                        continue
                    c = sub(nxt, x)
                    a, y = self.mudef[x.args[1]]
                    d = sub(y, x)
                    if is_num(c) and is_num(d) and \
                            init is add(a, sub(c, d)):
                        return add(init, self.sum_term(doms, cond, d))
            return self.last_value(doms, cond, nxt, init, idxs)
        return T('loopval', doms, init, self.subst(
            nxt, lambda t: T('self') if t is mu else None))

    def minmax_step(self, mu, nxt):
        if nxt.op in ('max2', 'min2') and mu in nxt.args and \
                len(nxt.args) == 2:
            e = [x for x in nxt.args if x is not mu]
            if len(e) == 1:
                return nxt.op[:3], e[0], TRUE
        if nxt.op == 'phi' and len(nxt.args[0]) == 2:
            alts = nxt.args[0]
            e = [(c, x) for c, x in alts if x is not mu]
            if len(e) == 1 and any(x is mu for c, x in alts):
                c, x = e[0]
                bd = self.bdd
                px = self.strip(x)
                if bd.equivalent(c, self.lt(mu, px)) or \
                        bd.equivalent(c, self.le(mu, px)):
                    return 'max', x, TRUE
                if bd.equivalent(c, self.lt(px, mu)) or \
                        bd.equivalent(c, self.le(px, mu)):
                    return 'min', x, TRUE
        if nxt.op == 'phi' and len(nxt.args[0]) > 2 and any(
                x is mu for c, x in nxt.args[0]):
            # the candidate itself is one of several, by a condition which
            # the loop does not touch
            bd = self.bdd
            own = [(c, x, self.strip(x)) for c, x in nxt.args[0]
                   if x is not mu]
            for kind, less in (('max', lambda p: self.lt(mu, p)),
                               ('max', lambda p: self.le(mu, p)),
                               ('min', lambda p: self.lt(p, mu)),
                               ('min', lambda p: self.le(p, mu))):
                gates, seen = [], FALSE
                for c, x, p in own:
                    m = less(p)
                    at = set(bd.support(m))
                    pos = bd.assign(m, lambda a: True if a in at else None)
                    g = bd.assign(c, lambda a: (pos == TRUE)
                                  if a in at else None)
                    if len(at) != 1 or self.depends(g, {mu}) or \
                            not bd.equivalent(c, bd.and_(g, m)):
                        gates = None
                        break
                    gates.append((g, x))
                    seen = bd.or_(seen, g)
                if gates:
                    return kind, self.phi(gates), seen
        return None

    def sum_term(self, doms, cond, d):
        c, b = tm.linear_coeff(d)
        d = self.strip(d)
        c, b = tm.linear_coeff(d)
        if is_num(d):
            n = T('count', doms, cond) if cond != TRUE or len(doms) > 1 \
                else self.len_term(doms[0])
            return mul(d, n)
        return mul(const(c), T('sum', doms, cond, b))

    def guarded(self, s):
        """while a: if b: break; ...   ->   while a and not b: ..."""
        test, body = s.test, s.body
        while len(body) > 1 and isinstance(body[0], ast.If) and \
                not body[0].orelse and len(body[0].body) == 1 and \
                isinstance(body[0].body[0], ast.Break):
            no = ast.copy_location(ast.UnaryOp(ast.Not(), body[0].test),
                                   body[0])
            test = no if is_const_true(test) else ast.copy_location(
                ast.BoolOp(ast.And(), [test, no]), test)
            body = body[1:]
        if body is s.body or s.orelse:
            return s
        return ast.copy_location(ast.While(test, body, []), s)

    def counted(self, s):
        """for i in range(n): if b: break; ...  with b about what the loop
        computes, as a while loop"""
        if s.orelse or not isinstance(s.target, ast.Name) or \
                len(s.body) < 2 or not isinstance(s.iter, ast.Call) or \
                not isinstance(s.iter.func, ast.Name) or \
                s.iter.func.id != 'range' or s.iter.keywords or \
                len(s.iter.args) != 1 or \
                isinstance(s.iter.args[0], ast.Starred):
            return None
        g = s.body[0]
        if not (isinstance(g, ast.If) and not g.orelse and
                len(g.body) == 1 and isinstance(g.body[0], ast.Break)):
            return None
        read = {n.id for n in ast.walk(g.test) if isinstance(n, ast.Name)}
        wrote = {n.id for b in s.body for n in ast.walk(b)
                 if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if s.target.id in read | wrote or not read & wrote or any(
                isinstance(n, ast.Continue)
                for b in s.body for n in ast.walk(b)):
            return None
        k, n = '$k%d' % s.lineno, '$n%d' % s.lineno

        def name(x, ctx=ast.Load):
            return ast.Name(x, ctx())

        src = [
            ast.Assign([name(k, ast.Store)], ast.Constant(0)),
            ast.Assign([name(n, ast.Store)], s.iter.args[0]),
            ast.While(
                ast.Compare(name(k), [ast.Lt()], [name(n)]),
                [g, ast.Assign([name(s.target.id, ast.Store)], name(k))] +
                s.body[1:] +
                [ast.Assign([name(k, ast.Store)], ast.BinOp(
                    name(k), ast.Add(), ast.Constant(1)))], [])]
        for x in src:
            ast.copy_location(x, s)
            ast.fix_missing_locations(x)
        return src

    def x_While(self, s):
        s = self.guarded(s)
        st0 = self.st
        self.while_uid = getattr(self, 'while_uid', 0)
        uid = (self.module.rel if self.module else '', s.lineno)
        self.nmu += 1
        dom = T('while', self.nmu)
        info = {}

        def body():
            c = self.cond(s.test)
            info['cond'] = c
            info['pre'] = self.st.copy()
            self.st.pc = self.bdd.and_(self.st.pc, c)
            if not self.feasible(self.st.pc):
                self.st = None
                return
            self.exec_block(s.body)
        # recognise counting loops
        if self.try_counting(s, dom):
            return
        brk = []
        nret = len(self.frames[-1].returns)
        self.generic_loop((dom,), TRUE, body, brk, while_=True)
        doms, carried, end = self.last_loop
        self.whiledef[dom.args[0]] = info.get('cond', TRUE)
        self.ev('while', st0, name=uid, value=self.mkb(info.get('cond',
                                                                TRUE)),
                args=tuple((mu, end.vars.get(k[1]) if k[0] == 'v' else
                            end.store.get(k[1]))
                           for k, mu in carried.items())
                if end is not None else (),
                kw=tuple((mu, st0.vars.get(k[1]) if k[0] == 'v' else
                          st0.store.get(k[1]))
                         for k, mu in carried.items()), node=s)
        if self.st is None and not brk and \
                len(self.frames[-1].returns) == nret:
            # the test decides when the loop ends
            self.st = st0
        elif self.st is not None and is_const_true(s.test):
            self.st = None
        if brk:
            self.st = self.merge([self.st] + brk)

    def try_counting(self, s, dom):
        """while i < n: ...; i += 1   ->   for i in range(i0, n)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
                isinstance(t.ops[0], (ast.Lt, ast.Gt, ast.NotEq))):
            return False
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        if not isinstance(l, ast.Name):
            return False
        last = s.body[-1] if s.body else None
        ok = (isinstance(last, ast.AugAssign) and
              isinstance(last.op, ast.Add) and
              isinstance(last.target, ast.Name) and
              last.target.id == l.id and
              isinstance(last.value, ast.Constant) and last.value.value == 1)
        if not ok and isinstance(last, ast.Assign) and len(last.targets) == 1:
            ok = (isinstance(last.targets[0], ast.Name) and
                  last.targets[0].id == l.id and
                  ast.unparse(last.value).replace(' ', '') in
                  (l.id + '+1', '1+' + l.id))
        if not ok:
            return False
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id == l.id and \
                        isinstance(n.ctx, ast.Store):
                    return False
                if isinstance(n, ast.Return):
                    return False
        if leaves_loop(s.body):
            return False
        # the bound must not change in the loop
        names = {n.id for n in ast.walk(r) if isinstance(n, ast.Name)}
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id in names and \
                        isinstance(n.ctx, ast.Store):
                    return False
        init = self.get_var(l.id)
        bound = self.eval(r)
        rng = self.b_range([init, bound], [])

        def body(elem):
            self.set_var(l.id, elem)
            self.exec_block(s.body[:-1])
        self.loop_over(rng, body, s.orelse)
        if self.st is not None:
            self.set_var(l.id, self.deref(bound))
        return True


class _Final(ast.stmt):
    """pseudo statement used for context managers"""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.lineno = 0


def leaves_loop(body, how=(ast.Break, ast.Continue)):
    """is there a break or continue of this very loop"""
    for s in body:
        if isinstance(s, how):
            return True
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            continue
        inner = isinstance(s, (ast.For, ast.While, ast.AsyncFor))
        for f in ('body', 'orelse', 'finalbody'):
            if not (inner and f == 'body') and leaves_loop(
                    getattr(s, f, None) or [], how):
                return True
        if any(leaves_loop(h.body, how) for h in getattr(s, 'handlers', ())):
            return True
        if any(leaves_loop(c.body, how) for c in getattr(s, 'cases', ())):
            return True
    return False


def is_const_true(t):
    return isinstance(t, ast.Constant) and bool(t.value)
