"""Hash-consed value terms with an algebraic normal form."""
from fractions import Fraction


class Term:
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __repr__(self):
        return show(self)

    # identity semantics: terms are interned
    def __lt__(self, other):
        return self.id < other.id


_table = {}


def T(op, *args):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_table)
        _table[key] = t
    return t


# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, Fraction):
        v = int(v) if v.denominator == 1 else float(v)
    if isinstance(v, tuple):
        return T('tuple', *[const(x) for x in v])
    return T('const', type(v).__name__, v)


NONE = const(None)
TRUE_ = const(True)
FALSE_ = const(False)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


def is_num(t):
    return t.op == 'const' and t.args[0] in ('int', 'float')


def is_str(t):
    return t.op == 'const' and t.args[0] == 'str'


def pyval(t):
    """Python value of a fully constant term, else raise ValueError."""
    if t.op == 'const':
        return t.args[1]
    if t.op == 'tuple':
        return tuple(pyval(x) for x in t.args)
    if t.op == 'seq':
        return [pyval(x) for x in seq_items(t)]
    raise ValueError(t.op)


def all_const(t):
    try:
        pyval(t)
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------ algebra
def frac(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return Fraction(v)
    if v != v or v in (float('inf'), float('-inf')):
        return None
    return Fraction(repr(v))


def topoly(t):
    if t.op == 'const' and t.args[0] in ('int', 'float', 'bool'):
        f = frac(t.args[1])
        if f is not None:
            return {(): f} if f else {}
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'pow' and isinstance(t.args[1], Fraction):
        return {((t.args[0], t.args[1]),): Fraction(1)}
    return {((t, Fraction(1)),): Fraction(1)}


def _monkey(m):
    return tuple((a.id, e) for a, e in m)


def frompoly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1:
            a, e = m[0]
            if e == 1:
                return a
            return T('pow', a, e)
    return T('poly', *sorted(d.items(), key=lambda kv: _monkey(kv[0])))


def p_add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
    return {m: c for m, c in r.items() if c}


def m_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    extra = None
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'poly' and e.denominator == 1 and 0 < e <= 4:
            x = topoly(a)
            for _ in range(int(e)):
                extra = x if extra is None else p_mul(extra, x)
            continue
        out.append((a, e))
    return tuple(sorted(out, key=lambda ae: ae[0].id)), extra


def p_mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            mm, extra = m_mul(m, n)
            if extra is None:
                r[mm] = r.get(mm, 0) + c * d
            else:
                for k, v in p_mul({mm: c * d}, extra).items():
                    r[k] = r.get(k, 0) + v
    return {m: c for m, c in r.items() if c}


def p_content(p):
    """leading coefficient in canonical order"""
    m = min(p, key=_monkey)
    return p[m]


def p_inv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    c = p_content(p)
    prim = frompoly({m: v / c for m, v in p.items()})
    return {((prim, Fraction(-1)),): 1 / c}


def add(a, b):
    return frompoly(p_add(topoly(a), topoly(b)))


def sub(a, b):
    return frompoly(p_add(topoly(a), topoly(b), -1))


def neg(a):
    return frompoly({m: -c for m, c in topoly(a).items()})


MAXT = 40


def mul(a, b):
    p, q = topoly(a), topoly(b)
    if len(p) * len(q) > MAXT * 4:
        if b.id < a.id:
            a, b = b, a
        return T('bigmul', a, b)
    return frompoly(p_mul(p, q))


def div(a, b):
    q = topoly(b)
    if not q:
        return T('divzero', a)
    return mul(a, frompoly(p_inv(q)))


def power(a, b):
    if is_num(b):
        e = frac(cval(b))
        if e is None:
            return T('powt', a, b)
        p = topoly(a)
        if e == 0:
            return const(1)
        if e.denominator == 1:
            n = int(e)
            if n > 0 and (len(p) == 1 or n <= 4):
                r = {(): Fraction(1)}
                for _ in range(n):
                    r = p_mul(r, p)
                return frompoly(r)
            if n < 0 and p:
                return frompoly(p_inv(topoly(power(a, const(-n)))))
            return T('powt', a, b)
        if len(p) == 1 and p and list(p.values())[0] == 1:
            (m, _), = p.items()
            if len(m) == 1 and (m[0][1] == 1):
                return T('pow', m[0][0], e)
        if p == {(): Fraction(1)}:
            return const(1)
        return T('pow', a, e)
    return T('powt', a, b)


def linear_coeff(t):
    """(coefficient, base term) if t is coeff*base with a numeric coeff"""
    p = topoly(t)
    if len(p) == 1:
        (m, c), = p.items()
        return c, frompoly({m: Fraction(1)})
    return Fraction(1), t


# ------------------------------------------------------------------ helpers
def seq_items(t):
    """elements of a 'seq' term with only plain segments"""
    out = []
    for s in t.args:
        if s.op != 'one':
            raise ValueError('open sequence')
        out.append(s.args[0])
    return out


def subterms(t, seen=None):
    """all Terms reachable from t"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return seen


def contains(t, x):
    return x in subterms(t)


def rebuild(t, fn, memo=None):
    """Bottom-up rewriting.  fn(term) -> replacement or None, applied to the
    original term first (top-down stop) and arithmetic is re-normalised."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = fn(t)
    if r is None:
        if t.op == 'poly':
            r = const(0)
            for m, c in t.args:
                x = const(c)
                for a, e in m:
                    x = mul(x, power(rebuild(a, fn, memo), const(e)))
                r = add(r, x)
        elif t.op == 'pow':
            r = power(rebuild(t.args[0], fn, memo), const(t.args[1]))
        else:
            r = T(t.op, *[_rb(a, fn, memo) for a in t.args])
    memo[t] = r
    return r


def _rb(a, fn, memo):
    if isinstance(a, Term):
        return rebuild(a, fn, memo)
    if isinstance(a, tuple):
        return tuple(_rb(x, fn, memo) for x in a)
    return a


def show(t, depth=7):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth <= 0:
        return '...'
    d = depth - 1
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[1])
    if o == 'sym':
        return a[0]
    if o == 'fld':
        return '%s.%s' % (show(a[0], d), a[1])
    if o == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'idx':
        return '#' + (show(a[0], 2) if isinstance(a[0], Term) else str(a[0]))
    if o == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in a)
    if o == 'poly':
        out = []
        for m, c in a:
            fs = [show(x, d) if e == 1 else '%s^%s' % (show(x, d), e)
                  for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if o == 'pow':
        return '%s^%s' % (show(a[0], d), a[1])
    if o == 'call':
        return '%s(%s)' % (show(a[0], d), ', '.join(
            [show(x, d) for x in a[1]] +
            ['%s=%s' % (k, show(v, d)) for k, v in a[2]]))
    if o == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d), a[1], ', '.join(
            [show(x, d) for x in a[2]] +
            ['%s=%s' % (k, show(v, d)) for k, v in a[3]]))
    if o == 'ext':
        return a[0]
    if o in ('tuple', 'seq'):
        return ('(%s)' if o == 'tuple' else '[%s]') % ', '.join(
            show(x, d) for x in a)
    if o == 'one':
        return show(a[0], d)
    if o == 'phi':
        return 'phi{%s}' % ' / '.join(show(v, d) for _, v in a[0])
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
