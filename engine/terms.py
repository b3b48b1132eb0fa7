"""Value-number terms: hash-consed symbolic names for run-time values, with integer/real arithmetic kept in
polynomial normal form, so that two program expressions that denote the same value get the same number."""
from fractions import Fraction


class T:
    __slots__ = ('op', 'args', 'id', '_syms', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_cnt = [0]


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _cnt[0] += 1
        t.id = _cnt[0]
        t._syms = None
        t._h = None
        _tab[k] = t
    return t


TRUE = mk('true')
FALSE = mk('false')
UNK_COUNT = [0]


def unk(why=''):
    UNK_COUNT[0] += 1
    return mk('unk', why, UNK_COUNT[0])


def num(c):
    return mk('num', Fraction(c))


ZERO = num(0)
ONE = num(1)


# ------------------------------------------------------------------ polynomials
# dict: monomial -> Fraction ; monomial = tuple of (atom, exponent) sorted by atom id
def pdict(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def from_pdict(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return mk('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('poly', tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    if len(d) == 2 and () in d:
        # a constant added to a choice between constants
        (m, c), = ((m, c) for m, c in d.items() if m)
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite':
            i = m[0][0]
            if i.args[1].op == 'num' and i.args[2].op == 'num' and d[()] != 0:
                return ite(i.args[0], num(i.args[1].args[0] * c + d[()]), num(i.args[2].args[0] * c + d[()]))
    return from_pdict(d)


def scale(t, k):
    k = Fraction(k)
    return from_pdict({m: c * k for m, c in pdict(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def mul(a, b):
    if a.op == 'ite' and b.op == 'num':
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == 'ite' and a.op == 'num':
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    pa, pb = pdict(a), pdict(b)
    if len(pa) * len(pb) > 400:
        return mk('bigmul', *sorted((a, b)))
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return from_pdict(d)


def inv(b):
    p = pdict(b)
    if len(p) == 1:
        (m, c), = p.items()
        return from_pdict({tuple((a, -e) for a, e in m): 1 / c})
    if not p:
        return mk('inf')
    # normalise leading coefficient so that 1/(2a+2b) == (1/2)/(a+b)
    lead = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[0][1]
    b2 = scale(b, 1 / lead)
    return from_pdict({((b2, -1),): 1 / lead})


def fdiv(a, b):
    return mul(a, inv(b))


def idiv(a, b):
    if b.op == 'num' and b.args[0] == 1:
        return a
    if a.op == 'num' and b.op == 'num' and b.args[0]:
        return num(int(a.args[0] / b.args[0]) if a.args[0] >= 0 else -int(-a.args[0] / b.args[0]))
    return mk('idiv', a, b)


def imod(a, b):
    if b.op == 'num' and b.args[0] == 1:
        return ZERO
    if a.op == 'num' and b.op == 'num' and b.args[0]:
        return num(a.args[0] % b.args[0])
    return mk('imod', a, b)


def const(t):
    return t.args[0] if t.op == 'num' else None


def is_const(t):
    return t.op == 'num'


# ------------------------------------------------------------------ booleans
def b_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'ige':  # integer p >= 0  ->  -p-1 >= 0
        return ige(sub(neg(c.args[0]), ONE))
    if c.op == 'and':
        return b_or(*[b_not(x) for x in c.args])
    if c.op == 'or':
        return b_and(*[b_not(x) for x in c.args])
    return mk('not', c)


def ige(p):
    if p.op == 'num':
        return TRUE if p.args[0] >= 0 else FALSE
    # divide by gcd of coefficients of non-constant terms (integers): floor the constant
    d = pdict(p)
    from math import gcd, floor
    cs = [c for m, c in d.items() if m]
    if all(c.denominator == 1 for c in cs):
        g = 0
        for c in cs:
            g = gcd(g, int(abs(c)))
        if g > 1:
            k = d.get((), Fraction(0))
            d = {m: c / g for m, c in d.items() if m}
            d[()] = Fraction(floor(k / g))
            p = from_pdict(d)
    return mk('ige', p)


def b_and(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    s = []
    seen = set()
    for x in out:
        if x in seen:
            continue
        if b_not(x) in seen:
            return FALSE
        seen.add(x)
        s.append(x)
    if len(s) > 1:
        val = {}
        for x in s:
            k = label_of(x)
            if k is not None:
                if val.setdefault(k[0], k[1]) is not k[1]:
                    return FALSE
        if val:
            s = [x for x in s if not (x.op == 'not' and (label_of(x.args[0]) or (None,))[0] in val
                                      and label_of(x.args[0])[1] is not val[label_of(x.args[0])[0]])]
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk('and', *sorted(s))


def label_of(x):
    """(variable, constant) of an equality with a string or enumerator"""
    if x.op != 'eq':
        return None
    a, b = x.args
    if a.op in ('str', 'enumc'):
        return b, a
    if b.op in ('str', 'enumc'):
        return a, b
    return None


def b_or(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    s = []
    seen = set()
    for x in out:
        if x in seen:
            continue
        if b_not(x) in seen:
            return TRUE
        seen.add(x)
        s.append(x)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk('or', *sorted(s))


def is_bool(t):
    return t.op in BOOLS


BOOLS = {'true', 'false', 'not', 'and', 'or', 'ige', 'fgt', 'fge', 'eq', 'all', 'bphi', 'isnan', 'isinf', 'pred'}


def _sign_norm(p):
    d = pdict(p)
    if not d:
        return p
    ks = sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    ks = [k for k in ks if k[0]] or ks
    return neg(p) if ks[0][1] < 0 else p


NONNUM = ('str', 'strcat', 'tab', 'cat', 'list', 'rec', 'ptr', 'lv', 'lm', 'store', 'enumc', 'none', 'some')


def eq(a, b):
    if a is b:
        return TRUE
    if is_bool(a) or is_bool(b):
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return b_not(b)
        if b is FALSE:
            return b_not(a)
        return mk('eq', *sorted((a, b)))
    if a.op in ('str', 'enumc') and b.op == a.op:
        return FALSE
    if a.op == 'ite' and (b.op in ('str', 'enumc', 'num')):
        return b_or(b_and(a.args[0], eq(a.args[1], b)), b_and(b_not(a.args[0]), eq(a.args[2], b)))
    if b.op == 'ite' and (a.op in ('str', 'enumc', 'num')):
        return eq(b, a)
    for x, y in ((a, b), (b, a)):
        if x.op == 'list' and not x.args:
            from cont import size
            return eq(size(y), ZERO)
    for x, y in ((a, b), (b, a)):
        if x.op == 'app' and x.args[0] == 'strcmp' and y is ZERO:
            return eq(x.args[1], x.args[2])
    if a.op in NONNUM or b.op in NONNUM:
        return mk('eq', *sorted((a, b)))
    p = sub(a, b)
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    return mk('eq', _sign_norm(p), ZERO)


def lt(a, b, isint):
    if isint:
        return ige(sub(sub(b, a), ONE))
    p = sub(b, a)
    if p.op == 'num':
        return TRUE if p.args[0] > 0 else FALSE
    return mk('fgt', p)


def le(a, b, isint):
    if isint:
        return ige(sub(b, a))
    p = sub(b, a)
    if p.op == 'num':
        return TRUE if p.args[0] >= 0 else FALSE
    return mk('fge', p)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return b_not(c)
    if is_bool(a) and is_bool(b):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == 'store' and b.op == 'store' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return mk('store', a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    if a.op == b.op and a.op in ('ptr', 'rptr') and a.args[0] is b.args[0]:
        return mk(a.op, a.args[0], ite(c, a.args[1], b.args[1]))
    if a.op == 'tab' and b.op == 'tab' and a.args[0] is b.args[0]:
        # equally long tables: the choice goes to the elements
        v = fresh_var()
        from cont import tab
        return tab(a.args[0], v, ite(c, subst(a.args[2], {a.args[1]: v}), subst(b.args[2], {b.args[1]: v})))
    # push the choice into records so that unchanged fields stay shared
    if a.op == 'rec' or b.op == 'rec':
        ba, fa = (a.args[0], dict(a.args[1])) if a.op == 'rec' else (a, {})
        bb, fb = (b.args[0], dict(b.args[1])) if b.op == 'rec' else (b, {})
        if ba is bb:
            out = {}
            for f in set(fa) | set(fb):
                out[f] = ite(c, fa.get(f) or fld(ba, f), fb.get(f) or fld(bb, f))
            return rec(ba, out)
    return mk('ite', c, a, b)


# ------------------------------------------------------------------ records
def rec(base, fields):
    fs = {f: v for f, v in fields.items() if v is not fld(base, f)}
    if not fs:
        return base
    return mk('rec', base, tuple(sorted(fs.items())))


def fld(b, f):
    if b.op == 'rec':
        d = dict(b.args[1])
        if f in d:
            return d[f]
        return fld(b.args[0], f)
    if b.op == 'ite':
        return ite(b.args[0], fld(b.args[1], f), fld(b.args[2], f))
    if b.op == 'unk':
        return mk('fld', b, f)
    return mk('fld', b, f)


def upd(b, f, v):
    if b.op == 'rec':
        d = dict(b.args[1])
        d[f] = v
        return rec(b.args[0], d)
    return rec(b, {f: v})


# ------------------------------------------------------------------ strings
def s_lit(s):
    return mk('str', s)


def strcat(*parts):
    out = []
    for p in parts:
        ps = p.args if p.op == 'strcat' else (p,)
        for q in ps:
            if q.op == 'str':
                if q.args[0] == '':
                    continue
                if out and out[-1].op == 'str':
                    out[-1] = s_lit(out[-1].args[0] + q.args[0])
                    continue
            out.append(q)
    if not out:
        return s_lit('')
    if len(out) == 1:
        return out[0]
    return mk('strcat', *out)


# ------------------------------------------------------------------ traversal
LEAF = {'fr', 'num', 'str', 'true', 'false', 'nodekey'}
# binder: op -> (position of the bound variable, positions of the bodies in its scope)
BINDERS = {'tab': (1, (2,)), 'lm': (1, (3, 4)), 'sum': (1, (2,)), 'prod': (1, (2,)), 'all': (1, (2,)),
           'sjoin': (1, (2,)), 'cats': (1, (2,)), 'first': (1, (2,)), 'minover': (1, (2,)), 'maxover': (1, (2,)),
           'argmin': (1, (2,)), 'argmax': (1, (2,)), 'sjoinr': (1, (2,))}


def height(t):
    """1 + the largest binder index inside t (bound variables are numbered by height)"""
    if t._h is None:
        h = 0
        for c in children(t):
            x = height(c)
            if x > h:
                h = x
        if t.op in BINDERS:
            h += 1
        t._h = h
    return t._h


FRESH = [0]


def fresh_var():
    FRESH[0] += 1
    return mk('fbv', FRESH[0])


def children(t):
    if t.op in LEAF:
        return
    if t.op == 'poly':
        for m, c in t.args[0]:
            for a, e in m:
                yield a
        return
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tup_children(a)


def _tup_children(tp):
    for a in tp:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tup_children(a)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def syms(t):
    """set of ops-with-identity ('k', 'phi', 'unk', 'bv') atoms inside t (memoised)"""
    if t._syms is None:
        s = set()
        if t.op in ('k', 'phi', 'bphi', 'unk', 'bv', 'fbv', 'exit', 'alt'):
            s.add(t)
        for c in children(t):
            s |= syms(c)
        t._syms = frozenset(s)
    return t._syms


def has_op(t, ops):
    return any(x.op in ops for x in syms(t)) or any(x.op in ops for x in subterms(t))


def rebuild(t, f):
    """apply f to the direct children and rebuild in normal form"""
    op = t.op
    if op == 'poly':
        acc = []
        for m, c in t.args[0]:
            p = num(c)
            for a, e in m:
                a2 = f(a)
                for _ in range(abs(e)):
                    p = mul(p, a2 if e > 0 else inv(a2))
            acc.append(p)
        return add(*acc)
    if op in LEAF:
        return t
    if op in BINDERS:
        bi, bodies = BINDERS[op]
        v = fresh_var()
        b = t.args[bi]
        new = []
        same = True
        for i, a in enumerate(t.args):
            if i == bi:
                new.append(v)
                continue
            o = subst(a, {b: v}) if i in bodies else a
            r = _tup_map(o, f)
            new.append(r)
            same = same and r == o
        if same:
            return t
        return NORM[op](*new)
    new = tuple(_tup_map(a, f) for a in t.args)
    if new == t.args:
        return t
    return norm(op, new)


def _tup_map(a, f):
    if isinstance(a, T):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_tup_map(x, f) for x in a)
    return a


def norm(op, a):
    if op == 'ite':
        return ite(*a)
    if op == 'and':
        return b_and(*a)
    if op == 'or':
        return b_or(*a)
    if op == 'not':
        return b_not(a[0])
    if op == 'ige':
        return ige(a[0])
    if op == 'eq':
        return eq(*a)
    if op == 'fgt':
        return lt(ZERO, a[0], False)
    if op == 'fge':
        return le(ZERO, a[0], False)
    if op == 'fld':
        return fld(*a)
    if op == 'rec':
        return rec(a[0], dict(a[1]))
    if op == 'strcat':
        return strcat(*a)
    if op == 'idiv':
        return idiv(*a)
    if op == 'imod':
        return imod(*a)
    if op == 'bigmul':
        return mul(*a)
    if op in NORM:
        return NORM[op](*a)
    return mk(op, *a)


NORM = {}


def subst(t, m):
    """simultaneous substitution of atoms (dict T->T)"""
    memo = {}
    simple = all(k.op in ('k', 'phi', 'bphi', 'bv', 'fbv', 'exit', 'unk', 'alt') for k in m)
    keys = frozenset(m)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif simple and not (syms(x) & keys):
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def show(t, depth=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, depth) for x in t) + ')'
        return str(t)
    if depth == 0:
        return '..'
    op, a = t.op, t.args
    if op == 'num':
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'poly':
        s = []
        for m, c in a[0]:
            f = [show(x, depth - 1) + ('' if e == 1 else '^%d' % e) for x, e in m]
            if c != 1 or not f:
                f = [str(c)] + f
            s.append('*'.join(f))
        return '(' + ' + '.join(s) + ')'
    if op in ('true', 'false'):
        return op
    if op == 'ige':
        return show(a[0], depth - 1) + '>=0'
    if op == 'fld':
        return show(a[0], depth - 1) + '.' + str(a[1])
    if op == 'sel':
        return show(a[0], depth - 1) + '[' + show(a[1], depth - 1) + ']'
    if op in ('init', 'k'):
        return (str(a[0]) if op == 'init' else 'k#' + str(a[0][-1] if isinstance(a[0], tuple) else a[0]))
    return op + '(' + ', '.join(show(x, depth - 1) for x in a) + ')'
