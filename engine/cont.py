"""Container terms: size and element laws, and the binders that summarise loops.
tab(n,bv,E)  element j is E[bv:=j]              cat(a,b) concatenation        list(x...)
store(c,i,v) functional update                  resized(c,n,v)
lm(c,bv,n,idx,val)  for bv in [0,n): c[idx(bv)] = val(bv)  (idx injective)
cats(n,bv,C) concatenation of C(0), C(1), ..., C(n-1)
sum/prod/sjoin(n,bv,E), all(n,bv,p): folds over bv in [0,n); first(n,bv,p): least index satisfying p
"""
from terms import *


def bind(k, *es):
    """(bound variable, bodies with k abstracted)"""
    b = mk('bv', max([height(e) for e in es]) + 1)
    return (b,) + tuple(subst(e, {k: b}) if k is not None else e for e in es)


def tab(n, k, E):
    """n elements, element k |-> E (k an atom, abstracted to a canonical bound variable)"""
    if n is ZERO:
        return mk('list')
    if E.op == 'sel' and k is not None and E.args[1] is k and k not in syms(E.args[0]) and size(E.args[0]) is n:
        return E.args[0]
    if n.op == 'num' and 0 < n.args[0] <= 8 and n.args[0].denominator == 1:
        return mk('list', *[subst(E, {k: num(j)}) if k is not None else E for j in range(int(n.args[0]))])
    b, E2 = bind(k, E)
    return mk('tab', n, b, E2)


def fill(n, v):
    return tab(n, None, v)


def lm(c, k, n, idx, val):
    if n is ZERO:
        return c
    if idx is k and size(c) is n:
        return tab(n, k, val)
    if n is ONE:
        return store(c, subst(idx, {k: ZERO}), subst(val, {k: ZERO}))
    off = sub(idx, k)
    if k not in syms(off) and add(off, n) is size(c):
        # the tail of c is written
        return cat(slice_(c, ZERO, off), tab(n, k, val))
    b, i2, v2 = bind(k, idx, val)
    return mk('lm', c, b, n, i2, v2)


def _outer(E, k):
    return k is None or k not in syms(E)


def sum_(n, k, E):
    if n is ZERO:
        return ZERO
    if n.op == 'num' and 0 < n.args[0] <= 16 and n.args[0].denominator == 1:
        return add(*[subst(E, {k: num(j)}) for j in range(int(n.args[0]))])
    out = ZERO
    for m, c in pdict(E).items():
        inner = tuple((a, e) for a, e in m if not _outer(a, k))
        outer = tuple((a, e) for a, e in m if _outer(a, k))
        o = from_pdict({outer: c})
        if not inner:
            out = add(out, mul(o, n))
        elif inner == ((k, 1),):
            out = add(out, mul(o, scale(mul(n, sub(n, ONE)), Fraction(1, 2))))
        else:
            b, e2 = bind(k, from_pdict({inner: Fraction(1)}))
            out = add(out, mul(o, mk('sum', n, b, e2)))
    return out


def prod_(n, k, E):
    if n is ZERO:
        return ONE
    if n.op == 'num' and 0 < n.args[0] <= 16 and n.args[0].denominator == 1:
        r = ONE
        for j in range(int(n.args[0])):
            r = mul(r, subst(E, {k: num(j)}))
        return r
    b, e2 = bind(k, E)
    return mk('prod', n, b, e2)


def all_(n, k, p):
    if n is ZERO or p is TRUE:
        return TRUE
    if n.op == 'num' and 0 < n.args[0] <= 8 and n.args[0].denominator == 1:
        return b_and(*[subst(p, {k: num(j)}) if k is not None else p for j in range(int(n.args[0]))])
    if p.op == 'and':
        return b_and(*[all_(n, k, x) for x in p.args])
    if _outer(p, k):
        return b_or(p, eq(n, ZERO))
    b, p2 = bind(k, p)
    return mk('all', n, b, p2)


def any_(n, k, p):
    return b_not(all_(n, k, b_not(p)))


def first_(n, k, p):
    if _outer(p, k):
        return ZERO
    b, p2 = bind(k, p)
    return mk('first', n, b, p2)


def sjoin(n, k, s):
    if n is ZERO:
        return s_lit('')
    if n.op == 'num' and 0 < n.args[0] <= 16 and n.args[0].denominator == 1:
        return strcat(*[subst(s, {k: num(j)}) for j in range(int(n.args[0]))])
    if s.op == 'str' and s.args[0] == '':
        return s
    b, s2 = bind(k, s)
    return mk('sjoin', n, b, s2)


def sjoinr(n, k, s):
    """s(n-1) ... s(0)"""
    if n is ZERO:
        return s_lit('')
    if n.op == 'num' and 0 < n.args[0] <= 16 and n.args[0].denominator == 1:
        return strcat(*[subst(s, {k: num(j)}) for j in reversed(range(int(n.args[0])))])
    if s.op == 'str' and s.args[0] == '':
        return s
    b, s2 = bind(k, s)
    return mk('sjoinr', n, b, s2)


def cats(n, k, C):
    if n is ZERO:
        return mk('list')
    if C.op == 'list' and len(C.args) == 1:
        return tab(n, k, C.args[0])
    if C.op == 'list' and not C.args:
        return C
    if n.op == 'num' and 0 < n.args[0] <= 8 and n.args[0].denominator == 1:
        r = mk('list')
        for j in range(int(n.args[0])):
            r = cat(r, subst(C, {k: num(j)}) if k is not None else C)
        return r
    if C.op == 'tab' and _outer(C.args[2], k) and _outer(C.args[0], k) and C.args[1] not in syms(C.args[2]):
        return tab(mul(n, C.args[0]), None, C.args[2])
    b, c2 = bind(k, C)
    return mk('cats', n, b, c2)


def fold(op, n, k, E):
    """unstructured folds that are only compared for equality: argmin, argmax, minover, maxover"""
    b, e2 = bind(k, E)
    return mk(op, n, b, e2)


def list_(*xs):
    return mk('list', *xs)


def size(c):
    op, a = c.op, c.args
    if op == 'tab':
        return a[0]
    if op == 'cat':
        return add(size(a[0]), size(a[1]))
    if op == 'list':
        return num(len(a))
    if op in ('store', 'lm'):
        return size(a[0])
    if op == 'resized':
        return a[1]
    if op in ('perm', 'sorted'):
        return size(a[0])
    if op == 'cats':
        v = fresh_var()
        return sum_(a[0], v, size(subst(a[2], {a[1]: v})))
    if op == 'ite':
        return ite(a[0], size(a[1]), size(a[2]))
    if op == 'slice':
        return a[2]
    if op == 'phi' and len(a) >= 4 and isinstance(a[3], T):
        return a[3]
    if op == 'str':
        return num(len(a[0]))
    return mk('size', c)


def cat(a, b):
    if b.op == 'list' and not b.args:
        return a
    if a.op == 'list' and not a.args:
        return b
    if size(b) is ZERO:
        return a
    if size(a) is ZERO:
        return b
    if a.op == 'list' and b.op == 'list':
        return mk('list', *(a.args + b.args))
    if b.op == 'cat':
        return cat(cat(a, b.args[0]), b.args[1])
    if a.op == 'cat' and a.args[1].op == 'list' and b.op == 'list':
        return mk('cat', a.args[0], mk('list', *(a.args[1].args + b.args)))
    if a.op == 'slice' and b.op == 'slice' and a.args[0] is b.args[0] and add(a.args[1], a.args[2]) is b.args[1]:
        return slice_(a.args[0], a.args[1], add(a.args[2], b.args[2]))
    return mk('cat', a, b)


def slice_(c, off, n):
    """n elements of c from off"""
    if n is ZERO:
        return mk('list')
    if off is ZERO and n is size(c):
        return c
    if c.op == 'slice':
        return slice_(c.args[0], add(c.args[1], off), n)
    if c.op == 'cat':
        sa = size(c.args[0])
        if off is ZERO and n is sa:
            return c.args[0]
        if le(add(off, n), sa, True) is TRUE:
            return slice_(c.args[0], off, n)
        if le(sa, off, True) is TRUE:
            return slice_(c.args[1], sub(off, sa), n)
    if c.op == 'list' and off.op == 'num' and n.op == 'num':
        o, m = int(off.args[0]), int(n.args[0])
        if 0 <= o and o + m <= len(c.args):
            return mk('list', *c.args[o:o + m])
    if c.op == 'tab':
        v = fresh_var()
        return tab(n, v, subst(c.args[2], {c.args[1]: add(v, off)}))
    return mk('slice', c, off, n)


def _no(b):
    return None


def sel(c, i, pr=_no):
    op, a = c.op, c.args
    if op == 'tab':
        return subst(a[2], {a[1]: i}) if a[1] in syms(a[2]) else a[2]
    if op == 'list' and i.op == 'num' and i.args[0].denominator == 1 and 0 <= i.args[0] < len(a):
        return a[int(i.args[0])]
    if op == 'store':
        e = eq(a[1], i)
        if e is TRUE:
            return a[2]
        if e is FALSE or pr(e) is False:
            return sel(a[0], i, pr)
        if pr(e) is True:
            return a[2]
        return mk('sel', c, i)
    if op == 'cat':
        sa = size(a[0])
        g = lt(i, sa, True)
        r = g is TRUE or (None if g is FALSE else pr(g))
        if g is FALSE:
            r = False
        if r is True:
            return sel(a[0], i, pr)
        if r is False:
            return sel(a[1], sub(i, sa), pr)
        return mk('sel', c, i)
    if op == 'slice':
        return sel(a[0], add(i, a[1]), pr)
    if op == 'lm':
        base, b, n, idx, val = a
        k = solve(idx, b, i)
        if k is not None:
            inr = b_and(le(ZERO, k, True), lt(k, n, True))
            r = pr(inr) if inr not in (TRUE, FALSE) else (inr is TRUE)
            if r is True:
                v = subst(val, {b: k}) if b in syms(val) else val
                return v
            if r is False:
                return sel(base, i, pr)
        return mk('sel', c, i)
    if op == 'resized':
        old = size(a[0])
        g = lt(i, old, True)
        r = g is TRUE or (None if g is FALSE else pr(g))
        if g is FALSE:
            r = False
        if r is True:
            return sel(a[0], i, pr)
        if r is False:
            return a[2]
        return mk('sel', c, i)
    if op == 'ite':
        return ite(a[0], sel(a[1], i, pr), sel(a[2], i, pr))
    return mk('sel', c, i)


def solve(idx, b, i):
    """k with idx(k) == i, when idx is linear in b with a divisible coefficient"""
    d = pdict(idx)
    co = {}
    rest = {}
    for m, c in d.items():
        es = [e for x, e in m if x is b]
        if es:
            if es[0] != 1:
                return None
            co[tuple((x, e) for x, e in m if x is not b)] = c
        else:
            if b in syms(from_pdict({m: c})):
                return None
            rest[m] = c
    if not co:
        return None
    coef = from_pdict(co)
    if b in syms(coef):
        return None
    k = fdiv(sub(i, from_pdict(rest)), coef)
    # only accept polynomial results
    for m, c in pdict(k).items():
        if c.denominator != 1 or any(e < 0 for _, e in m):
            return None
    return k


def store(c, i, v):
    if c.op == 'store' and eq(c.args[1], i) is TRUE:
        return store(c.args[0], i, v)
    if v is sel(c, i):
        return c
    if c.op == 'list' and i.op == 'num' and 0 <= i.args[0] < len(c.args):
        l = list(c.args)
        l[int(i.args[0])] = v
        return mk('list', *l)
    if c.op == 'cat':
        sa = size(c.args[0])
        g = lt(i, sa, True)
        if g is TRUE:
            return cat(store(c.args[0], i, v), c.args[1])
        if g is FALSE:
            return cat(c.args[0], store(c.args[1], sub(i, sa), v))
    return mk('store', c, i, v)


NORM['sel'] = lambda c, i: sel(c, i)
NORM['cat'] = cat
NORM['store'] = store
NORM['size'] = size
NORM['slice'] = slice_
NORM['tab'] = lambda n, b, E: tab(n, b, E)
NORM['lm'] = lambda c, b, n, idx, val: lm(c, b, n, idx, val)
NORM['sum'] = sum_
NORM['prod'] = prod_
NORM['all'] = all_
NORM['first'] = first_
NORM['sjoin'] = sjoin
NORM['sjoinr'] = sjoinr
NORM['cats'] = cats
for _o in ('argmin', 'argmax', 'minover', 'maxover'):
    NORM[_o] = (lambda o: lambda n, b, E: fold(o, n, b, E))(_o)
