"""Equality of two function summaries.

Colors      optimistic value numbering over both summaries at once (Alpern/Wegman/Zadeck partition refinement): loop
            recurrences, loop counters and exit counts that are not in closed form get the same number when their
            initial values, step functions and trip counts have the same numbers.
Valuation   identity testing of two normal forms at sample points. It is only a filter: a difference between normal
            forms is reported when some point separates them, so a difference of spelling is never reported."""
import math
import os
from terms import *
from terms import _tab
import cont


class Loops:
    def __init__(self, *ips):
        self.info = {}
        self.draws = {}
        for ip in ips:
            self.info.update(ip.loopinfo)
            n, cnt = {}, {}
            for e in ip.events:
                if e.kind == 'draw':
                    t = e.data[2] if len(e.data) > 2 else e.data[0]
                    if isinstance(t, T) and t.op == 'draw':
                        k = (t.args[3], t.args[4])
                        if k not in n:      # the draws of one kind are told apart by their order
                            q = t.args[0]
                            n[k] = (q, cnt.get(q, 0))
                            cnt[q] = cnt.get(q, 0) + 1
            self.draws.update(n)
        self.phi = {}
        for l, d in self.info.items():
            for root, path, init, head, E in d['recs']:
                self.add(l, head, init, E)

    def add(self, l, head, init, E):
        if head.op in ('ptr', 'rptr'):
            if init.op == head.op and E.op == head.op:
                self.add(l, head.args[1], init.args[1], E.args[1])
            return
        if head.op in ('phi', 'bphi') and head.args[0] == l:
            self.phi[(l, head.args[1])] = (init, E)


SETTLED = {}


def settle(t, c, v):
    """t where the condition c is known to be v (conditions found near the root only)"""
    k = (t, c)
    r = SETTLED.get(k)
    if r is not None:
        return r
    r = t
    seen, todo = set(), [t]
    while todo and len(seen) < 400:
        x = todo.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if x is c:
            r = subst(t, {c: v})
            break
        todo.extend(children(x))
    SETTLED[k] = r
    return r


class Colors:
    def __init__(self, loops, rename=None):
        self.L = loops
        self.rename = rename or {}
        self.tabl = {}
        self.pc = {}
        self.lc = {}

    def key(self, *k):
        r = self.tabl.get(k)
        if r is None:
            r = self.tabl[k] = len(self.tabl) + 1
        return r

    def color(self, t, memo):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return self.key('tup', *[self.color(x, memo) for x in t])
            return self.key('py', type(t).__name__, t)
        r = memo.get(t)
        if r is not None:
            return r
        op, a = t.op, t.args
        if op == 'poly':
            ms = []
            for m, c in a[0]:
                ms.append(self.key('m', c, *sorted((self.color(x, memo), e) for x, e in m)))
            r = self.key('poly', *sorted(ms))
        elif op in ('and', 'or'):
            r = self.key(op, *sorted(self.color(x, memo) for x in a))
        elif op == 'eq':
            if a[1] is ZERO:
                r = self.key('eq0', *sorted((self.color(a[0], memo), self.color(neg(a[0]), memo))))
            else:
                r = self.key('eq', *sorted((self.color(a[0], memo), self.color(a[1], memo))))
        elif op in ('phi', 'bphi'):
            r = self.key(op, self.pc.get((a[0], a[1]), 0), self.color(a[2], memo))
        elif op == 'k':
            r = self.key('k', self.lc.get(a[0], 0))
        elif op == 'exit':
            r = self.key('exit', self.lc.get(a[0], 0), *[self.color(x, memo) for x in a[1:]])
        elif op == 'pred' and a[0] == 'early':
            r = self.key('early', self.lc.get(a[1], 0), self.color(a[2], memo))
        elif op == 'draw':
            r = self.key('draw', a[0], self.color(a[1], memo), self.color(a[2], memo),
                         *self.L.draws.get((a[3], a[4]), (-1,)), self.color(a[5], memo))
        elif op in ('unk', 'alt'):
            r = self.key(op, t.id)
        elif op == 'slice':
            v = fresh_var()
            b, e = cont.bind(v, cont.sel(a[0], add(v, a[1])))
            r = self.color(mk('tab', a[2], b, e), memo)
        elif op == 'ite' and (settle(a[1], a[0], TRUE) is not a[1] or settle(a[2], a[0], FALSE) is not a[2]):
            r = self.color(ite(a[0], settle(a[1], a[0], TRUE), settle(a[2], a[0], FALSE)), memo)
        elif op == 'ite' and self.nest(t, memo) is not None:
            cs, x, y = self.nest(t, memo)
            r = self.key('ite', self.key(*cs), self.color(x, memo), self.color(y, memo))
        elif op == 'ite' and a[0].op == 'ige' and self.larger(t) is not None:
            w, x, y = self.larger(t)
            r = self.key(w, *sorted((self.color(x, memo), self.color(y, memo))))
        elif op == 'ite' and a[0].op == 'ige':
            # a choice and its mirror image
            x, y = self.color(a[1], memo), self.color(a[2], memo)
            r = min(self.key('ite', self.color(a[0], memo), x, y), self.key('ite', self.color(b_not(a[0]), memo), y, x))
        elif op == 'rec':
            r = self.key('rec', self.color(a[0], memo), *sorted((f, self.color(v, memo)) for f, v in a[1]))
        else:
            r = self.key(op, *[self.color(x, memo) for x in a])
        memo[t] = r
        return r

    def larger(self, t):
        """the larger or smaller of two integers, however ties are written"""
        c, a, b = t.args
        x, y = [num(v.args[1]) if v.op == 'enumc' and v.args[1] is not None else v for v in (a, b)]
        if x.op not in ('num', 'poly', 'fld', 'sel', 'arg', 'init', 'size', 'draw', 'phi', 'k') or y.op not in (
                'num', 'poly', 'fld', 'sel', 'arg', 'init', 'size', 'draw', 'phi', 'k'):
            return None
        d = sub(x, y)
        if c.args[0] is d or c.args[0] is sub(d, ONE):
            return 'larger', x, y
        d = neg(d)
        if c.args[0] is d or c.args[0] is sub(d, ONE):
            return 'smaller', x, y
        return None

    def nest(self, t, memo):
        """choices within choices that share an outcome, as one choice by a conjunction or disjunction"""
        for op, i in (('and', 1), ('or', 2)):
            c, x, o = t.args[0], t.args[i], t.args[3 - i]
            qs = list(c.args) if c.op == op else [c]
            n = 1 if c.op == op else 0
            co = self.color(o, memo)
            while x.op == 'ite' and self.color(x.args[3 - i], memo) == co:
                c = x.args[0]
                qs += c.args if c.op == op else [c]
                x = x.args[i]
                n += 1
            if n and (c is not t.args[0] or x is not t.args[i]):
                ks = sorted({self.color(q, memo) for q in qs})
                return ([op] + ks, x, o) if op == 'and' else ([op] + ks, o, x)
        return None

    def refine(self, roots, rounds=60):
        # reachable loops
        seen, todo = set(), list(roots)
        seent = set()
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x in seent:
                    continue
                seent.add(x)
                l = None
                if x.op in ('phi', 'bphi'):
                    pk = (x.args[0], x.args[1])
                    if pk not in self.pc:
                        self.pc[pk] = 1
                        if pk in self.L.phi:
                            todo.extend(self.L.phi[pk])
                    l = x.args[0]
                elif x.op in ('k', 'exit'):
                    l = x.args[0]
                elif x.op == 'pred' and x.args[0] == 'early':
                    l = x.args[1]
                if l is not None and l not in seen:
                    seen.add(l)
                    self.lc[l] = 1
                    d = self.L.info.get(l)
                    if d is not None:
                        todo.append(d['trip'])
                        todo.append(d['cond'])
                        if d.get('early') is not None:
                            todo.append(d['early'])
        classes = None
        for _ in range(rounds):
            memo = {}
            npc, nlc = {}, {}
            for pk, old in self.pc.items():
                if pk in self.L.phi:
                    i, e = self.L.phi[pk]
                    npc[pk] = self.key('PC', old, self.lc.get(pk[0], 0), self.color(i, memo), self.color(e, memo))
                else:
                    npc[pk] = self.key('PCx', pk)
            for l, old in self.lc.items():
                d = self.L.info.get(l)
                if d is None:
                    nlc[l] = self.key('LCx', l)
                    continue
                if d['exact']:
                    c = self.color(d['trip'], memo)
                else:
                    c = self.color(d['cond'], memo)
                e = d.get('early')
                nlc[l] = self.key('LC', old, d['exact'], c, self.color(e, memo) if e is not None else 0)
            n = (len(set(npc.values())), len(set(nlc.values())))
            self.pc, self.lc = npc, nlc
            if n == classes:
                break
            classes = n
        self.memo = {}

    def same(self, a, b):
        return self.color(a, self.memo) == self.color(b, self.memo)


def same(a, b, *ips):
    if a is b:
        return True
    L = Loops(*ips)
    return by_cases(a, b, L, 3, [24])


def by_cases(a, b, L, depth, budget):
    """equal normal forms, or equal ones in each case of a condition both values branch on"""
    if a is b:
        return True
    if budget[0] <= 0:
        return False
    budget[0] -= 1
    c = Colors(L)
    c.refine([a, b])
    if c.same(a, b):
        return True
    if depth == 0:
        return False
    groups = {}
    for i, t in enumerate((a, b)):
        for q in branching(t):
            groups.setdefault(c.color(q, c.memo), ([], []))[i].append(q)
    both = [g for g in groups.values() if g[0] and g[1]]
    for ga, gb in both[:4] or list(groups.values())[:2]:
        ok = True
        for v in (TRUE, FALSE):
            m = {q: v for q in ga + gb}
            x, y = subst(a, m), subst(b, m)
            if (x is a and y is b) or not by_cases(x, y, L, depth - 1, budget):
                ok = False
                break
        if ok:
            return True
        if budget[0] <= 0:
            return False
    return False


def branching(t, limit=600):
    """closed atomic conditions the value branches on near its root"""
    out, seen, todo = [], set(), [t]
    while todo and len(seen) < limit:
        x = todo.pop(0)
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st = [x.args[0]]
            while st:
                q = st.pop()
                if q.op in ('and', 'or', 'not'):
                    st.extend(children(q))
                elif q not in out and closed(q):
                    out.append(q)
        todo.extend(children(x))
    return out


FREE = {}


def closed(t):
    return not free(t)


def free(t):
    """bound variables and loop counters free in t"""
    r = FREE.get(t)
    if r is not None:
        return r
    if t.op in ('bv', 'fbv', 'k'):
        r = frozenset([t])
    elif t.op in BINDERS:
        bi, bodies = BINDERS[t.op]
        r = frozenset()
        for i, x in enumerate(t.args):
            if i != bi and isinstance(x, T):
                f = free(x)
                r |= f - {t.args[bi]} if i in bodies else f
    else:
        r = frozenset()
        for x in children(t):
            r |= free(x)
    FREE[t] = r
    return r


# ------------------------------------------------------------------ identity testing
class NoValue(Exception):
    pass


class Ill(Exception):
    """the term has no value at this point (division by zero, index outside a container)"""


class NotFinite(Ill):
    """the term denotes an infinity or no number"""


# the nonlinearities a network may use, of the sum of the inputs
NETK = {'tanh': math.tanh, 'sig': lambda s: 1 / (1 + math.exp(-s)), 'ReLu': lambda s: max(s, 0.),
        'ELU': lambda s: s if s >= 0 else math.exp(s) - 1, 'ISRU': lambda s: s / math.sqrt(1 + s * s), 'sin_nu': math.sin,
        'cos_nu': math.cos, 'gaussian_nu': lambda s: math.exp(-s * s), 'sum': lambda s: s, 'inv_sum': lambda s: -s,
        'abs': abs, 'step': lambda s: 0. if s < 0 else 1.}


class Op:
    """opaque value"""
    __slots__ = ('k',)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Op) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'op' + repr(self.k)


def h01(*k):
    import hashlib
    d = hashlib.sha1(repr(k).encode()).digest()
    return int.from_bytes(d[:6], 'big') / 2.0 ** 48


SM = {'exp': lambda x: math.exp(x) if x < 300 else _ill(), 'log': lambda x: math.log(x) if x > 0 else _ill(),
      'sqrt': lambda x: math.sqrt(x) if x >= 0 else _ill(), 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
      'tanh': math.tanh, 'erf': math.erf, 'cbrt': lambda x: math.copysign(abs(x) ** (1. / 3), x), 'floor': math.floor,
      'ceil': math.ceil, 'f32': lambda x: _f32(x)}


def _f32(x):
    """rounding to single precision, made coarser so that a difference is visible"""
    if x == 0 or abs(x) > 1e30:
        return x
    m, e = math.frexp(x)
    return x if m * 1024 == int(m * 1024) else math.ldexp(round(m * 1024) / 1024., e)


def _ill():
    raise NotFinite()


MEMO = {'app', 'sel', 'fld', 'ite', 'poly', 'tab', 'cats', 'store', 'lm', 'slice', 'sum', 'cat', 'rec', 'phi', 'eq', 'or', 'and'}


class Valuation:
    def __init__(self, loops, env, budget=200000):
        self.L = loops
        self.env = env           # term -> value
        self.phim = {}
        self.memo = {}
        self.budget = env.get('budget', budget) if isinstance(env, dict) else budget

    def ev(self, t, K=None, B=None):
        """K: loop uid -> iteration number, B: bound variable -> value"""
        self.budget -= 1
        if self.budget < 0:
            raise NoValue('budget')
        K = K or {}
        B = B or {}
        return self._ev(t, K, B)

    def num(self, t, K, B):
        v = self._ev(t, K, B)
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, float)):
            raise NoValue('not a number: %r' % (v,))
        return v

    def count(self, t, K, B):
        v = self.num(t, K, B)
        if v != int(v):
            raise Ill()
        if v > 4000:
            raise NoValue('long loop')
        return max(0, int(v))

    def _ev(self, t, K, B):
        self.budget -= 1
        if self.budget < 0:
            raise NoValue('budget')
        op, a = t.op, t.args
        if t in B:
            return B[t]
        if t in self.env:
            return self.env[t]
        m = getattr(self, 'v_' + op, None)
        if m is None:
            raise NoValue('no value for ' + op)
        if op not in MEMO:
            return m(t, a, K, B)
        k = (t.id, tuple(K.items()))
        if B:
            bs = tuple(sorted((x.id, B[x]) for x in self.bound(t) if x in B and isinstance(B[x], (int, float))))
            if len(bs) != sum(x in B for x in self.bound(t)):
                return m(t, a, K, B)
            k += bs
        if k in self.memo:
            return self.memo[k]
        v = self.memo[k] = m(t, a, K, B)
        return v

    def bound(self, t):
        return [x for x in syms(t) if x.op in ('bv', 'fbv')] + ([self.OTHER] if self.OTHER in subterms(t) else [])

    def v_num(self, t, a, K, B):
        f = a[0]
        return int(f) if f.denominator == 1 else float(f)

    def v_str(self, t, a, K, B):
        return a[0]

    def v_true(self, t, a, K, B):
        return True

    def v_false(self, t, a, K, B):
        return False

    def v_poly(self, t, a, K, B):
        s = 0
        for m, c in a[0]:
            p = int(c) if c.denominator == 1 else float(c)
            for x, e in m:
                v = self.num(x, K, B)
                if e < 0 and v == 0:
                    raise NotFinite()
                p = p * v ** e
                if isinstance(p, complex) or (isinstance(p, float) and not math.isfinite(p)):
                    raise NotFinite()
            s += p
        return s

    def nums(self, t, K, B):
        """a number, or the values of an array expression (sums of arrays and numbers)"""
        if t.op == 'poly':
            s = 0
            for m, c in t.args[0]:
                v = [self._ev(x, K, B) for x, e in m if e == 1]
                if len(m) == 1 and len(v) == 1 and isinstance(v[0], list):
                    p = [float(c) * y for y in v[0]]
                else:
                    p = self.v_poly(t, (((m, c),),), K, B)
                s = p if isinstance(s, int) and not s else \
                    [x + y for x, y in zip(s if isinstance(s, list) else [s] * len(p), p if isinstance(p, list) else [p] * len(s))] \
                    if isinstance(s, list) or isinstance(p, list) else s + p
            return s
        v = self._ev(t, K, B)
        return v if isinstance(v, list) and all(isinstance(x, (int, float)) for x in v) else self.num(t, K, B)

    def v_ige(self, t, a, K, B):
        return self.num(a[0], K, B) >= 0

    def v_fge(self, t, a, K, B):
        v = self.nums(a[0], K, B)
        return [x >= 0 for x in v] if isinstance(v, list) else v >= 0

    def v_fgt(self, t, a, K, B):
        v = self.nums(a[0], K, B)
        return [x > 0 for x in v] if isinstance(v, list) else v > 0

    def v_eq(self, t, a, K, B):
        if a[0].op == 'poly' and len(a[0].args[0]) == 2:      # x - y = 0 also compares containers
            (m, c), (m2, c2) = a[0].args[0]
            if c + c2 == 0 and len(m) == len(m2) == 1 and m[0][1] == m2[0][1] == 1 and isinstance(a[1], T) and self._ev(a[1], K, B) == 0:
                return self._ev(m[0][0], K, B) == self._ev(m2[0][0], K, B)
        x, y = self._ev(a[0], K, B), self._ev(a[1], K, B)
        return x == y

    def v_not(self, t, a, K, B):
        return not self._ev(a[0], K, B)

    def v_and(self, t, a, K, B):
        r, ill = True, None
        for x in a:
            try:
                if not self._ev(x, K, B):
                    return False
            except Ill as e:
                ill = e
        if ill:
            raise ill
        return r

    def v_or(self, t, a, K, B):
        ill = None
        for x in a:
            try:
                if self._ev(x, K, B):
                    return True
            except Ill as e:
                ill = e
        if ill:
            raise ill
        return False

    def v_ite(self, t, a, K, B):
        return self._ev(a[1] if self._ev(a[0], K, B) else a[2], K, B)

    def v_obj0(self, t, a, K, B):
        return Op('default', a[0])

    def v_size(self, t, a, K, B):
        v = self.spread(self._ev(a[0], K, B))
        if isinstance(v, (list, str)):
            return len(v)
        raise NoValue('size')

    def spread(self, v):
        """a coefficient of a vectorised series, as a container"""
        if isinstance(v, (int, float)) and not isinstance(v, bool) and 'veclen' in self.env:
            return [v * (1 + .13 * i) + .21 * i * i for i in range(self.env['veclen'])]
        return v

    def v_cf(self, t, a, K, B):
        """series are interpreted by their constant terms"""
        return self._ev(a[0], K, B)

    def at2(self, m, ix, K, B):
        if not (isinstance(m, dict) and '#m' in m):
            raise NoValue('element of %s' % type(m).__name__)
        k = tuple(self.num(x, K, B) for x in ix.args)
        k = tuple(int(x) for x in k) if len(k) == 2 else (int(k[0]), 0)
        if k not in m:
            raise Ill()
        return k

    def v_sel(self, t, a, K, B):
        if a[1].op == 'idx':
            m = self._ev(a[0], K, B)
            return m[self.at2(m, a[1], K, B)]
        i = self.num(a[1], K, B)
        r = self.elem(a[0], i, K, B)
        return r

    def elem(self, c, i, K, B):
        """one element, without building the container where that is easy"""
        if i != int(i):
            raise Ill()
        i = int(i)
        if c not in B and c not in self.env:
            if c.op == 'tab':
                if not 0 <= i < self.count(c.args[0], K, B):
                    raise Ill()
                return self._ev(c.args[2], K, {**B, c.args[1]: i})
            if c.op == 'store':
                if self.num(c.args[1], K, B) == i:
                    return self._ev(c.args[2], K, B)
                return self.elem(c.args[0], i, K, B)
        v = self.spread(self._ev(c, K, B))
        if not isinstance(v, list):
            raise NoValue('sel of %r' % (v,))
        if not 0 <= i < len(v):
            raise Ill()
        return v[i]

    def v_fld(self, t, a, K, B):
        v = self._ev(a[0], K, B)
        if isinstance(v, dict):
            if a[1] in v:
                return v[a[1]]
            raise NoValue('field ' + str(a[1]))
        if isinstance(v, Op):
            return Op('fld', v, a[1])
        if isinstance(v, tuple) and a[1] in ('first', 'second'):
            return v[0 if a[1] == 'first' else 1]
        raise NoValue('fld')

    def v_rec(self, t, a, K, B):
        fs = {}
        for f, v in a[1]:
            try:
                fs[f] = self._ev(v, K, B)
            except NoValue as e:
                fs[f] = Op('novalue', str(e))
        try:
            b = self._ev(a[0], K, B)
        except NoValue:
            b = {}
        if isinstance(b, dict):
            return {**b, **fs}
        return fs

    def v_tab(self, t, a, K, B):
        n = self.count(a[0], K, B)
        return [self._ev(a[2], K, {**B, a[1]: i}) for i in range(n)]

    def v_list(self, t, a, K, B):
        return [self._ev(x, K, B) for x in a]

    def lst(self, t, K, B):
        v = self.spread(self._ev(t, K, B))
        if not isinstance(v, list):
            raise NoValue('list')
        return v

    def v_cat(self, t, a, K, B):
        return self.lst(a[0], K, B) + self.lst(a[1], K, B)

    def v_cats(self, t, a, K, B):
        r = []
        for i in range(self.count(a[0], K, B)):
            r += self.lst(a[2], K, {**B, a[1]: i})
        return r

    def v_slice(self, t, a, K, B):
        l = self.lst(a[0], K, B)
        o, n = self.num(a[1], K, B), self.num(a[2], K, B)
        if o < 0 or n < 0 or o + n > len(l):
            raise Ill()
        return l[int(o):int(o + n)]

    def v_lm(self, t, a, K, B):
        l = list(self.lst(a[0], K, B))
        for i in range(self.count(a[2], K, B)):
            B2 = {**B, a[1]: i}
            j = self.num(a[3], K, B2)
            if not 0 <= j < len(l):
                raise Ill()
            l[int(j)] = self._ev(a[4], K, B2)
        return l

    def v_store(self, t, a, K, B):
        if a[1].op == 'idx':
            m = self._ev(a[0], K, B)
            return {**m, self.at2(m, a[1], K, B): self._ev(a[2], K, B)} if isinstance(m, dict) else self.at2(m, a[1], K, B)
        l = list(self.lst(a[0], K, B))
        j = self.num(a[1], K, B)
        if not 0 <= j < len(l):
            raise Ill()
        l[int(j)] = self._ev(a[2], K, B)
        return l

    def v_resized(self, t, a, K, B):
        l = self.lst(a[0], K, B)
        n = self.count(a[1], K, B)
        if n <= len(l):
            return l[:n]
        return l + [self._ev(a[2], K, B)] * (n - len(l))

    def v_sorted(self, t, a, K, B):
        if len(a) != 1:
            raise NoValue('sorted by')
        try:
            return sorted(self.lst(a[0], K, B))
        except TypeError:
            raise NoValue('sorted')

    def v_dedup(self, t, a, K, B):
        out = []
        for x in self.lst(a[0], K, B):
            if not out or out[-1] != x:
                out.append(x)
        return out


    def v_set(self, t, a, K, B):
        return sorted(set(self.lst(a[0], K, B)))

    def v_sum(self, t, a, K, B):
        s = 0
        for i in range(self.count(a[0], K, B)):
            s += self.num(a[2], K, {**B, a[1]: i})
        return s

    def v_prod(self, t, a, K, B):
        s = 1
        for i in range(self.count(a[0], K, B)):
            s *= self.num(a[2], K, {**B, a[1]: i})
        return s

    def v_all(self, t, a, K, B):
        for i in range(self.count(a[0], K, B)):
            if not self._ev(a[2], K, {**B, a[1]: i}):
                return False
        return True

    def v_first(self, t, a, K, B):
        n = self.count(a[0], K, B)
        for i in range(n):
            if self._ev(a[2], K, {**B, a[1]: i}):
                return i
        return n

    def v_minover(self, t, a, K, B):
        vs = [self.num(a[2], K, {**B, a[1]: i}) for i in range(self.count(a[0], K, B))]
        if not vs:
            raise Ill()
        return min(vs)

    def v_maxover(self, t, a, K, B):
        vs = [self.num(a[2], K, {**B, a[1]: i}) for i in range(self.count(a[0], K, B))]
        if not vs:
            raise Ill()
        return max(vs)

    def v_sjoin(self, t, a, K, B):
        return ''.join(self.st(a[2], K, {**B, a[1]: i}) for i in range(self.count(a[0], K, B)))

    def v_sjoinr(self, t, a, K, B):
        return ''.join(self.st(a[2], K, {**B, a[1]: i}) for i in reversed(range(self.count(a[0], K, B))))

    def st(self, t, K, B):
        v = self._ev(t, K, B)
        if not isinstance(v, str):
            raise NoValue('string')
        return v

    def v_strcat(self, t, a, K, B):
        return ''.join(self.st(x, K, B) for x in a)

    def v_tostr(self, t, a, K, B):
        v = self._ev(a[0], K, B)
        if isinstance(v, float) and v == int(v):
            v = int(v)
        return str(v) if isinstance(v, int) else '%.6f' % v if isinstance(v, float) else repr(v)

    def v_idiv(self, t, a, K, B):
        x, y = self.num(a[0], K, B), self.num(a[1], K, B)
        if y == 0:
            raise Ill()
        return int(abs(x) // abs(y)) * (1 if (x >= 0) == (y > 0) else -1)

    def v_imod(self, t, a, K, B):
        x, y = self.num(a[0], K, B), self.num(a[1], K, B)
        if y == 0:
            raise Ill()
        return int(math.fmod(x, y)) if isinstance(x, int) and isinstance(y, int) else math.fmod(x, y)

    def v_bigmul(self, t, a, K, B):
        return self.num(a[0], K, B) * self.num(a[1], K, B)

    def v_abs(self, t, a, K, B):
        return abs(self.num(a[0], K, B))

    def v_trunc(self, t, a, K, B):
        return int(self.num(a[0], K, B))

    def v_max0(self, t, a, K, B):
        return max(0, self.num(a[0], K, B))

    def v_none(self, t, a, K, B):
        return None

    def v_some(self, t, a, K, B):
        return ('some', self._ev(a[0], K, B))

    def v_void(self, t, a, K, B):
        return Op('void')

    def v_enumc(self, t, a, K, B):
        try:
            return int(a[1])
        except (TypeError, ValueError):
            return Op('enum', *[str(x) for x in a])

    def v_fnobj(self, t, a, K, B):
        return Op('fnobj', *[str(x) if not isinstance(x, T) else self.freeze(self._ev(x, K, B)) for x in a])

    def v_engine(self, t, a, K, B):
        return Op('engine', *[self.freeze(self._ev(x, K, B)) if isinstance(x, T) else x for x in a])

    def v_uninit(self, t, a, K, B):
        return Op('uninit', *[str(x) for x in a])

    def v_addr(self, t, a, K, B):
        return Op('addr', t.id)

    def v_pred(self, t, a, K, B):
        if a[0] == 'finite':
            try:
                self.num(a[1], K, B)
            except (NotFinite, OverflowError):
                return False
            return True
        if a[0] in ('nan', 'inf'):
            try:
                self.num(a[1], K, B)
            except (NotFinite, OverflowError):
                raise NoValue(a[0])
            return False
        if a[0] == 'early':
            return self.early(a[1], a[2], K, B) is not None
        raise NoValue('pred')

    def freeze(self, v):
        if isinstance(v, list):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, dict):
            return tuple(sorted((k, self.freeze(x)) for k, x in v.items()))
        if isinstance(v, float):
            return round(v, 6)
        return v

    def v_fn(self, t, a, K, B):
        return self.v_app(t, a, K, B)

    OTHER = mk('other')

    def v_argmax(self, t, a, K, B, sg=1):
        if any(x is self.OTHER for x in subterms(a[2])):
            n = self.count(a[0], K, B)      # by a comparison: the standard algorithm
            if n == 0:
                return 0
            r = 0
            for i in range(1, n):
                if self._ev(a[2], K, {**B, a[1]: i, self.OTHER: r} if sg < 0 else {**B, a[1]: r, self.OTHER: i}):
                    r = i
            return r
        vs = [sg * self.num(a[2], K, {**B, a[1]: i}) for i in range(self.count(a[0], K, B))]
        if not vs:
            raise Ill()
        return vs.index(max(vs))

    def v_argmin(self, t, a, K, B):
        return self.v_argmax(t, a, K, B, -1)

    def v_fconst(self, t, a, K, B):
        if 'inf' in str(a[0]):
            return 1e308
        raise NoValue('fconst')

    def v_uniqlen(self, t, a, K, B):
        n, last = 0, None
        for x in self.lst(a[0], K, B):
            if n == 0 or last != x:
                n += 1
            last = x
        return n

    def v_uniq(self, t, a, K, B):
        l = self.lst(a[0], K, B)
        return self.v_dedup(t, a, K, B) + l[self.v_uniqlen(t, a, K, B):]

    def v_engstate(self, t, a, K, B):
        return self.freeze(self._ev(a[0], K, B))

    def v_perm(self, t, a, K, B):
        l = list(self.lst(a[0], K, B))
        e = self._ev(a[1], K, B)
        off, cnt = self.num(a[2], K, B), self.num(a[3], K, B)
        part = l[int(off):int(off + cnt)]
        order = sorted(range(len(part)), key=lambda i: h01('perm', repr(e), i))
        l[int(off):int(off + cnt)] = [part[i] for i in order]
        return l

    def v_dflt(self, t, a, K, B):
        x = str(a[0])
        if 'string' in x:
            return ''
        if x.startswith('std::vector'):
            return []
        if x in ('double', 'int', 'unsigned int', 'unsigned', 'unsigned long', 'long'):
            return 0
        return Op('dflt', x)

    def v_truth(self, t, a, K, B):
        v = self._ev(a[0], K, B)
        if v is None:
            return 0
        if isinstance(v, (bool, int, float)):
            return 1 if v else 0
        if isinstance(v, tuple) and v and v[0] == 'some':
            return 1
        if isinstance(v, Op) and v.k[:1] == ('udp',):       # a pointer to the problem
            return 1
        raise NoValue('truth')

    def v_app(self, t, a, K, B):
        name = a[0]
        vs = [self._ev(x, K, B) if isinstance(x, T) else x for x in a[1:]]
        h = self.env.get('apps')
        if h is not None and name in h:
            try:
                return h[name](self, vs)
            except (KeyError, TypeError, IndexError):
                raise NoValue('arguments of ' + name)
        if name == 'call' and self.env.get('real') and len(vs) == 2 and isinstance(vs[0], Op) and len(vs[0].k) > 1 \
                and vs[0].k[1] in NETK and isinstance(vs[1], list) and vs[1] \
                and all(isinstance(x, (int, float)) for x in vs[1]):
            return NETK[vs[0].k[1]](sum(vs[1]))
        if name.startswith(('Eigen::', 'eigen', 'after ', 'new Eigen', 'std::', 'boost::', 'tbb::', 'pagmo::', 'new std::',
                            'new boost::', 'new tbb::', 'string::')) or name in ('vector', 'range', 'string', 'find', 'lambda',
                                                                               'dynamic_cast'):
            raise NoValue('library function ' + name)
        if os.environ.get('SMLOG'):
            with open(os.environ['SMLOG'], 'a') as fh:
                fh.write(name + '\n')
        if name == 'order' and 'order' in self.env:
            return self.env['order']
        if name == 'strcmp' and type(vs[0]) is type(vs[1]) and isinstance(vs[0], (str, list)):
            try:
                return (vs[0] > vs[1]) - (vs[0] < vs[1])
            except TypeError:
                raise NoValue('comparison')
        if name in SM and len(vs) == 1 and isinstance(vs[0], (int, float)):
            return SM[name](vs[0])
        if name == 'pow' and len(vs) == 2 and all(isinstance(v, (int, float)) for v in vs):
            if vs[0] <= 0:
                raise Ill()
            return vs[0] ** vs[1]
        return self.smooth(name, vs)

    def smooth(self, name, vs):
        """an arbitrary but fixed smooth function of the numeric arguments"""
        ks, xs, ss = [], [], []

        def go(v):
            if isinstance(v, bool):
                ks.append(v)
            elif isinstance(v, (int, float)):
                xs.append(v)
            elif isinstance(v, str):
                ss.append(v)
            elif isinstance(v, (list, tuple)):
                ks.append('[')
                for x in v:
                    go(x)
                ks.append(']')
            elif isinstance(v, dict):
                for k in sorted(v, key=str):
                    ks.append(k)
                    go(v[k])
            else:
                ks.append(repr(v))
        go(list(vs))
        if ss and not xs:
            return '%s<%d>(%s)' % (name, int(h01(name, ks) * 1e6), ','.join(ss))
        r = h01(name, ks, ss)
        for i, x in enumerate(xs):
            r += (0.3 + h01(name, ks, ss, i)) * math.sin(x * (0.2 + h01(name, ks, ss, i, 1)) + h01(name, ks, ss, i, 2))
        return r

    def v_draw(self, t, a, K, B):
        lo, hi = self.num(a[1], K, B), self._ev(a[2], K, B)
        site = self.L.draws.get((a[3], a[4]), -1)
        it = tuple(self._ev(x, K, B) for x in a[5])
        u = h01('draw', site, it, self.env.get('salt', 0))
        if a[0] == 'uint' or a[0] == 'int':
            if hi < lo:
                raise Ill()
            return int(lo + int(u * (hi - lo + 1)))
        return lo + u * (hi - lo)

    # ---------------------------------------------------------------- loops
    def v_k(self, t, a, K, B):
        if a[0] in K:
            return K[a[0]]
        raise NoValue('loop counter')

    def v_phi(self, t, a, K, B):
        l, key, ka = a[0], a[1], a[2]
        its = tuple(int(self.num(x, K, B)) for x in ka)
        return self.phi(l, key, its, ka, K, B)

    def v_bphi(self, t, a, K, B):
        return self.v_phi(t, a, K, B)

    def outer(self, l, its, K):
        """iteration numbers of the loops around l, outermost first"""
        return its

    def phi(self, l, key, its, ka, K, B):
        if (l, key) not in self.L.phi:
            raise NoValue('phi')
        init, E = self.L.phi[(l, key)]
        chain = self.L.info[l].get('chain')
        n = its[-1]
        if n > 400:
            raise NoValue('long loop')
        K0 = dict(zip(chain, its[:-1])) if chain is not None else dict(K)
        bk = tuple(sorted((b.id, v) for b, v in B.items() if isinstance(v, (int, float)))) if False else ()
        j = n
        while j > 0 and (l, key, its[:-1] + (j,)) not in self.phim:
            j -= 1
        if j == 0:
            v = self.phim.get((l, key, its[:-1] + (0,)), self)
            if v is self:
                v = self._ev(init, K0, {})
                self.phim[(l, key, its[:-1] + (0,))] = v
        else:
            v = self.phim[(l, key, its[:-1] + (j,))]
        while j < n:
            K1 = dict(K0)
            K1[l] = j
            v = self._ev(E, K1, {})
            j += 1
            self.phim[(l, key, its[:-1] + (j,))] = v
        return v

    def early(self, l, outer, K, B):
        d = self.L.info[l]
        its = tuple(int(self.num(x, K, B)) for x in outer)
        K0 = dict(zip(d['chain'], its))
        if d.get('early') is None:
            raise NoValue('early')
        n = self._ev(d['trip'], K0, {}) if d['exact'] else None
        j = 0
        while j < 400:
            K0[l] = j
            if n is not None:
                if j >= n:
                    return None
            elif not self._ev(d['cond'], K0, {}):
                return None
            if self._ev(d['early'], K0, {}):
                return j
            j += 1
        raise NoValue('long loop')

    def v_exit(self, t, a, K, B):
        l = a[0]
        d = self.L.info[l]
        outer = a[1]
        if len(outer) == len(d['chain']) + 1:
            j = self.early(l, outer[:-1], K, B)
            if j is None:
                raise Ill()
            return j
        its = tuple(int(self.num(x, K, B)) for x in outer)
        ck = ('exit', l, its)
        if ck in self.phim:
            return self.phim[ck]
        K0 = dict(zip(d['chain'], its))
        j = 0
        while j < 400:
            K0[l] = j
            if not self._ev(d['cond'], K0, {}):
                self.phim[ck] = j
                return j
            j += 1
        raise NoValue('long loop')


def close(x, y, tol=1e-6):
    if isinstance(x, bool) or isinstance(y, bool):
        return x == y
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return abs(x - y) <= tol * (1 + abs(x) + abs(y))
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(close(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(close(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(close(x[k], y[k], tol) for k in x)
    return x == y


def witness(a, b, envs, *ips):
    """(env, value of a, value of b) at a separating point; None when none separates; raises NoValue when undecidable.
    The third component counts the points where both had a value."""
    L = Loops(*ips)
    n = 0
    last = None
    for env in envs:
        try:
            x = Valuation(L, env).ev(a)
        except Ill:
            x = Ill
        except NoValue as e:
            last = e
            continue
        except (OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        try:
            y = Valuation(L, env).ev(b)
        except Ill:
            y = Ill
        except NoValue as e:
            last = e
            continue
        except (OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        if y is Ill:
            continue      # outside the domain of the specification
        if x is Ill:
            return env, 'no value (access outside a container or division by zero)', y, n
        n += 1
        if not close(x, y):
            return env, x, y, n
    if n == 0 and last is not None:
        raise last
    return None
