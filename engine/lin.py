"""Entailment in the abstract domain: linear inequalities over value numbers (plus products with non-negative
atoms), equalities, and boolean literals. Incomplete by design: answers True, False or None (unknown)."""
from terms import *
from cont import sel as csel, size as csize, size, solve

CACHE = {}


class Prover:
    def __init__(self, uns):
        self.uns = uns  # atoms known to be non-negative
        self.cache = {}
        self.elems = set()  # containers whose elements are unsigned

    def mark_elem(self, c):
        if c not in self.elems:
            self.elems.add(c)

    def elem_nonneg(self, c, d=0):
        if c in self.elems:
            return True
        if d > 6:
            return False
        if c.op in ('store', 'lm', 'perm', 'sorted', 'resized', 'slice', 'dedup'):
            return self.elem_nonneg(c.args[0], d + 1)
        if c.op == 'cat':
            return self.elem_nonneg(c.args[0], d + 1) and self.elem_nonneg(c.args[1], d + 1)
        if c.op == 'ite':
            return self.elem_nonneg(c.args[1], d + 1) and self.elem_nonneg(c.args[2], d + 1)
        if c.op == 'cats':
            return self.elem_nonneg(c.args[2], d + 1)
        return False

    def nonneg_atom(self, a):
        if a.op in ('size', 'k', 'exit', 'max0', 'abs', 'bv', 'fbv', 'first', 'findi', 'argmin', 'argmax'):
            return True
        if a.op == 'sel' and self.elem_nonneg(a.args[0]):
            return True
        if a.op == 'trunc':
            return self.nonneg(a.args[0])
        if a.op in ('idiv', 'imod'):
            return self.nonneg(a.args[0]) and self.nonneg(a.args[1])
        if a.op == 'draw' and a.args[0] == 'uint':
            return True
        if a.op == 'ite':
            return self.nonneg(a.args[1]) and self.nonneg(a.args[2])
        if a.op == 'sum':
            return self.nonneg(a.args[2])
        return a in self.uns

    def nonneg(self, t):
        d = pdict(t)
        for m, c in d.items():
            if c < 0:
                return False
            for a, e in m:
                if not self.nonneg_atom(a):
                    return False
        return True

    def expand(self, facts):
        """facts -> (list of polynomials p with p>=0, list of equalities p==0, literal set)"""
        key = facts
        r = self.cache.get(key)
        if r is not None:
            return r
        ges, eqs, lits = [], [], set()
        for f in facts:
            lits.add(f)
            if f.op == 'ige' or f.op == 'fge':
                ges.append(f.args[0])
            elif f.op == 'fgt':
                ges.append(f.args[0])
            elif f.op == 'eq' and f.args[1] is ZERO:
                eqs.append(f.args[0])
            elif f.op == 'not' and f.args[0].op == 'eq' and f.args[0].args[1] is ZERO:
                # p != 0 and p >= 0 (as a non-negative quantity) gives p >= 1
                p = f.args[0].args[0]
                if self.nonneg(p):
                    ges.append(sub(p, ONE))
                elif self.nonneg(neg(p)):
                    ges.append(sub(neg(p), ONE))
        if len(self.cache) > 4000:
            self.cache.clear()
        self.cache[key] = (ges, eqs, lits)
        return ges, eqs, lits

    def axioms(self, p):
        out = []
        for x in subterms(p):
            if x.op == 'draw' and x.args[0] == 'uint':
                out.append(sub(x, x.args[1]))
                out.append(sub(x.args[2], x))
            elif x.op == 'imod':
                out.append(sub(sub(x.args[1], x), ONE))
            elif x.op == 'idiv':
                # b*(a/b) <= a  and a <= b*(a/b) + b - 1
                out.append(sub(x.args[0], mul(x.args[1], x)))
                out.append(sub(add(mul(x.args[1], x), x.args[1], num(-1)), x.args[0]))
            elif x.op == 'max0':
                out.append(sub(x, x.args[0]))
            elif x.op in ('findi', 'first'):
                out.append(sub(x.args[0], x) if x.op == 'first' else sub(size(x.args[0]), x))
        return out

    def prove(self, c, facts, depth=0):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        key = (c, facts)
        r = self.cache.get(key, 0)
        if r != 0:
            return r
        r = self._prove(c, facts, depth)
        self.cache[key] = r
        return r

    def _prove(self, c, facts, depth):
        fs = set(facts)
        if c in fs:
            return True
        n = b_not(c)
        if n in fs:
            return False
        if c.op == 'and':
            rs = [self.prove(x, facts, depth) for x in c.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if c.op == 'or':
            rs = [self.prove(x, facts, depth) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        k = label_of(c) or (label_of(n) if c.op == 'not' else None)
        if k is not None:
            for f in facts:
                q = label_of(f)
                if q is not None and q[0] is k[0] and q[1] is not k[1]:
                    return c.op == 'not'
        if self._holds(c, facts):
            return True
        if self._holds(n, facts):
            return False
        if depth < 1:
            # unit propagation on disjunctive facts
            for f in facts:
                if f.op == 'or':
                    alive = [x for x in f.args if b_not(x) not in fs]
                    if alive and len(alive) < len(f.args) and len(alive) == 1:
                        r = self.prove(c, frozenset(fs | {alive[0]}), depth + 1)
                        if r is not None:
                            return r
        return None

    def _holds(self, c, facts):
        if c.op == 'ige':
            return self.ge0(c.args[0], facts)
        if c.op == 'eq' and c.args[1] is ZERO:
            p = c.args[0]
            return self.ge0(p, facts) and self.ge0(neg(p), facts)
        if c.op == 'not':
            x = c.args[0]
            if x.op == 'eq' and x.args[1] is ZERO:
                p = x.args[0]
                return self.ge0(sub(p, ONE), facts) or self.ge0(sub(neg(p), ONE), facts)
            if x.op == 'fgt':
                return False
        if c.op == 'fge':
            # p > 0 known gives p >= 0
            if mk('fgt', c.args[0]) in set(facts):
                return True
        if c.op in ('fge', 'fgt', 'pred', 'isnan'):
            alls = [f for f in facts if f.op == 'all']
            return bool(alls) and c in self.instances(alls, c, facts)
        return False

    def ge0(self, p, facts):
        ges, eqs, lits = self.expand(facts)
        ges = ges + self.axioms(p)
        for x in subterms(p):
            # quotients and remainders of non-negative numbers
            if x.op in ('idiv', 'imod') and not self.nonneg_atom(x) and self.nonneg(x.args[1]) \
                    and self.prove(ige(x.args[0]), facts) is True:
                ges.append(x)
        alls = [f for f in lits if f.op == 'all']
        if alls:
            eqs = list(eqs)
            for q in self.instances(alls, p, facts):
                if q.op in ('ige', 'fge', 'fgt'):
                    ges.append(q.args[0])
                elif q.op == 'eq' and q.args[1] is ZERO:
                    eqs.append(q.args[0])
                elif q.op == 'not' and q.args[0].op == 'eq' and q.args[0].args[1] is ZERO:
                    z = q.args[0].args[0]
                    if self.nonneg(z):
                        ges.append(sub(z, ONE))
                    elif self.nonneg(neg(z)):
                        ges.append(sub(neg(z), ONE))
        eqp = []
        for q in eqs:
            eqp.append(q)
            eqp.append(neg(q))
        self.work = 250
        return self._ge0(p, ges + eqp, 6, set())

    def instances(self, alls, p, facts):
        """universal facts at the element reads of p"""
        out = []
        want = [x for x in subterms(p) if x.op == 'sel']
        if not want:
            return out
        for f in alls:
            n, b, body = f.args
            if height(body) > 0 and False:
                continue
            cands = set()
            for s in subterms(body):
                if s.op == 'sel' and b in syms(s.args[1]) and b not in syms(s.args[0]):
                    for w in want:
                        if w.args[0] is s.args[0]:
                            i = solve(s.args[1], b, w.args[1])
                            if i is not None:
                                cands.add(i)
            for i in cands:
                if len(out) > 40:
                    return out
                key = ('inst', f, i, facts)
                r = self.cache.get(key)
                if r is None:
                    self.cache[key] = ()
                    inr = self.prove(ige(i), facts) is True and self.prove(ige(sub(sub(n, i), ONE)), facts) is True
                    r = ()
                    if inr:
                        q = subst(body, {b: i})
                        r = q.args if q.op == 'and' else (q,)
                    self.cache[key] = r
                out.extend(r)
        return out

    def _ge0(self, p, ges, fuel, seen):
        if p in seen:
            return False
        seen.add(p)
        # case split on one ite atom
        for a in {x for m, _ in pdict(p).items() for x, _ in m if x.op == 'ite'}:
            if fuel <= 0:
                break
            return (self._ge0(subst(p, {a: a.args[1]}), ges, fuel - 1, set())
                    and self._ge0(subst(p, {a: a.args[2]}), ges, fuel - 1, set()))
        if self.nonneg(p):
            return True
        if fuel <= 0:
            return False
        self.work -= 1
        if self.work <= 0:
            return False
        d = pdict(p)
        best = None
        for m, c in d.items():
            if c >= 0 and all(self.nonneg_atom(a) for a, _ in m):
                continue
            cand = []
            for q in ges:
                qd = pdict(q)
                qc = qd.get(m)
                if qc is not None and c / qc > 0:
                    cand.append((q, c / qc, None))
                for qm, qc2 in qd.items():
                    if c / qc2 <= 0 or qm == m or not qm:
                        continue
                    mult = _mono_div(m, qm)
                    if mult and all(self.nonneg_atom(a) for a, _ in mult):
                        cand.append((q, c / qc2, mult))
            if best is None or len(cand) < len(best):
                best = cand
                if not cand:
                    return False
        for q, k, mult in best or ():
            if mult:
                q = mul(q, from_pdict({mult: Fraction(1)}))
            if self._ge0(sub(p, scale(q, k)), ges, fuel - 1, seen):
                return True
        return False


def _mono_div(m, q):
    d = dict(m)
    for a, e in q:
        if d.get(a, 0) < e:
            return None
        d[a] -= e
    return tuple((a, e) for a, e in d.items() if e)
