"""Loop summaries. The set of locations a loop changes is found by iterating its body on an abstract head state; each
changed location gets a recurrence, which is solved in closed form when it is an induction variable, an accumulation, an
elementwise update, an append or a constant; everything else stays an opaque per-iteration value."""
from terms import *
from cont import *
from fractions import Fraction

LUID = {}


def luid_of(*key):
    if key not in LUID:
        LUID[key] = len(LUID) + 1
    return LUID[key]


class Holder:
    """target of break / continue statements"""

    def __init__(self):
        self.breaks = []
        self.conts = []


PHIS = ('phi', 'bphi')


def phi_for(init, luid, key, ka, keepsize):
    """abstract per-iteration value with the shape of its initial value"""
    if init is None:
        return mk('phi', luid, key, ka, 0)
    if init.op in ('ptr', 'rptr'):
        return mk(init.op, init.args[0], mk('phi', luid, key + ('off',), ka, 0))
    if is_bool(init):
        return mk('bphi', luid, key, ka)
    sz = 0
    if keepsize and init.op in ('tab', 'list', 'cat', 'store', 'lm', 'resized', 'perm', 'cats', 'phi', 'slice'):
        sz = size(init)
    elif keepsize and init.op in ('fld', 'sel', 'init'):
        sz = mk('size', init)
    return mk('phi', luid, key, ka, sz)


def diff(h, e, path, out):
    if h is e:
        return
    if h is not None and e is not None:
        bh, fh = (h.args[0], dict(h.args[1])) if h.op == 'rec' else (h, {})
        be, fe = (e.args[0], dict(e.args[1])) if e.op == 'rec' else (e, {})
        if bh is be and (h.op == 'rec' or e.op == 'rec'):
            for f in sorted(set(fh) | set(fe)):
                x = fh.get(f)
                y = fe.get(f)
                if x is None:
                    x = fld(bh, f)
                if y is None:
                    y = fld(be, f)
                diff(x, y, path + (f,), out)
            return
    out.add(path)


def getp(v, path):
    for f in path:
        v = fld(v, f)
    return v


def setp(v, path, x):
    if not path:
        return x
    return upd(v, path[0], setp(fld(v, path[0]), path[1:], x))


def run_loop(ip, node, st, cnd, body, inc, post, trip, tag):
    from absint import LoopCtx, Dead, St, LV, Stop
    fk = ip.frame.key
    un = []
    lx = ip.loop
    while lx is not None:
        if lx.kappa.op == 'num':
            un.append(lx.kappa.args[0])
        lx = lx.up
    luid = luid_of(id(node), fk.id, tag, *un)
    kap = mk('k', luid)
    if trip is not None and ip.prove(eq(trip, ZERO), st) is True:
        return True
    if not post:
        r = try_unroll(ip, node, st, cnd, body, inc, trip, luid)
        if r is not None:
            return r
    outer = ip.kargs()
    ka = outer + (kap,)
    lc = LoopCtx(luid, kap, ip.loop)
    savloop, savbrk, savrec = ip.loop, ip.brk, ip.rec
    fr = ip.frame

    mark = (len(ip.events), ip.throws, len(ip.throws), len(ip.unknowns), len(fr.rets))

    def once(head):
        """one iteration from head; returns (condition, end state or None, holder, states of returns, cond-exit).
        What an earlier pass recorded is dropped: only the last pass, on the final head state, counts."""
        del ip.events[mark[0]:]
        if ip.throws is mark[1]:
            del ip.throws[mark[2]:]
        del ip.unknowns[mark[3]:]
        del fr.rets[mark[4]:]
        ip.loop, ip.brk = lc, Holder()
        nr = len(fr.rets)
        h = ip.brk
        s = head.copy()
        c = TRUE
        end = None
        try:
            dead = False
            if trip is not None:
                ip.assume(s, lt(kap, trip, True))
            elif not post:
                try:
                    c = cnd(s)
                except Dead:
                    dead = True
            if not dead:
                cx = s.copy()
                if not ip.assume(s, c):
                    dead = True
            else:
                cx = None
            if not dead and body(s):
                h.conts.append(s)
            e = ip.merge_all(h.conts, node)
            if e is not None:
                try:
                    if inc is not None:
                        inc(e)
                    if post:
                        c = cnd(e)
                        cx = e.copy()
                        if not ip.assume(e, c):
                            cx2 = cx
                            e = None
                except Dead:
                    e = None
            end = e
        finally:
            ip.loop, ip.brk, ip.rec = savloop, savbrk, savrec
        return c, end, h, fr.rets[nr:], cx

    A = dict(ip.loopA.get(luid, {}))      # (root, path) -> keepsize
    A = {k: v for k, v in A.items() if k[0] in st.mem or k[0].op in ('obj', 'glob', 'ghost')}
    solved = {}                           # (root, path) -> closed form in kap

    def init_val(k):
        v = st.mem.get(k[0])
        if v is None:
            v = mk('init', k[0])
        return getp(v, k[1])

    def head_state():
        s = st.copy()
        for (root, path), keep in A.items():
            i = init_val((root, path))
            v = solved.get((root, path))
            if v is None:
                v = phi_for(i, luid, (root.id,) + path, ka, keep)
            old = s.mem.get(root)
            if old is None:
                old = mk('init', root)
            s.mem[root] = setp(old, path, v)
        return s

    rounds = 0
    while True:
        rounds += 1
        if rounds > 14:
            solved = {}
        H = head_state()
        c, E, h, rets, cx = once(H)
        if rounds > 20:
            break
        if E is None:
            # the body never comes back to the head
            break
        changed = False
        # 1. newly changed locations, and those whose current description is not what the body re-establishes
        for root in list(E.mem):
            if root not in H.mem and root.op not in ('obj', 'glob', 'ghost'):
                continue
            a = H.mem.get(root)
            if a is None:
                a = mk('init', root)
            out = set()
            diff(a, E.mem[root], (), out)
            for p in out:
                pre = [q for (r2, q) in A if r2 is root and p[:len(q)] == q]
                if pre:
                    continue
                for (r2, q) in list(A):
                    if r2 is root and q[:len(p)] == p:
                        del A[(r2, q)]
                        solved.pop((r2, q), None)
                A[(root, p)] = True
                changed = True
        if changed:
            solved = {}
            continue
        # 2. sizes
        for k in list(A):
            if k in solved or not A[k]:
                continue
            root, path = k
            hv = getp(H.mem[root], path)
            ev = getp(E.mem[root], path)
            if hv.op == 'phi' and len(hv.args) >= 4 and isinstance(hv.args[3], T) and ev is not hv:
                d = size(ev)
                if d is not size(hv) and ip.prove(eq(d, size(hv)), E) is not True:
                    A[k] = False
                    changed = True
        if changed:
            continue
        # 3. solve more recurrences
        progress = False
        for k in sorted(A, key=lambda x: (x[0].id, x[1])):
            if k in solved:
                continue
            root, path = k
            hv = getp(H.mem[root], path)
            ev = getp(E.mem[root], path)
            if hv is ev and True:
                continue
            r = solve_rec(ip, init_val(k), hv, ev, kap, luid, E)
            if r is not None:
                solved[k] = r
                progress = True
        if not progress:
            break
    ip.loopA[luid] = dict(A)
    recs = []
    if E is not None:
        for (root, path) in A:
            recs.append((root, path, init_val((root, path)), getp(H.mem[root], path),
                         getp(E.mem.get(root, H.mem[root]), path)))
    # trip count
    T_ = trip
    exact = trip is not None
    if T_ is None and not post:
        T_ = trip_of(ip, c, kap, st)
        exact = T_ is not None
        if h.breaks or rets:
            pass
    if T_ is None:
        T_ = mk('exit', luid, outer)
    chain = []
    lx = ip.loop
    while lx is not None:
        if lx.kappa.op == 'k':
            chain.append(lx.kappa.args[0])
        else:
            chain.append(None)
        lx = lx.up
    ip.loopinfo[luid] = dict(node=node, fn=fr.fn, trip=T_, exact=exact, recs=recs, kap=kap, cond=c, early=None,
                             chain=tuple(reversed(chain)), post=post)
    early = []
    basefacts = H.facts
    if h.breaks or rets:
        for i, s in enumerate(h.breaks):
            early.append((s, None))
        for i in range(len(fr.rets) - len(rets), len(fr.rets)):
            early.append((fr.rets[i][0], i))
    outs = []
    anyearly = FALSE
    if early:
        conds = []
        for s, i in early:
            new = [f for f in s.facts - basefacts if f is not c and not (trip is not None and f is lt(kap, trip, True))]
            new = [f for f in new if not (c.op == 'and' and f in c.args)]
            if E is not None:       # what going on needs as well does not tell leaving from going on
                new = [f for f in new if f not in E.facts]
            cc = b_and(*new) if new else TRUE
            if E is not None:       # a condition under which the one leaves and the other goes on
                g = ip.gate(s, E)
                later = early[len(conds) + 1:]
                if g.op != 'alt' and all(b_not(g) in q.facts for q, _ in later):
                    cc = g
            conds.append(cc)
        allc = b_or(*conds)
        ip.loopinfo[luid]['early'] = allc
        clean = E is not None and not any(x.op in PHIS and x.args[0] == luid for x in syms(allc))
        if E is None:
            first = ZERO
            anyearly = TRUE if not (c not in (TRUE,) or trip is not None) else b_not(eq(T_, ZERO)) if exact else \
                subst(c, {kap: ZERO})
        elif clean and exact and not any(x is kap for x in syms(T_)):
            first = first_(T_, kap, allc)
            anyearly = any_(T_, kap, allc)
        else:
            first = mk('exit', luid, outer + (ONE,))
            anyearly = mk('pred', 'early', luid, outer)
        m = {kap: first}
        prev = FALSE
        for (s, i), cc in zip(early, conds):
            fs = set()
            for f in s.facts:
                if f in basefacts:
                    fs.add(f)
                else:
                    g = subst(f, m)
                    if g is not TRUE:
                        fs.add(g)
            fs.add(anyearly)
            if 1 < len(early) <= 6 and (not h.breaks or all(x[1] is None for x in early)):
                for cj in conds:        # the first way out whose condition holds is taken
                    g = subst(cj, m) if cj is cc else b_not(subst(cj, m))
                    if g is not FALSE:
                        fs.add(g)
                    if cj is cc:
                        break
            fs.discard(TRUE)
            mem = {r: subst(v, m) for r, v in s.mem.items() if r in st.mem or r.op in ('obj', 'glob', 'ghost', 'tmp')
                   or i is not None}
            ns = St(mem, frozenset(fs))
            if i is None:
                outs.append(ns)
            else:
                old = fr.rets[i]
                v = old[1]
                fr.rets[i] = (ns, subst(v, m), old[2])
    # normal exit
    norm = None
    if post:
        if cx is not None:
            last = T_ if exact else mk('exit', luid, outer)
            m = {kap: last}
            mem = {r: subst(v, m) for r, v in cx.mem.items() if r in st.mem or r.op in ('obj', 'glob', 'ghost')}
            fs = {f if f in basefacts else subst(f, m) for f in cx.facts}
            fs.discard(TRUE)
            norm = St(mem, frozenset(fs))
            if not ip.assume(norm, b_not(subst(c, m))):
                norm = None
    else:
        m = {kap: T_}
        src = H
        mem = {r: subst(v, m) for r, v in src.mem.items()}
        norm = St(mem, basefacts)
        if trip is None:
            rec_, ip.rec = ip.rec, False
            try:
                c2 = cnd(norm)
                if not exact:
                    if not ip.assume(norm, b_not(c2)):
                        norm = None
                else:
                    ip.assume(norm, b_not(c2))
            except Dead:
                norm = None
            finally:
                ip.rec = rec_
        if norm is not None and E is not None:
            # what every completed iteration guarantees
            fs = set(norm.facts)
            for f in E.facts - basefacts:
                if f is c or any(x.op in PHIS and x.args[0] == luid for x in syms(f)):
                    continue
                if c.op == 'and' and f in c.args:
                    continue
                if trip is not None and f is lt(kap, trip, True):
                    continue
                if any(x.op == 'alt' for x in syms(f)):
                    continue
                g = all_(T_, kap, f)
                if g is not TRUE and g is not FALSE:
                    fs.add(g)
                    if g.op == 'and':
                        fs |= set(g.args)
            norm.facts = frozenset(fs)
    if norm is not None and anyearly is not FALSE:
        if not ip.assume(norm, b_not(anyearly)):
            norm = None
    if norm is not None:
        outs.append(norm)
    if not outs:
        return False
    res = outs[-1]
    for s in reversed(outs[:-1]):
        if res is norm:
            res = ip.merge(s, res, anyearly)
        else:
            res = ip.merge(s, res, None, node)
    st.become(res)
    return True


def try_unroll(ip, node, st, cnd, body, inc, trip, luid):
    """loops whose trip count is a small constant are expanded"""
    LIM = 8
    if trip is not None:
        if not (trip.op == 'num' and 0 <= trip.args[0] <= LIM):
            return None
        return _unroll(ip, st, None, body, inc, int(trip.args[0]))
    if luid in NOUNROLL:
        return None
    from absint import Dead, St
    # dry run without facts: only literal constants may decide the guard
    savrec = ip.rec
    nr = len(ip.frame.rets)
    ip.rec = False
    ok = False
    savbrk = ip.brk
    try:
        s = st.copy()
        for it in range(LIM + 1):
            s2 = St(dict(s.mem))
            c = cnd(s2)
            if c is FALSE:
                ok = True
                break
            if c is not TRUE:
                break
            if it == LIM:
                break
            h = Holder()
            ip.brk = h
            cnd(s)
            live = body(s)
            ip.brk = savbrk
            if live:
                h.conts.append(s)
            if not h.conts:
                ok = True
                break
            s = ip.merge_all(h.conts, node)
            if inc is not None:
                inc(s)
    except Dead:
        ok = False
    finally:
        ip.rec = savrec
        ip.brk = savbrk
        del ip.frame.rets[nr:]
    if not ok:
        NOUNROLL.add(luid)
        return None
    return _unroll(ip, st, cnd, body, inc, None)


NOUNROLL = set()


def _unroll(ip, st, cnd, body, inc, n):
    from absint import St, LoopCtx
    outs = []
    it = 0
    savbrk, savloop = ip.brk, ip.loop
    s = st.copy()
    live = True
    try:
        while True:
            ip.loop = LoopCtx(0, num(it), savloop)
            if n is not None:
                if it >= n:
                    break
            else:
                c = cnd(s)
                if c is FALSE:
                    break
            h = Holder()
            ip.brk = h
            ok = body(s)
            ip.brk = savbrk
            if ok:
                h.conts.append(s)
            outs += h.breaks
            if not h.conts:
                live = False
                break
            s = ip.merge_all(h.conts, None)
            if inc is not None:
                inc(s)
            it += 1
    finally:
        ip.brk, ip.loop = savbrk, savloop
    if live:
        outs.append(s)
    if not outs:
        return False
    st.become(ip.merge_all(outs, None))
    return True


# ------------------------------------------------------------------ recurrences
def phis_of(t, luid):
    return {x for x in syms(t) if x.op in PHIS and x.args[0] == luid}


def solve_rec(ip, init, phi, N, kap, luid, E):
    """closed form of the head value in terms of kap, or None"""
    if phi.op in ('ptr', 'rptr') and N.op == phi.op and N.args[0] is phi.args[0]:
        r = solve_rec(ip, init.args[1], phi.args[1], N.args[1], kap, luid, E)
        return mk(phi.op, phi.args[0], r) if r is not None else None
    if phi.op not in PHIS:
        return None
    ps = phis_of(N, luid)
    km1 = {kap: sub(kap, ONE)}
    if not ps:
        prev = subst(N, km1)
        if subst(prev, {kap: ZERO}) is init:
            return prev
        if prev is init:
            return init
        return ite(eq(kap, ZERO), init, prev)
    if ps != {phi}:
        return None
    if phi.op == 'bphi':
        return solve_bool(init, phi, N, kap)
    r = solve_num(ip, init, phi, N, kap)
    if r is not None:
        return r
    r = solve_str(init, phi, N, kap)
    if r is not None:
        return r
    return solve_cont(ip, init, phi, N, kap, E)


def delta(N, phi):
    if N.op == 'ite' and phi not in syms(N.args[0]):
        a, b = delta(N.args[1], phi), delta(N.args[2], phi)
        if a is None or b is None:
            return None
        return ite(N.args[0], a, b)
    if N.op not in ('poly', 'phi', 'num', 'ite'):
        return None
    d = sub(N, phi)
    if phi in syms(d):
        return None
    return d


def factor(N, phi):
    if N.op == 'ite' and phi not in syms(N.args[0]):
        a, b = factor(N.args[1], phi), factor(N.args[2], phi)
        if a is None or b is None:
            return None
        return ite(N.args[0], a, b)
    if N is phi:
        return ONE
    if N.op != 'poly':
        return None
    d = {}
    for m, c in N.args[0]:
        md = dict(m)
        if md.get(phi) != 1:
            return None
        del md[phi]
        if any(phi in syms(a) for a in md):
            return None
        d[tuple(sorted(md.items(), key=lambda x: x[0].id))] = c
    return from_pdict(d)


def solve_num(ip, init, phi, N, kap):
    if init.op in ('str', 'strcat', 'list', 'tab', 'cat', 'rec', 'store', 'lm', 'cats', 'sjoin', 'none', 'some', 'null'):
        return None
    d = delta(N, phi)
    if d is not None:
        if kap not in syms(d):
            return add(init, mul(d, kap))
        return add(init, sum_(kap, fresh(kap, d), fresh.body))
    f = factor(N, phi)
    if f is not None:
        return mul(init, prod_(kap, fresh(kap, f), fresh.body))
    # running minimum / maximum
    return None


def fresh(kap, e):
    v = fresh_var()
    fresh.body = subst(e, {kap: v})
    return v


def solve_bool(init, phi, N, kap):
    def pat(N, op, other):
        if N.op == op:
            rest = [x for x in N.args if x is not phi]
            if len(rest) == len(N.args) - 1 and all(phi not in syms(x) for x in rest):
                return (b_or if op == 'or' else b_and)(*rest)
        return None
    c = pat(N, 'or', None)
    if c is not None:
        v = fresh(kap, c)
        return b_or(init, any_(kap, v, fresh.body))
    c = pat(N, 'and', None)
    if c is not None:
        v = fresh(kap, c)
        return b_and(init, all_(kap, v, fresh.body))
    return None


def pre_suf(N, phi):
    if N is phi:
        return s_lit(''), s_lit('')
    if N.op == 'ite' and phi not in syms(N.args[0]):
        a, b = pre_suf(N.args[1], phi), pre_suf(N.args[2], phi)
        if a is None or b is None:
            return None
        return ite(N.args[0], a[0], b[0]), ite(N.args[0], a[1], b[1])
    if N.op == 'strcat':
        ix = [i for i, x in enumerate(N.args) if x is phi]
        if len(ix) == 1 and all(phi not in syms(x) for x in N.args if x is not phi):
            i = ix[0]
            return strcat(*N.args[:i]), strcat(*N.args[i + 1:])
        # a choice at the very start or end of the concatenation
        ix = [i for i, x in enumerate(N.args) if phi in syms(x)]
        if len(ix) == 1:
            i = ix[0]
            r = pre_suf(N.args[i], phi)
            if r is not None:
                return strcat(*(N.args[:i] + (r[0],))), strcat(*((r[1],) + N.args[i + 1:]))
    return None


def solve_str(init, phi, N, kap):
    if N.op not in ('strcat', 'ite'):
        return None
    if not (N.op == 'strcat' or any(x.op == 'strcat' for x in subterms(N))):
        return None
    r = pre_suf(N, phi)
    if r is None:
        return None
    pre, suf = r
    v = fresh(kap, suf)
    sj = sjoin(kap, v, fresh.body)
    v = fresh(kap, pre)
    pj = sjoinr(kap, v, fresh.body)
    return strcat(pj, init, sj)


def appended(N, phi):
    if N is phi:
        return mk('list')
    if N.op == 'ite' and phi not in syms(N.args[0]):
        a, b = appended(N.args[1], phi), appended(N.args[2], phi)
        if a is None or b is None:
            return None
        return ite(N.args[0], a, b)
    if N.op == 'cat':
        x = appended(N.args[0], phi)
        if x is None or phi in syms(N.args[1]):
            return None
        return cat(x, N.args[1])
    return None


def updates(N, phi, cond=TRUE):
    """N as a list of guarded stores on phi, innermost first, or None"""
    if N is phi:
        return []
    if N.op == 'store':
        r = updates(N.args[0], phi, cond)
        if r is None:
            return None
        return r + [('s', cond, N.args[1], N.args[2], N.args[0])]
    if N.op == 'lm':
        r = updates(N.args[0], phi, cond)
        if r is None:
            return None
        return r + [('l', cond, N)]
    if N.op == 'ite' and phi not in syms(N.args[0]):
        a = updates(N.args[1], phi, b_and(cond, N.args[0]))
        b = updates(N.args[2], phi, b_and(cond, b_not(N.args[0])))
        if a is None or b is None:
            return None
        return a + b
    return None


def lin_in(idx, kap):
    """(coefficient, rest) when idx == coefficient*kap + rest with both free of kap"""
    co, rest = {}, {}
    for m, c in pdict(idx).items():
        md = dict(m)
        if kap in md:
            if md[kap] != 1:
                return None
            del md[kap]
            if any(kap in syms(a) for a in md):
                return None
            co[tuple(sorted(md.items(), key=lambda x: x[0].id))] = c
        else:
            if any(kap in syms(a) for a in md):
                return None
            rest[m] = c
    if not co:
        return None
    return from_pdict(co), from_pdict(rest)


def solve_cont(ip, init, phi, N, kap, E):
    x = appended(N, phi)
    if x is not None:
        v = fresh(kap, x)
        return cat(init, cats(kap, v, fresh.body))
    us = updates(N, phi)
    if not us:
        return None
    if all(u[0] == 's' for u in us):
        return solve_stores(ip, init, phi, us, kap, E)
    if len(us) == 1 and us[0][0] == 'l' and us[0][1] is TRUE:
        # a block of n elements written at a start that advances by n: one long run of writes
        _, b, n, idx, val = us[0][2].args
        if kap in syms(n):
            return None
        v = fresh_var()
        idx = subst(idx, {b: v})
        val = subst(val, {b: v})
        li = lin_in(idx, v)
        if li is None or li[0] is not ONE:
            return None
        lk = lin_in(li[1], kap)
        if lk is None:
            return None
        if phi in syms(val):
            val2 = subst(val, {mk('sel', phi, idx): sel(init, idx, ip.prover(E))})
            if phi in syms(val2):
                return None
            val = val2
        if lk[0] is n:
            # element base + j with j = kap*n + v
            w = fresh_var()
            kk = idiv(w, n)
            vv = imod(w, n)
            val = subst(val, {kap: kk, v: vv})
            return lm(init, w, mul(kap, n), add(lk[1], w), val)
    return None


def iscont(t):
    return t.op in ('tab', 'list', 'cat', 'store', 'lm', 'resized', 'perm', 'cats', 'sel', 'fld', 'init', 'slice')


def solve_stores(ip, init, phi, us, kap, E):
    """all writes of one iteration go to one index that is linear in the iteration (or the cases of a choice)"""
    idxs = {u[2] for u in us}
    if len(idxs) != 1:
        # several distinct linear indices with a common stride: consecutive elements of one block
        return None
    idx = next(iter(idxs))
    if phi in syms(idx):
        return None
    if kap not in syms(idx):
        # always the same element: a recurrence of that element
        old = mk('sel', phi, idx)
        val = old
        for _, c, i, v, basev in us:
            val = v if c is TRUE else ite(c, v, val)
        i0 = sel(init, idx, ip.prover(E))
        sub_phi = mk('bphi' if is_bool(i0) else 'phi', phi.args[0], phi.args[1] + (('at', idx.id),), phi.args[2],
                     *(() if is_bool(i0) else (size(i0) if iscont(i0) else 0,)))
        n2 = subst(val, {old: sub_phi})
        if phi in syms(n2):
            return None
        r = solve_rec(ip, i0, sub_phi, n2, kap, phi.args[0], E)
        return store(init, idx, r) if r is not None else None
    li = lin_in(idx, kap)
    if li is None:
        return None
    old = mk('sel', phi, idx)
    val = old
    for _, c, i, v, basev in us:
        if c is TRUE:
            val = v
        else:
            val = ite(c, v, val)
    first = sel(init, idx, ip.prover(E))
    if phi in syms(val):
        v2 = subst(val, {old: first})
        if phi in syms(v2):
            # reads of the element through the earlier store of the same iteration
            return None
        val = v2
    w = fresh(kap, val)
    valb = fresh.body
    return lm(init, w, kap, subst(idx, {kap: w}), valb)


def trip_of(ip, c, kap, st):
    """number of iterations when the guard at the head of iteration kap is c"""
    if c is FALSE:
        return ZERO
    if c.op == 'ige':
        p = c.args[0]
        li = lin_in(p, kap)
        if li is None:
            return None
        a, r = li
        if a.op != 'num':
            d = neg(a)
            if ip.prove(ige(sub(d, ONE)), st) is True and ip.prove(ige(r), st) is True:
                return steps(ip, st, add(r, ONE), d)
            return None
        if a.args[0] >= 0:
            return None
        k = -a.args[0]
        # r - k*kap >= 0  <=>  kap <= r/k
        if k == 1:
            n = add(r, ONE)
        else:
            if k.denominator != 1:
                return None
            n = add(idiv(r, num(k)), ONE) if ip.prove(ige(r), st) is True else None
            if n is None:
                return None
        if ip.prove(ige(n), st) is True:
            return n
        return max0(n)
    if c.op == 'not' and c.args[0].op == 'eq' and c.args[0].args[1] is ZERO:
        p = c.args[0].args[0]
        li = lin_in(p, kap)
        if li is None:
            return None
        a, r = li
        if a.op != 'num':
            # stride given by an expression: r + a*kap = 0
            n = neg(fdiv(r, a))
            if all(e > 0 for m, cc in pdict(n).items() for _, e in m):
                return n
            return None
        n = scale(r, -1 / a.args[0])
        return n
    return None


def steps(ip, st, span, d):
    """number of strides of length d that cover span (> 0)"""
    if d is ONE:
        return span
    if d.op == 'idiv' and d.args[0] is span and ip.prove(eq(imod(span, d.args[1]), ZERO), st) is True:
        return d.args[1]
    return add(idiv(sub(span, ONE), d), ONE)


def max0(n):
    if n.op == 'num':
        return n if n.args[0] >= 0 else ZERO
    return mk('max0', n)


NORM['max0'] = max0
