"""Abstract interpreter over the resolved syntax trees: global value numbering with gated merges, loop recurrences in
closed form (scalar evolution, accumulation, elementwise update, append) and a fact set per program point. Joins merge
states (no path enumeration), loops are summarised by fixpoint over the set of changed locations, calls to library
functions are analysed in their calling context."""
from terms import *
from cont import *
import os
import cont
import lin
from core import AnalysisError, strip, kids, walk


class Dead(Exception):
    """no normal continuation"""


class Stop(Exception):
    pass


LV = lambda root, path=(): mk('lv', root, path)
NOFACTS = frozenset()


class St:
    __slots__ = ('mem', 'facts')

    def __init__(self, mem=None, facts=NOFACTS):
        self.mem = mem if mem is not None else {}
        self.facts = facts

    def copy(self):
        return St(dict(self.mem), self.facts)

    def become(self, o):
        self.mem = o.mem
        self.facts = o.facts


class Event:
    __slots__ = ('kind', 'data', 'node', 'fn', 'facts', 'stack', 'frame', 'mem')

    def __init__(self, kind, data, node, fn, facts, stack, mem=None):
        self.kind = kind
        self.data = data
        self.node = node
        self.fn = fn
        self.facts = facts
        self.stack = stack
        self.mem = mem

    @property
    def where(self):
        return self.fn.where(self.node) if self.fn else ''

    def __repr__(self):
        return '<%s %s @%s>' % (self.kind, self.data, self.where)


class Frame:
    def __init__(self, fn, key, this, dyncls, up):
        self.fn = fn
        self.key = key
        self.this = this       # lv of *this or None
        self.dyncls = dyncls
        self.up = up
        self.rets = []
        self.caps = {}         # captured variable id -> lv
        self.retref = False


class Parallel:
    """A section run by several threads at once: what the parts share is everything older than the section."""
    def __init__(self, ip, kappa, node):
        self.base = ip.frame.key
        self.fn = ip.frame.fn
        self.kappa = kappa
        self.node = node
        self.up = ip.par
        self.depth = len(ip.held)

    def private(self, root):
        if root.op not in ('v', 'tmp'):
            return False
        k = [a for a in root.args if isinstance(a, T) and a.op == 'fr']
        k = k[0] if k else None
        while k is not None and isinstance(k, T) and k.op == 'fr':
            if k is self.base:
                return root.op == 'tmp'
            k = k.args[0][0]
            if k is self.base:
                return True
        return False

    def access(self, ip, how, root, path, node):
        if self.private(root):
            return
        if root.op == 'ref' or root.op == 'ghost':
            return
        held = frozenset(l for l in ip.held[self.depth:] if not (l.op == 'lv' and self.private(l.args[0])))
        fn = ip.frame.fn if ip.frame else None
        ip.parlog.append((self, how, root, path, held, fn, node))


class LoopCtx:
    def __init__(self, luid, kappa, up):
        self.luid = luid
        self.kappa = kappa
        self.up = up
        self.breaks = []
        self.conts = []


def isref(t):
    return t.endswith('&')


def base_type(t):
    t = t.strip()
    while True:
        if t.endswith('&'):
            t = t[:-1].strip()
        elif t.startswith('const '):
            t = t[6:]
        elif t.endswith(' const'):
            t = t[:-6]
        else:
            return t


INT_T = {'int', 'unsigned int', 'unsigned long', 'long', 'unsigned short', 'short', 'unsigned long long', 'long long',
         'char', 'unsigned char', 'signed char'}


def is_int_t(t):
    t = base_type(t)
    return t in INT_T


def is_uns_t(t):
    t = base_type(t)
    return t.startswith('unsigned') and t in INT_T


def is_float_t(t):
    return base_type(t) in ('double', 'float', 'long double')


def is_vec_t(t):
    return base_type(t).startswith('std::vector<') and not base_type(t).endswith('*')


def vec_elem_t(t):
    t = base_type(t)
    i = t.find('<') + 1
    d = 0
    for j in range(i, len(t)):
        c = t[j]
        if c in '<(':
            d += 1
        elif c in '>)':
            if d == 0:
                return t[i:j]
            d -= 1
        elif c == ',' and d == 0:
            return t[i:j]
    return ''


def is_str_t(t):
    t = base_type(t)
    return t.startswith('std::basic_string<') or t == 'std::string'


def is_ptr_t(t):
    t = base_type(t)
    return t.endswith('*') or t.startswith('__gnu_cxx::__normal_iterator<') or 'reverse_iterator' in t


class Interp:
    MAXDEPTH = 24

    def __init__(self, prog, opaque=()):
        self.p = prog
        self.uns = set()
        self.pr = lin.Prover(self.uns)
        self.frame = None
        self.loop = None
        self.events = []
        self.rec = True
        self.throws = []
        self.hooks = []
        self.held = []         # locks held at this point
        self.par = None        # the parallel section being analysed
        self.parlog = []       # accesses to what the parts of parallel sections share
        self.vtypes = {}
        self.loopA = {}
        self.loopinfo = {}
        self.opaque = set(opaque)
        self.unknowns = []
        self.kinds = {}
        self.tmpn = 0
        self.budget = 400000
        self.steps = 0
        self.nodeno = {}
        self.lossy = False
        from stdmodel import Std
        self.std = Std(self)

    # -------------------------------------------------------------- small helpers
    def nid(self, n):
        return id(n)

    def kargs(self):
        out = []
        l = self.loop
        while l is not None:
            out.append(l.kappa)
            l = l.up
        return tuple(reversed(out))

    def prove(self, c, st):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        return self.pr.prove(c, st.facts)

    def prover(self, st):
        return lambda c: self.prove(c, st)

    def event(self, kind, data, node, st):
        if not self.rec:
            return
        s = []
        f = self.frame
        while f is not None:
            s.append(f.fn.qual if f.fn else '?')
            f = f.up
        e = Event(kind, data, node, self.frame.fn if self.frame else None, st.facts, tuple(s))
        e.mem = st.mem if kind in ('call', 'write') else None
        self.events.append(e)

    def unknown(self, what, node):
        if self.rec:
            self.unknowns.append((what, self.frame.fn.where(node) if self.frame and self.frame.fn else ''))
        return unk(what)

    def tmp(self, node, tag=''):
        return mk('tmp', self.nid(node), self.frame.key if self.frame else 0, tag)

    # -------------------------------------------------------------- memory
    def load(self, st, lv):
        if lv.op == 'ite':
            return ite(lv.args[0], self.load(st, lv.args[1]), self.load(st, lv.args[2]))
        if lv.op == 'val':
            return lv.args[0]
        if lv.op != 'lv':
            return unk('load')
        root, path = lv.args
        if self.par is not None:
            self.par.access(self, 'read', root, path, None)
        v = st.mem.get(root)
        if v is None:
            v = mk('init', root)
        r = self.getpath(v, path, st)
        while r.op == 'ite':
            if r.args[0] in st.facts:
                r = r.args[1]
            elif b_not(r.args[0]) in st.facts:
                r = r.args[2]
            else:
                break
        return r

    def getpath(self, v, path, st):
        for e in path:
            if e[0] == 'f':
                v = fld(v, e[1])
            elif e[0] == 'i':
                v = self.sel(v, e[1], st)
            else:
                v = mk('fld', v, e)
        return v

    def sel(self, c, i, st):
        r = sel(c, i, self.prover(st))
        return r

    def store_path(self, v, path, x, st):
        if not path:
            return x
        e = path[0]
        if e[0] == 'f':
            return upd(v, e[1], self.store_path(fld(v, e[1]), path[1:], x, st))
        if e[0] == 'i':
            old = self.sel(v, e[1], st) if len(path) > 1 else None
            return store(v, e[1], self.store_path(old, path[1:], x, st) if len(path) > 1 else x)
        return unk('path')

    def assign(self, st, lv, v, node=None, how='='):
        if lv.op == 'ite':
            c, a, b = lv.args
            sa = st.copy()
            self.assign(sa, a, v, node, how)
            sb = st.copy()
            self.assign(sb, b, v, node, how)
            st.mem = self.merge_mem(c, sa.mem, sb.mem)
            return
        if lv.op == 'val':
            return
        if lv.op != 'lv':
            self.lossy = True
            self.unknown('write through unknown location', node)
            return
        root, path = lv.args
        for h in self.hooks:
            h(self, st, lv, v, node, how)
        if self.par is not None:
            self.par.access(self, 'write', root, path, node)
        self.event('write', (lv, v, how), node, st)
        old = st.mem.get(root)
        if old is None:
            old = mk('init', root)
        st.mem[root] = self.store_path(old, path, v, st)

    def sub_lv(self, lv, elem):
        if lv.op == 'lv':
            return mk('lv', lv.args[0], lv.args[1] + (elem,))
        if lv.op == 'ite':
            return ite(lv.args[0], self.sub_lv(lv.args[1], elem), self.sub_lv(lv.args[2], elem))
        if lv.op == 'val':
            v = lv.args[0]
            return mk('val', fld(v, elem[1]) if elem[0] == 'f' else sel(v, elem[1]))
        return lv

    def index_lv(self, lv, off):
        """element lv of the container at lv"""
        return self.sub_lv(lv, ('i', off))

    # -------------------------------------------------------------- merging
    def merge_mem(self, c, a, b):
        out = {}
        for r in a:
            if r in b:
                x, y = a[r], b[r]
                out[r] = x if x is y else ite(c, x, y)
            elif r.op in ('obj', 'ghost', 'glob'):
                out[r] = ite(c, a[r], mk('init', r))
        for r in b:
            if r not in a and r.op in ('obj', 'ghost', 'glob'):
                out[r] = ite(c, mk('init', r), b[r])
        return out

    def gate(self, s1, s2, node=None):
        d1 = s1.facts - s2.facts
        d2 = s2.facts - s1.facts
        best = None
        for f in d1:
            if b_not(f) in d2:
                # prefer the most composite literal: it is the branch condition itself
                if best is None or f.id > best.id:
                    best = f
        if best is not None:
            return best
        guarded = {}        # g -> what holds in s2 if g does, for g true in s1
        for h in d2:
            if h.op == 'or' and len(h.args) == 2:
                for x, y in (h.args, h.args[::-1]):
                    if b_not(y) in s1.facts:
                        guarded.setdefault(b_not(y), set()).add(x)
        for f in d1:
            nf = b_not(f)
            parts = set(nf.args) if nf.op == 'and' else {nf}
            for g, xs in guarded.items():
                if parts <= xs:
                    q = b_and(g, f)
                    if best is None or q.id > best.id:
                        best = q
        if best is not None:
            return best
        for f in sorted(d1, key=lambda x: -x.id):
            if self.prove(f, s2) is False:
                return f
        for f in sorted(d2, key=lambda x: -x.id):
            if self.prove(f, s1) is False:
                return b_not(f)
        return mk('alt', self.nid(node) if node is not None else 0, self.frame.key if self.frame else 0,
                  tuple(sorted(d1))[:4], self.kargs())

    def merge(self, s1, s2, c=None, node=None):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        if c is None:
            c = self.gate(s1, s2, node)
        common = s1.facts & s2.facts
        extra = set()
        d1 = s1.facts - common
        d2 = s2.facts - common
        if len(d1) <= 12 and len(d2) <= 12:
            nc = b_not(c)
            for f in d1:
                if f is not c and f.op != 'and':
                    extra.add(b_or(nc, f))
            for f in d2:
                if f is not nc and f.op != 'and':
                    extra.add(b_or(c, f))
            extra.discard(TRUE)
        return St(self.merge_mem(c, s1.mem, s2.mem), common | frozenset(extra))

    def merge_all(self, sts, node=None):
        """merge states produced in program order, innermost alternatives first"""
        if not sts:
            return None
        acc = sts[-1]
        for s in reversed(sts[:-1]):
            acc = self.merge(s, acc, None, node)
        return acc

    def assume(self, st, c):
        """add c to the facts; False if it contradicts them"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.prove(c, st)
        if r is False:
            return False
        new = {c}
        if c.op == 'and':
            new |= set(c.args)
        fs = st.facts | new
        # unit propagation
        for f in list(fs):
            if f.op == 'or':
                alive = [x for x in f.args if b_not(x) not in fs]
                if not alive:
                    return False
                if len(alive) == 1 and len(f.args) > 1:
                    fs = fs | {alive[0]}
        st.facts = frozenset(fs)
        return True

    # -------------------------------------------------------------- statements
    def exec(self, n, st):
        """executes n on st in place; returns True when control falls through"""
        self.steps += 1
        if self.steps > self.budget:
            raise Stop('analysis budget exceeded')
        if n is None:
            return True
        k = n['k']
        m = getattr(self, 'x_' + k, None)
        if m is not None:
            return m(n, st)
        try:
            self.ev(n, st, discard=True)
        except Dead:
            return False
        return True

    def x_Block(self, n, st):
        depth = len(self.held)
        try:
            return self.block(n, st)
        finally:
            del self.held[depth:]

    def block(self, n, st):
        declared = []
        ok = True
        for s in n['s']:
            if s is None:
                continue
            if s['k'] == 'Decl':
                declared += [v['id'] for v in s['v']]
            if not self.exec(s, st):
                ok = False
                break
        if ok:
            self.drop(st, declared)
        return ok

    def drop(self, st, ids):
        for i in ids:
            st.mem.pop(self.var_root(i), None)
            st.mem.pop(mk('ref', i, self.frame.key), None)

    def x_Null(self, n, st):
        return True

    def var_root(self, i):
        return mk('v', i, self.frame.key)

    def x_Decl(self, n, st):
        try:
            for v in n['v']:
                self.declare(v, st)
        except Dead:
            return False
        return True

    def declare(self, v, st):
        t = self.p.ty(v)
        r = self.var_root(v['id'])
        self.kinds[r] = v['name']
        self.vtypes[r] = t
        if v.get('static') and v.get('init') is not None and not t.startswith('const '):
            g = mk('glob', v['id'])
            st.mem[mk('ref', v['id'], self.frame.key)] = LV(g)
            return
        if v.get('ref'):
            lv = self.lvof(v['init'], st)
            st.mem[mk('ref', v['id'], self.frame.key)] = lv
        else:
            if v.get('init') is not None:
                x = self.ev(v['init'], st, target=LV(r))
            else:
                x = self.default(t, v)
            st.mem[r] = x
        for i, b in enumerate(v.get('bindings', [])):
            base = st.mem.get(mk('ref', v['id'], self.frame.key)) or LV(r)
            st.mem[mk('ref', b['id'], self.frame.key)] = self.sub_lv(base, ('f', self.tuple_field(t, i)))

    def tuple_field(self, t, i):
        t = base_type(t)
        if t.startswith('std::pair<'):
            return ('first', 'second')[i]
        return 'get%d' % i

    def default(self, t, node=None):
        t = base_type(t)
        if is_vec_t(t) or t.startswith('std::deque<') or t.startswith('std::list<') or t.startswith('std::set<') \
                or t.startswith('std::map<'):
            return list_()
        if is_str_t(t):
            return s_lit('')
        if is_int_t(t) or is_float_t(t) or t == 'bool':
            return mk('uninit', self.nid(node) if node is not None else 0)
        return mk('dflt', t)

    def x_If(self, n, st):
        try:
            if n.get('init'):
                self.exec(n['init'], st)
            if n.get('cv') and isinstance(n['cv'], dict):
                self.exec(n['cv'], st)
            c = self.cond(n['c'], st)
        except Dead:
            return False
        return self.branch(c, st, lambda s: self.exec(n['then'], s),
                           lambda s: self.exec(n.get('else'), s) if n.get('else') else True, n)

    def branch(self, c, st, fa, fb, node):
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        a = st.copy()
        b = st.copy()
        la = self.assume(a, c) and fa(a)
        lb = self.assume(b, b_not(c)) and fb(b)
        if la and lb:
            st.become(self.merge(a, b, c))
            return True
        if la:
            st.become(a)
            return True
        if lb:
            st.become(b)
            return True
        return False

    def x_Return(self, n, st):
        try:
            fr = self.frame
            if n.get('e') is None:
                v = mk('void')
            elif fr.retref:
                v = self.lvof(n['e'], st)
            else:
                v = self.ev(n['e'], st)
        except Dead:
            return False
        self.frame.rets.append((st.copy(), v, n))
        return False

    def x_Break(self, n, st):
        self.loop_target().breaks.append(st.copy())
        return False

    def x_Continue(self, n, st):
        l = self.loop_target()
        while getattr(l, 'switch', False):
            l = l.prev
        l.conts.append(st.copy())
        return False

    def loop_target(self):
        return self.brk

    brk = None

    def x_Throw(self, n, st):
        try:
            if n.get('e') is not None:
                was = self.rec
                self.rec = False
                try:
                    self.ev(n['e'], st.copy())
                finally:
                    self.rec = was
        except Dead:
            pass
        self.raise_(n, st, self.p.types[n['ty']] if 'ty' in n else '')
        return False

    def raise_(self, n, st, ty=''):
        self.event('throw', (ty,), n, st)
        if self.rec:
            s = []
            f = self.frame
            while f is not None:
                s.append(f.fn.qual if f.fn else '?')
                f = f.up
            self.throws.append((st.copy(), n, self.frame.fn, tuple(s)))

    def x_Try(self, n, st):
        saved = self.throws
        self.throws = []
        ok = self.exec(n['body'], st)
        mine = self.throws
        self.throws = saved
        outs = [st.copy()] if ok else []
        if mine:
            hs = self.merge_all([m[0] for m in mine], n)
            for h in n.get('h', []):
                s = hs.copy()
                if self.exec(h['body'], s):
                    outs.append(s)
            if not any(h.get('all') for h in n.get('h', [])):
                self.throws += mine
        if not outs:
            return False
        st.become(self.merge_all(outs, n))
        return True

    def x_Switch(self, n, st):
        try:
            v = self.ev(n['c'], st)
        except Dead:
            return False
        groups = []  # list of (labels or None for default, stmts)
        body = n['body']['s'] if n['body']['k'] == 'Block' else [n['body']]
        cur = None
        for s in body:
            labels = []
            x = s
            isdef = False
            while x is not None and x['k'] in ('Case', 'Default'):
                if x['k'] == 'Case':
                    labels.append(x['v'])
                else:
                    isdef = True
                x = x['sub']
            if labels or isdef:
                cur = [labels, isdef, []]
                groups.append(cur)
            if cur is not None and x is not None:
                cur[2].append(x)
        conds = []
        for labels, isdef, ss in groups:
            cs = [eq(v, self.ev(l, st)) for l in labels]
            conds.append(b_or(*cs) if cs else FALSE)
        anyc = b_or(*conds) if conds else FALSE
        holder = _Brk(self.brk)
        old = self.brk
        self.brk = holder
        outs = []
        t = self.p.ty(n['c'])
        full = self.enum_full(t, groups)
        try:
            fall = None
            for gi, (labels, isdef, ss) in enumerate(groups):
                c = conds[gi]
                if isdef:
                    others = b_or(*[conds[j] for j in range(len(groups)) if j != gi])
                    c = b_or(c, b_not(others))
                s = st.copy()
                live = self.assume(s, c)
                if not live:
                    s = None
                if fall is not None:
                    s = self.merge(fall, s)
                if s is None:
                    fall = None
                    continue
                ok = True
                for x in ss:
                    if not self.exec(x, s):
                        ok = False
                        break
                fall = s if ok else None
            if fall is not None:
                outs.append(fall)
            outs = holder.breaks + outs
            if not any(g[1] for g in groups) and not full:
                s = st.copy()
                if self.assume(s, b_not(anyc)):
                    outs.append(s)
        finally:
            self.brk = old
        if not outs:
            return False
        st.become(self.merge_all(outs, n))
        return True

    def enum_full(self, t, groups):
        t = base_type(t)
        for e in self.p.enums:
            if e.get('name') == t or e.get('qual') == t:
                want = {v[1] for v in e['vals']}
                got = set()
                for labels, isdef, ss in groups:
                    for l in labels:
                        l = strip(l)
                        if 'cv' in l:
                            got.add(l['cv'])
                return want <= got
        return False

    # -------------------------------------------------------------- loops
    def x_For(self, n, st):
        ids = []
        if n.get('init'):
            if n['init']['k'] == 'Decl':
                ids = [v['id'] for v in n['init']['v']]
            if not self.exec(n['init'], st):
                return False

        def cnd(s):
            return TRUE if n.get('c') is None else self.cond(n['c'], s)

        def inc(s):
            if n.get('inc') is not None:
                self.ev(n['inc'], s, discard=True)
        ok = self.run_loop(n, st, cnd, lambda s: self.exec(n['body'], s), inc)
        if ok:
            self.drop(st, ids)
        return ok

    def x_While(self, n, st):
        return self.run_loop(n, st, lambda s: self.cond(n['c'], s), lambda s: self.exec(n['body'], s), None)

    def x_Do(self, n, st):
        return self.run_loop(n, st, lambda s: self.cond(n['c'], s), lambda s: self.exec(n['body'], s), None,
                             post=True)

    def x_RangeFor(self, n, st):
        try:
            if n.get('init'):
                self.exec(n['init'], st)
            rn = n['range']
            clv = self.lvof(rn, st)
        except Dead:
            return False
        var = n['var']['v'][0] if n['var'].get('k') == 'Decl' else n['var']
        rt = self.p.ty(rn)
        c0 = self.load(st, clv)
        N = size(c0)
        self.note_nonneg(N)
        elem_uns = is_vec_t(rt) and is_uns_t(vec_elem_t(rt))
        if elem_uns:
            self.pr.mark_elem(c0)

        def body(s):
            kap = self.loop.kappa
            el = self.index_lv(clv, kap)
            if var.get('ref'):
                s.mem[mk('ref', var['id'], self.frame.key)] = el
            else:
                v = self.load(s, el)
                s.mem[self.var_root(var['id'])] = v
            for i, b in enumerate(var.get('bindings', [])):
                base = s.mem.get(mk('ref', var['id'], self.frame.key)) or LV(self.var_root(var['id']))
                s.mem[mk('ref', b['id'], self.frame.key)] = self.sub_lv(base, ('f', self.tuple_field(
                    self.p.ty(var), i)))
            ok = self.exec(n['body'], s)
            self.drop(s, [var['id']] + [b['id'] for b in var.get('bindings', [])])
            return ok
        return self.run_loop(n, st, None, body, None, trip=N)

    def note_nonneg(self, t):
        if t.op not in ('num', 'poly'):
            self.uns.add(t)

    def synth_loop(self, node, st, n, body, tag=''):
        """loop with known trip count n, used by the library model"""
        return self.run_loop(node, st, None, body, None, trip=n, tag=tag)

    def run_loop(self, node, st, cnd, body, inc, post=False, trip=None, tag=''):
        from loops import run_loop
        return run_loop(self, node, st, cnd, body, inc, post, trip, tag)

    # -------------------------------------------------------------- expressions
    def cond(self, n, st):
        c = self.ev(n, st)
        return self.truth(c, n, st)

    def truth(self, c, n=None, st=None):
        if is_bool(c):
            r = None
            if st is not None and c not in (TRUE, FALSE):
                r = self.prove(c, st)
            return TRUE if r is True else (FALSE if r is False else c)
        if c.op == 'num':
            return TRUE if c.args[0] else FALSE
        if c.op == 'ite':
            a, b = self.truth(c.args[1]), self.truth(c.args[2])
            return b_or(b_and(c.args[0], a), b_and(b_not(c.args[0]), b))
        if c.op == 'none':
            return FALSE
        if c.op in ('some', 'addr', 'clo', 'func'):
            return TRUE
        if c.op == 'null':
            return FALSE
        # opaque boolean or pointer value
        c2 = mk('truth', c)
        t = b_not(mk('eq', c2, ZERO))
        if st is not None:
            r = self.prove(t, st)
            if r is not None:
                return TRUE if r else FALSE
        return t

    def boolval(self, c):
        return c

    def as_num(self, v):
        if is_bool(v):
            return ite_num(v)
        return v

    def lvof(self, n, st):
        """location denoted by a glvalue expression; rvalues are materialised"""
        n = self.peel(n)
        k = n['k']
        if k == 'Ref':
            i = n['id']
            rk = n.get('rk')
            if rk == 'global' or rk == 'func' or rk == 'enumc':
                if rk == 'global':
                    t = base_type(self.p.ty(n))
                    if t in self.p.records and not self.p.records[t]['fields']:
                        return mk('val', mk('fnobj', t))
                    return LV(mk('glob', i))
                return self.mater(n, st)
            return self.lookup(i, st)
        if k == 'Member' and n['mk'] == 'field':
            b = n['b']
            if n['arrow']:
                p = self.ev(b, st)
                base = self.deref(p, st, n)
            else:
                base = self.lvof(b, st)
            return self.sub_lv(base, ('f', n['name']))
        if k == 'Member' and n['mk'] == 'static':
            return LV(mk('glob', n['id']))
        if k == 'This':
            return self.mater(n, st)
        if k == 'Un' and n['op'] == '*':
            return self.deref(self.ev(n['e'], st), st, n)
        if k == 'Un' and n['op'] in ('++', '--') and not n.get('post'):
            self.ev(n, st)
            return self.lvof(n['e'], st)
        if k == 'Asg':
            self.ev(n, st)
            return self.lvof(n['a'], st)
        if k == 'Index':
            p = self.ev(n['a'], st)
            i = self.ev(n['b'], st)
            return self.deref(self.ptr_add(p, i), st, n)
        if k == 'Cond':
            c = self.cond(n['c'], st)
            if c is TRUE:
                return self.lvof(n['a'], st)
            if c is FALSE:
                return self.lvof(n['b'], st)
            a = st.copy()
            b = st.copy()
            self.assume(a, c)
            self.assume(b, b_not(c))
            la = self.lvof(n['a'], a)
            lb = self.lvof(n['b'], b)
            st.become(self.merge(a, b, c))
            return ite(c, la, lb)
        if k == 'Bin' and n['op'] == ',':
            self.ev(n['a'], st)
            return self.lvof(n['b'], st)
        if k == 'Cast' and n['ck'] in ('XValue', 'ConstCast', 'DerivedToBase', 'UncheckedDerivedToBase',
                                       'BaseToDerived', 'Dynamic', 'NoOp'):
            return self.lvof(n['e'], st)
        if k in ('OpCall', 'MCall', 'Call'):
            r = self.call_node(n, st, want_lv=True)
            if r.op in ('lv',) or (r.op == 'ite' and self._ltree(r)):
                return r
            return self.mater_val(n, st, r)
        return self.mater(n, st)

    def _ltree(self, r):
        if r.op == 'ite':
            return self._ltree(r.args[1]) and self._ltree(r.args[2])
        return r.op in ('lv', 'val')

    def mater(self, n, st):
        return self.mater_val(n, st, self.ev(n, st))

    def mater_val(self, n, st, v):
        if v.op == 'lv':
            return v
        r = self.tmp(n)
        st.mem[r] = v
        return LV(r)

    def peel(self, n):
        while n['k'] in ('DefArg', 'DefInit', 'StdInitList') and n.get('e') is not None and n['k'] != 'StdInitList':
            n = n['e']
        return n

    def lookup(self, i, st):
        f = self.frame
        r = st.mem.get(mk('ref', i, f.key))
        if r is not None:
            return r
        if i in f.caps:
            return f.caps[i]
        root = mk('v', i, f.key)
        return LV(root)

    def deref(self, p, st, n):
        if p.op == 'addr':
            return p.args[0]
        if p.op == 'ptr':
            self.event('index', (p.args[0], p.args[1], self.load_size(st, p.args[0])), n, st)
            return self.index_lv(p.args[0], p.args[1])
        if p.op == 'rptr':
            return self.index_lv(p.args[0], sub(p.args[1], ONE))
        if p.op == 'ite':
            return ite(p.args[0], self.deref(p.args[1], st, n), self.deref(p.args[2], st, n))
        if p.op == 'some':
            return mk('val', p.args[0])
        # opaque pointer: a location of its own
        return LV(mk('obj', 'pointee', p))

    def load_size(self, st, lv):
        return size(self.load(st, lv))

    def ptr_add(self, p, d):
        if p.op == 'ptr':
            return mk('ptr', p.args[0], add(p.args[1], d))
        if p.op == 'rptr':
            return mk('rptr', p.args[0], sub(p.args[1], d))
        if p.op == 'ite':
            return ite(p.args[0], self.ptr_add(p.args[1], d), self.ptr_add(p.args[2], d))
        return mk('ptradd', p, d)

    def ev(self, n, st, discard=False, target=None):
        self.steps += 1
        if self.steps > self.budget:
            raise Stop('analysis budget exceeded')
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            for c in kids(n):
                try:
                    self.ev(c, st)
                except (KeyError, TypeError):
                    pass
            return self.unknown('expression ' + k, n)
        if k == 'Construct':
            return m(n, st, target)
        return m(n, st)

    def typed(self, v, t):
        if v.op in ('fld', 'sel', 'init', 'app', 'arg', 'phi', 'exit', 'val'):
            if is_uns_t(t):
                self.uns.add(v)
            elif is_vec_t(t):
                et = vec_elem_t(t)
                if is_uns_t(et):
                    self.pr.mark_elem(v)
                elif is_vec_t(et) and is_uns_t(vec_elem_t(et)):
                    pass
        return v

    def e_Int(self, n, st):
        return num(n.get('v', 0))

    def e_Char(self, n, st):
        return num(n['v'])

    def e_Float(self, n, st):
        return num(Fraction(n['v'])) if not any(c in n['v'].lower() for c in ('inf', 'nan')) else mk('fconst', n['v'])

    def e_Bool(self, n, st):
        return TRUE if n['v'] else FALSE

    def e_Str(self, n, st):
        return s_lit(n['v'])

    def e_Null0(self, n, st):
        return mk('null')

    def e_ZeroInit(self, n, st):
        t = self.p.ty(n)
        if is_vec_t(t) or is_str_t(t):
            return self.default(t, n)
        if base_type(t) == 'bool':
            return FALSE
        return ZERO

    def e_This(self, n, st):
        return mk('addr', self.frame.this) if self.frame.this is not None else self.unknown('this', n)

    def e_DefArg(self, n, st):
        return self.ev(n['e'], st)

    def e_DefInit(self, n, st):
        return self.ev(n['e'], st)

    def e_StdInitList(self, n, st):
        return self.ev(n['e'], st)

    def e_InitList(self, n, st):
        t = base_type(self.p.ty(n))
        vs = [self.ev(x, st) for x in n['a']]
        r = self.p.records.get(t)
        if r is not None and r['fields']:
            d = {}
            for f, v in zip(r['fields'], vs):
                d[f['name']] = v
            return rec(mk('new', t), d)
        if (is_int_t(t) or is_float_t(t)) and len(vs) <= 1:
            return vs[0] if vs else ZERO
        if not vs and not (t.endswith(']') or is_vec_t(t)):
            return mk('dflt', t)
        return mk('list', *vs)

    def e_Ref(self, n, st):
        if n.get('rk') == 'enumc':
            return mk('enumc', n.get('qual', n['name']), n.get('cv'))
        if n.get('rk') == 'func':
            return mk('func', n['id'])
        if 'cv' in n and n.get('rk') in ('global',):
            return num(n['cv'])
        lv = self.lvof(n, st)
        if n.get('rk') == 'global':
            if lv.args[0] not in st.mem:
                return self.global_value(n['id'], n, st)
        return self.typed(self.load(st, lv), self.p.ty(n))

    def global_value(self, i, n, st):
        for g in self.p.globals:
            if g['id'] == i and 'cf' in g and not any(c in g['cf'].lower() for c in ('inf', 'nan')):
                return num(Fraction(g['cf']))
            if g['id'] == i and g.get('const') and g.get('init') is not None:
                ini = g['init']
                t = base_type(self.p.types[g['t']])
                if t in self.p.records and not self.p.records[t]['fields']:
                    return mk('fnobj', t)
                if strip(ini).get('k') in ('Int', 'Float', 'Bool', 'Str'):
                    return self.ev(ini, st)
        t = base_type(self.p.ty(n))
        if t in self.p.records and not self.p.records[t]['fields']:
            return mk('fnobj', t)
        return mk('init', mk('glob', i))

    def e_Member(self, n, st):
        if n['mk'] == 'static':
            if 'cv' in n:
                return num(n['cv'])
            return mk('init', mk('glob', n['id']))
        if n['mk'] == 'method':
            return mk('func', n['id'])
        lv = self.lvof(n, st)
        return self.typed(self.load(st, lv), self.p.ty(n))

    def e_Index(self, n, st):
        return self.typed(self.load(st, self.lvof(n, st)), self.p.ty(n))

    def e_Cast(self, n, st):
        ck = n['ck']
        if ck in ('XValue', 'ConstCast', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast'):
            if self.p.ty(n).endswith('*') or self.p.ty(n['e']).endswith('*'):
                return self.ev(n['e'], st)
            if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
                return self.ev(n['e'], st)
            return self.ev(n['e'], st)
        v = self.ev(n['e'], st)
        if ck == 'Dynamic' and self.open_function:
            return self.dynamic_cast(v, self.p.ty(n))
        if ck in ('IntegralToFloating', 'FloatingCast') and base_type(self.p.ty(n)) == 'float':
            return self.single(self.as_num(v))
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast'):
            return self.as_num(v) if ck != 'IntegralCast' or is_bool(v) else v
        if ck == 'FloatingToIntegral':
            return self.trunc(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if is_bool(v):
                return v
            if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean':
                return b_not(eq(v, ZERO)) if v.op not in ('truth',) else v
            return self.truth(v, n, st)
        if ck == 'NullToPointer':
            return mk('null')
        if ck == 'ToVoid':
            return mk('void')
        return v

    def dynamic_cast(self, v, t):
        t = base_type(t)
        t = base_type(t[:-1].strip()) if t.endswith('*') else t
        if v.op == 'ite':
            return ite(v.args[0], self.dynamic_cast(v.args[1], t + ' *'), self.dynamic_cast(v.args[2], t + ' *'))
        if v.op == 'null':
            return v
        d = self.dynof.get(v.args[0]) if v.op == 'addr' else None
        if d is None:
            return mk('app', 'dynamic_cast', t, v)
        todo, seen = [d], set()
        while todo:
            c = todo.pop()
            if c == t:
                return v
            if c not in seen:
                seen.add(c)
                todo += [base_type(b) for b in self.p.bases.get(c, [])]
        return mk('null')

    def single(self, v):
        """v rounded to single precision"""
        if v.op == 'num':
            import struct
            return num(Fraction(struct.unpack('f', struct.pack('f', float(v.args[0])))[0]))
        if v.op == 'fn' and v.args[0] == 'f32' or self.integral(v):
            return v
        if v.op == 'ite':
            return ite(v.args[0], self.single(v.args[1]), self.single(v.args[2]))
        return mk('fn', 'f32', v)

    def trunc(self, v):
        if v.op == 'num':
            from math import trunc as tr
            return num(tr(v.args[0]))
        if self.integral(v):
            return v
        if v.op == 'ite':
            return ite(v.args[0], self.trunc(v.args[1]), self.trunc(v.args[2]))
        return mk('trunc', v)

    def integral(self, v):
        if v.op == 'poly':
            return all(c.denominator == 1 and all(e > 0 and self.integral(a) for a, e in m) for m, c in v.args[0])
        if v.op in ('size', 'k', 'bv', 'idiv', 'imod', 'trunc', 'exit', 'max0'):
            return True
        if v.op == 'draw' and v.args[0] == 'uint':
            return True
        if v.op == 'num':
            return v.args[0].denominator == 1
        return v in self.uns

    def e_Un(self, n, st):
        op = n['op']
        if op == '*':
            return self.typed(self.load(st, self.lvof(n, st)), self.p.ty(n))
        if op == '&':
            e = self.peel(n['e'])
            if e['k'] == 'Ref' and e.get('rk') == 'func':
                return mk('func', e['id'])
            return mk('addr', self.lvof(n['e'], st))
        if op in ('++', '--'):
            lv = self.lvof(n['e'], st)
            v = self.load(st, lv)
            d = ONE if op == '++' else num(-1)
            new = self.ptr_add(v, d) if v.op in ('ptr', 'rptr') else add(v, d)
            self.assign(st, lv, new, n)
            return v if n.get('post') else new
        if op == '!':
            return b_not(self.cond(n['e'], st))
        v = self.ev(n['e'], st)
        if op == '-':
            return neg(self.as_num(v))
        if op == '+':
            return self.as_num(v)
        return mk('un', op, v)

    def e_Bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            a = self.cond(n['a'], st)
            if (op == '&&' and a is FALSE) or (op == '||' and a is TRUE):
                return a
            if a in (TRUE, FALSE):
                return self.cond(n['b'], st)
            s = st.copy()
            if not self.assume(s, a if op == '&&' else b_not(a)):
                return FALSE if op == '&&' else TRUE
            s0 = dict(s.mem)
            b = self.cond(n['b'], s)
            if s.mem != s0 or True:
                # effects of the right operand happen only under the guard
                g = a if op == '&&' else b_not(a)
                if any(s.mem.get(r) is not v for r, v in s0.items()) or len(s.mem) != len(s0):
                    st.mem = self.merge_mem(g, s.mem, st.mem)
            return b_and(a, b) if op == '&&' else b_or(a, b)
        if op == ',':
            self.ev(n['a'], st)
            return self.ev(n['b'], st)
        a = self.ev(n['a'], st)
        b = self.ev(n['b'], st)
        return self.binop(op, a, b, self.p.ty(n['a']), self.p.ty(n['b']), self.p.ty(n), n, st)

    def same_list(self, a, b, st):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y.op == 'ite':
                p, q = self.same_list(x, y.args[1], st), self.same_list(x, y.args[2], st)
                return b_or(b_and(y.args[0], p), b_and(b_not(y.args[0]), q))
            if y.op == 'list':
                r = self.equal(x, y, st)
                return FALSE if self.pr.prove(r, st.facts) is False else r
        return mk('eq', *sorted((a, b)))

    def binop(self, op, a, b, ta, tb, tr, n, st):
        if op in ('==', '!='):
            if is_vec_t(ta) and is_vec_t(tb):
                r = self.same_list(a, b, st)
            else:
                r = self.equal(a, b, st)
            return r if op == '==' else b_not(r)
        if op in ('<', '<=', '>', '>='):
            if a.op in ('ptr', 'rptr') and b.op == a.op:
                sgn = 1 if a.op == 'ptr' else -1
                a, b = (a.args[1], b.args[1]) if sgn > 0 else (b.args[1], a.args[1])
                isint = True
            elif 'enumc' in (a.op, b.op) and all(x.op == 'enumc' or self.numeric(x) for x in (a, b)):
                a, b = [num(x.args[1] or 0) if x.op == 'enumc' else x for x in (a, b)]
                isint = True
            elif is_str_t(ta) and is_str_t(tb) or is_vec_t(ta) and is_vec_t(tb):
                a, b, isint = mk('app', 'strcmp', a, b), ZERO, True
            elif not self.numeric(a) or not self.numeric(b):
                if op in ('>', '>='):
                    a, b, op = b, a, {'>': '<', '>=': '<='}[op]
                r = mk('eq', mk('app', 'cmp' + op, a, b), ONE)
                return r
            else:
                a, b = self.as_num(a), self.as_num(b)
                isint = (is_int_t(ta) or is_uns_t(ta) or base_type(ta) == 'bool') and \
                        (is_int_t(tb) or base_type(tb) == 'bool')
            if op == '<':
                return lt(a, b, isint)
            if op == '<=':
                return le(a, b, isint)
            if op == '>':
                return lt(b, a, isint)
            return le(b, a, isint)
        if op == '+':
            if a.op in ('ptr', 'rptr', 'ptradd'):
                return self.ptr_add(a, b)
            if b.op in ('ptr', 'rptr'):
                return self.ptr_add(b, a)
            if a.op == 'ite' and self._ptree(a):
                return self.ptr_add(a, b)
            if is_str_t(ta) or is_str_t(tb) or a.op in ('str', 'strcat') or b.op in ('str', 'strcat'):
                return strcat(a, b)
            return add(self.as_num(a), self.as_num(b))
        if op == '-':
            if a.op in ('ptr', 'rptr'):
                if b.op == a.op and a.args[0] is b.args[0]:
                    return sub(a.args[1], b.args[1]) if a.op == 'ptr' else sub(b.args[1], a.args[1])
                if is_ptr_t(tb):
                    return mk('ptrdiff', a, b)
                return self.ptr_add(a, neg(b))
            if is_ptr_t(tb):
                return mk('ptrdiff', a, b)
            if is_ptr_t(ta):
                return mk('ptradd', a, neg(b))
            a, b = self.as_num(a), self.as_num(b)
            if is_uns_t(tr):
                self.event('usub', (a, b), n, st)
            return sub(a, b)
        if op == '*':
            return mul(self.as_num(a), self.as_num(b))
        if op == '/':
            a, b = self.as_num(a), self.as_num(b)
            if is_int_t(ta) and is_int_t(tb):
                self.event('div', (a, b), n, st)
                return idiv(a, b)
            return fdiv(a, b)
        if op == '%':
            self.event('div', (a, b), n, st)
            return imod(self.as_num(a), self.as_num(b))
        if op in ('&', '|') and is_bool(a) and is_bool(b):
            return b_and(a, b) if op == '&' else b_or(a, b)
        return mk('app', 'op' + op, a, b)

    def _ptree(self, t):
        if t.op == 'ite':
            return self._ptree(t.args[1]) and self._ptree(t.args[2])
        return t.op in ('ptr', 'rptr')

    def numeric(self, v):
        return v.op not in ('str', 'strcat', 'tab', 'list', 'cat', 'rec', 'lm', 'store', 'enumc', 'ptr', 'rptr')

    def equal(self, a, b, st):
        if a.op in ('ptr', 'rptr') and b.op == a.op and a.args[0] is b.args[0]:
            return eq(a.args[1], b.args[1])
        if a.op == 'ite' and b.op in ('ptr', 'rptr', 'null'):
            x = self.equal(a.args[1], b, st)
            y = self.equal(a.args[2], b, st)
            return b_or(b_and(a.args[0], x), b_and(b_not(a.args[0]), y))
        if b.op == 'ite' and a.op in ('ptr', 'rptr', 'null'):
            return self.equal(b, a, st)
        if a.op == 'null' and b.op in ('addr', 'some', 'clo', 'func'):
            return FALSE
        if b.op == 'null' and a.op in ('addr', 'some', 'clo', 'func'):
            return FALSE
        if b.op in ('null', 'none') and a.op not in ('null', 'none'):
            return b_not(self.truth(a))
        if a.op in ('null', 'none') and b.op not in ('null', 'none'):
            return b_not(self.truth(b))
        if a.op == 'addr' and b.op == 'addr':
            x, y = a.args[0], b.args[0]
            if x is y:
                return TRUE
            if x.op == 'lv' and y.op == 'lv' and x.args[0] is not y.args[0] and self.own(x.args[0]) and self.own(y.args[0]):
                return FALSE
        if is_bool(a) != is_bool(b):
            if a.op == 'num' or b.op == 'num':
                a, b = self.as_num(a), self.as_num(b)
        return eq(a, b)

    @staticmethod
    def own(root):
        """whether a location is a variable, temporary or allocation that the analysed code itself makes"""
        return root.op in ('v', 'tmp') or root.op == 'obj' and root.args[0] in ('heap', 'new')

    def e_Asg(self, n, st):
        op = n['op']
        if op == '=':
            v = self.ev(n['b'], st)
            lv = self.lvof(n['a'], st)
            if base_type(self.p.ty(n['a'])) == 'bool' and not is_bool(v):
                v = self.truth(v)
            self.assign(st, lv, v, n)
            return v
        v = self.ev(n['b'], st)
        lv = self.lvof(n['a'], st)
        old = self.typed(self.load(st, lv), self.p.ty(n['a']))
        ta = self.p.ty(n['a'])
        tb = self.p.ty(n['b'])
        new = self.binop(op[:-1], old, v, tb if is_int_t(ta) and is_float_t(tb) else ta, tb, ta, n, st)
        if is_int_t(ta) and is_float_t(tb):
            new = self.trunc(new)
        elif base_type(ta) == 'float':
            new = self.single(new)
        self.assign(st, lv, new, n, how=op)
        return new

    def e_Cond(self, n, st):
        c = self.cond(n['c'], st)
        if c is TRUE:
            return self.ev(n['a'], st)
        if c is FALSE:
            return self.ev(n['b'], st)
        a = st.copy()
        b = st.copy()
        ra = rb = None
        try:
            if self.assume(a, c):
                ra = self.ev(n['a'], a)
        except Dead:
            pass
        try:
            if self.assume(b, b_not(c)):
                rb = self.ev(n['b'], b)
        except Dead:
            pass
        if ra is None and rb is None:
            raise Dead()
        if ra is None:
            st.become(b)
            return rb
        if rb is None:
            st.become(a)
            return ra
        st.become(self.merge(a, b, c))
        return ite(c, ra, rb)

    def e_Throw(self, n, st):
        self.x_Throw(n, st)
        raise Dead()

    def e_Lambda(self, n, st):
        caps = []
        for c in n.get('caps', []):
            if c.get('this'):
                continue
            if 'id' not in c:
                continue
            lv = self.lookup(c['id'], st)
            if c.get('init') is not None and not c.get('byref'):
                v = self.ev(c['init'], st)
                caps.append((c['id'], 'v', v))
            elif c.get('byref'):
                caps.append((c['id'], 'r', lv))
            else:
                caps.append((c['id'], 'v', self.load(st, lv)))
        this = self.frame.this if any(c.get('this') for c in n.get('caps', [])) else mk('nothis')
        self.lam[n['fn']] = n
        return mk('clo', n['fn'], tuple(caps), this, mk('nodekey', self.nid(n)), tuple(n.get('insts', [])),
                  self.frame.dyncls or '')

    lam = {}

    def e_New(self, n, st):
        i = n.get('init')
        if self.open_function and i is not None and self.peel(i)['k'] == 'Construct':
            i = self.peel(i)
            t = base_type(self.p.ty(i))
            if t in self.p.records:
                lv = self.heap(n, t, st)
                fn = self.p.fns.get(i['fn'])
                if fn is not None and self.inlinable(fn):
                    self.enter(fn, lv, self.bind_args(fn, i['a'], i, st), i, st, dyncls=t)
                elif not i['a']:
                    st.mem[lv.args[0]] = self.default_of(t, st)
                else:
                    return self.unknown('new', n)
                return mk('addr', lv)
        return self.unknown('new', n)

    def heap(self, n, t, st):
        """an allocated object of type t"""
        root = mk('obj', 'heap', self.nid(n), self.frame.key if self.frame else 0, self.kargs())
        st.mem[root] = mk('new', t)
        self.dynof[LV(root)] = t
        return LV(root)

    def default_of(self, t, st):
        """a value-initialised object"""
        r = self.p.records.get(base_type(t))
        if r is None:
            return self.std.elem_default('std::vector<%s>' % t) if not t.endswith('*') else mk('null')
        return rec(mk('new', base_type(t)),
                   {f['name']: self.ev(f['init'], st) if f.get('init') is not None else
                    self.default_of(self.p.types[f['t']], st) for f in r['fields']})

    def e_SourceLoc(self, n, st):
        return mk('loc')

    # -------------------------------------------------------------- calls
    def e_OpCall(self, n, st):
        r = self.call_node(n, st)
        if r.op == 'lv' or (r.op in ('ite', 'val') and self._ltree(r)):
            r = self.load(st, r)
        return self.typed(r, self.p.ty(n))

    e_MCall = e_OpCall
    e_Call = e_OpCall

    def call_node(self, n, st, want_lv=False):
        k = n['k']
        fid = n.get('fn')
        if k == 'Call' and fid is None:
            c = self.ev(n['callee'], st)
            return self.call_value(c, [self.argval(a, st) for a in n['a']], n, st, n['a'])
        fn = self.p.fns.get(fid)
        if k == 'MCall':
            fn2, obj = self.resolve_method(n, fn, st)
            if fn2 is not None and self.inlinable(fn2):
                return self.invoke(fn2, obj, n['a'], n, st)
            return self.std.mcall(n, st, want_lv)
        if k == 'OpCall':
            if fn is not None and self.inlinable(fn) and not self.is_lambda_op(n, fn):
                if n.get('m'):
                    obj = self.lvof(n['a'][0], st)
                    f2 = self.dyn(fn, obj, st, n['a'][0])
                    if f2.cls in self.p.records and n['op'] == '=' and (f2.d.get('defaulted') or f2.d.get('implicit')):
                        v = self.ev(n['a'][1], st)
                        self.assign(st, obj, v, n)
                        return obj
                    return self.invoke(f2, obj, n['a'][1:], n, st)
                return self.invoke(fn, None, n['a'], n, st)
            return self.std.opcall(n, st, want_lv)
        if fn is not None and self.inlinable(fn):
            return self.invoke(fn, None, n['a'], n, st)
        return self.std.call(n, st, want_lv)

    def is_lambda_op(self, n, fn):
        return fn.d.get('lambda') and n['op'] == '()'

    def inlinable(self, fn):
        if not fn.body:
            return False
        if fn.d.get('defaulted') or fn.d.get('implicit'):
            return False
        if fn.qual in self.opaque or fn.name in self.opaque:
            return False
        if fn.cls and fn.cls.startswith('dcgp::function<') and not self.open_function:
            return False
        return True

    count_evals = False         # whether a problem counts its evaluations
    open_function = False       # whether the inside of the function wrapper is looked at

    def dyn(self, fn, obj, st, objnode, qualified=False):
        if not fn.virtual or qualified:
            return fn
        cls = self.dyn_class(obj, objnode)
        if cls is None:
            return fn
        return self.p.dispatch(fn.id, cls) or fn

    def dyn_class(self, obj, objnode):
        if obj is not None and self.frame is not None and self.frame.this is not None and obj is self.frame.this:
            return self.frame.dyncls
        t = base_type(self.p.ty(objnode)) if objnode is not None else ''
        if t.endswith('*'):
            t = base_type(t[:-1])
        c = self.dynof.get(obj)
        return c or (t if t in self.p.records else None)

    dynof = {}

    def resolve_method(self, n, fn, st):
        if fn is None:
            # maybe a pure virtual or a declaration overridden in the library
            d = self.p.decls.get(n.get('fn'))
            if not d or not str(d.get('cls', '')).startswith('dcgp::'):
                return None, None
            obj = self.objlv(n, st)
            cls = self.dyn_class(obj, n['obj'])
            f = self.p.dispatch(n.get('fn'), cls) if cls else None
            return f, obj
        if not self.inlinable(fn):
            return None, None
        obj = None if fn.static else self.objlv(n, st)
        return self.dyn(fn, obj, st, n['obj'], n.get('qualified')), obj

    def objlv(self, n, st):
        if n.get('arrow'):
            return self.deref(self.ev(n['obj'], st), st, n)
        return self.lvof(n['obj'], st)

    def argval(self, a, st):
        return self.ev(a, st)

    def bind_args(self, fn, argnodes, n, st):
        """list of ('r', lv) / ('v', value) for the parameters"""
        out = []
        for i, prm in enumerate(fn.params):
            t = self.p.types[prm['t']]
            if i < len(argnodes):
                a = argnodes[i]
            elif prm.get('def') is not None:
                a = prm['def']
            else:
                out.append(('v', unk('missing argument')))
                continue
            if isref(t):
                out.append(('r', self.lvof(a, st)))
            else:
                out.append(('v', self.ev(a, st)))
        return out

    def depth(self):
        d = 0
        f = self.frame
        while f is not None:
            d += 1
            f = f.up
        return d

    def invoke(self, fn, obj, argnodes, n, st):
        binds = self.bind_args(fn, argnodes, n, st)
        return self.enter(fn, obj, binds, n, st)

    def enter(self, fn, obj, binds, n, st, caps=None, dyncls=None):
        """analyse fn in this context; returns its value (or location)"""
        self.event('call', (fn, obj, tuple(binds)), n, st)
        d = 0
        f = self.frame
        while f is not None:
            d += 1
            if f.fn is fn and d > 0 and sum(1 for _ in self._same(fn)) > 1:
                return self.havoc_call(fn, obj, binds, n, st)
            f = f.up
        if d > self.MAXDEPTH:
            return self.havoc_call(fn, obj, binds, n, st)
        key = ((self.frame.key if self.frame else 0), self.nid(n) if n is not None else 0, fn.id)
        if dyncls is None and obj is not None:
            if self.frame is not None and self.frame.this is not None and obj is self.frame.this:
                dyncls = self.frame.dyncls
            else:
                dyncls = self.dynof.get(obj) or fn.cls
        fr = Frame(fn, mk('fr', key), obj, dyncls, self.frame)
        rt = self.p.types[fn.d['ret']] if fn.d.get('ret') is not None else ''
        fr.retref = isref(rt)
        if caps:
            fr.caps = caps
        for prm, (kind, v) in zip(fn.params, binds):
            if kind == 'r':
                st.mem[mk('ref', prm['id'], fr.key)] = v
            else:
                st.mem[mk('v', prm['id'], fr.key)] = v
        saved, sbrk, depth = self.frame, self.brk, len(self.held)
        self.frame = fr
        self.brk = None
        try:
            if fn.ctor:
                self.run_ctor(fn, obj, st)
            ok = self.exec(fn.body, st)
            if ok:
                fr.rets.append((st.copy(), mk('void'), None))
        finally:
            self.frame = saved
            self.brk = sbrk
            if len(self.held) > depth:
                del self.held[depth:]
        if not fr.rets:
            raise Dead()
        s, v = self.merge_rets(fr.rets, n)
        # leave the frame: drop its locals
        for r in [r for r in s.mem if r.op in ('v', 'ref', 'tmp') and r.args[1] is fr.key]:
            if r.op == 'tmp' and self._mentions(v, r):
                continue
            if r.op == 'v' and self._mentions(v, r):
                continue
            del s.mem[r]
        st.become(s)
        return v

    def _same(self, fn):
        f = self.frame
        while f is not None:
            if f.fn is fn:
                yield f
            f = f.up

    def _mentions(self, v, r):
        return r in set(subterms(v)) if v.op in ('lv', 'ptr', 'ite', 'addr', 'rec', 'clo', 'list') else False

    def merge_rets(self, rets, n):
        s, v, _ = rets[-1]
        for s2, v2, _ in reversed(rets[:-1]):
            c = self.gate(s2, s, n)
            v = v if v is v2 else ite(c, v2, v)
            s = self.merge(s2, s, c)
        return s, v

    def havoc_call(self, fn, obj, binds, n, st):
        self.lossy = True
        for kind, v in binds:
            if kind == 'r':
                self.havoc_lv(st, v, n)
        if obj is not None and not fn.const:
            self.havoc_lv(st, obj, n)
        return self.unknown('call ' + fn.qual, n)

    def havoc_lv(self, st, lv, n):
        self.assign(st, lv, unk('havoc'), n, how='havoc')

    def run_ctor(self, fn, obj, st):
        cls = fn.cls
        r = self.p.records.get(cls)
        deleg = any(i.get('deleg') for i in fn.d.get('inits', []))
        if deleg:
            for i in fn.d['inits']:
                if i.get('deleg'):
                    self.construct_at(i['e'], obj, st)
            return
        for i in fn.d.get('inits', []):
            if 'base' in i:
                bt = base_type(self.p.types[i['base']])
                old = self.frame.dyncls
                # while a base part is being built its own overriders run
                self.construct_at(i['e'], obj, st, cls=bt)
        done = set()
        inits = {i['name']: i for i in fn.d.get('inits', []) if 'field' in i}
        for f in (r['fields'] if r else []):
            lv = self.sub_lv(obj, ('f', f['name']))
            i = inits.get(f['name'])
            if i is not None and i.get('e') is not None:
                t = self.p.types[f['t']]
                if isref(t):
                    v = mk('refto', self.lvof(i['e'], st))
                else:
                    e = i['e']
                    if e['k'] == 'Construct':
                        v = self.e_Construct(e, st, lv)
                    else:
                        v = self.ev(e, st)
                        if base_type(t) == 'bool' and not is_bool(v):
                            v = self.truth(v)
                self.assign(st, lv, v, i['e'], how='init')
            elif f.get('init') is not None:
                self.assign(st, lv, self.ev(f['init'], st), f['init'], how='init')
            elif f.get('scalar'):
                self.assign(st, lv, mk('uninit', '%s::%s' % (cls, f['name'])), fn.body, how='init')

    def construct_at(self, e, obj, st, cls=None):
        e = self.peel(e)
        if e['k'] == 'Construct':
            fn = self.p.fns.get(e['fn'])
            if fn is not None and self.inlinable(fn):
                binds = self.bind_args(fn, e['a'], e, st)
                self.enter(fn, obj, binds, e, st, dyncls=cls or self.frame.dyncls)
                return
            vs = [self.ev(a, st) for a in e['a']]
            if len(vs) == 1 and fn is not None and (fn.d.get('copy') or fn.d.get('move')):
                cur = self.load(st, obj)
                self.assign(st, obj, vs[0], e, how='init')
            return
        self.ev(e, st)

    def e_Construct(self, n, st, target=None):
        t = base_type(self.p.ty(n))
        fn = self.p.fns.get(n['fn'])
        r = self.p.records.get(t)
        if r is not None and (self.open_function or not t.startswith('dcgp::function<')):
            ctor_kind = next((m.get('ctor') for m in r['methods'] if m['id'] == n['fn']), None)
            user = next((m.get('userprov') for m in r['methods'] if m['id'] == n['fn']), False)
            if ctor_kind in ('copy', 'move') and not user:
                v = self.ev(n['a'][0], st)
                self.std.moved_from(n['a'][0], st)
                return v
            if fn is not None and self.inlinable(fn):
                root = mk('obj', 'new', self.nid(n), self.frame.key if self.frame else 0, self.kargs())
                lv = LV(root)
                st.mem[root] = mk('new', t)
                binds = self.bind_args(fn, n['a'], n, st)
                self.enter(fn, lv, binds, n, st, dyncls=t)
                v = st.mem.get(root, mk('init', root))
                st.mem.pop(root, None)
                return v
            if ctor_kind == 'default':
                d = {}
                for f in r['fields']:
                    if f.get('init') is not None:
                        d[f['name']] = self.ev(f['init'], st)
                    elif f.get('scalar'):
                        d[f['name']] = mk('uninit', '%s::%s' % (t, f['name']))
                return rec(mk('new', t), d)
        return self.std.construct(n, st, t)

    def call_value(self, c, args, n, st, argnodes=None):
        """call a function value: closure, function object or pointer. args are values (or ('r', lv) pairs)"""
        if c.op == 'clo':
            fid, caps, this, key, insts, dyncls = c.args
            cand = [self.p.fns[i] for i in insts if i in self.p.fns]
            fn = None
            if len(cand) == 1:
                fn = cand[0]
            elif cand:
                fn = self.pick_inst(cand, n, argnodes)
            if fn is None:
                fn = self.p.fns.get(fid)
            if fn is None or not fn.body:
                return mk('app', 'call', c, *[self._plain(a, st) for a in args])
            env = {}
            for i, kind, v in caps:
                if kind == 'r':
                    env[i] = v
                else:
                    rt = mk('tmp', 'cap', self.frame.key if self.frame else 0, i, key)
                    st.mem[rt] = v
                    env[i] = LV(rt)
            binds = []
            for prm, a in zip(fn.params, args):
                t = self.p.types[prm['t']]
                if isinstance(a, tuple):
                    binds.append(a if isref(t) else ('v', self.load(st, a[1])))
                elif isref(t):
                    rt = mk('tmp', 'arg', self.frame.key if self.frame else 0, prm['id'], self.nid(n))
                    st.mem[rt] = a
                    binds.append(('r', LV(rt)))
                else:
                    binds.append(('v', a))
            return self.enter(fn, this if this.op == 'lv' else None, binds, n, st, caps=env,
                              dyncls=dyncls or None)
        if c.op == 'func':
            fn = self.p.fns.get(c.args[0])
            if fn is not None and self.inlinable(fn):
                binds = []
                for prm, a in zip(fn.params, args):
                    t = self.p.types[prm['t']]
                    if isinstance(a, tuple):
                        binds.append(a if isref(t) else ('v', self.load(st, a[1])))
                    elif isref(t):
                        rt = mk('tmp', 'arg', self.frame.key if self.frame else 0, prm['id'], self.nid(n))
                        st.mem[rt] = a
                        binds.append(('r', LV(rt)))
                    else:
                        binds.append(('v', a))
                return self.enter(fn, None, binds, n, st)
        if c.op == 'fnobj':
            ops = [f for f in self.p.find(c.args[0], 'operator()')]
            if len(ops) == 1 and ops[0].body:
                binds = []
                for prm, a in zip(ops[0].params, args):
                    t = self.p.types[prm['t']]
                    if isinstance(a, tuple):
                        binds.append(a if isref(t) else ('v', self.load(st, a[1])))
                    elif isref(t):
                        rt = mk('tmp', 'arg', self.frame.key if self.frame else 0, prm['id'], self.nid(n))
                        st.mem[rt] = a
                        binds.append(('r', LV(rt)))
                    else:
                        binds.append(('v', a))
                return self.enter(ops[0], None, binds, n, st)
        if c.op in ('dflt', 'fnobj', 'obj0'):
            r = self.std.functor(c.args[0], [self._plain(a, st) for a in args], n, st)
            if r is not None:
                return r
            if str(c.args[0]).startswith('std::') and 'function<' not in str(c.args[0]):
                return self.unknown('functor ' + str(c.args[0]), n)
        return mk('app', 'call', c, *[self._plain(a, st) for a in args])

    def _plain(self, a, st):
        return self.load(st, a[1]) if isinstance(a, tuple) else a

    def pick_inst(self, cand, n, argnodes):
        if argnodes:
            ts = [base_type(self.p.ty(a)) for a in argnodes]
            for f in cand:
                if [base_type(x) for x in f.ptypes()] == ts:
                    return f
        return cand[0]

    # -------------------------------------------------------------- entry points
    def new_object(self, name, cls):
        lv = LV(mk('obj', name))
        self.dynof[lv] = cls
        return lv

    def run(self, fn, this=None, args=(), st=None, dyncls=None):
        """analyse fn with given ('r', lv)/('v', value) bindings; returns a Summary"""
        st = st.copy() if st is not None else St()
        self.frame = None
        self.loop = None
        self.brk = None
        self.events = []
        self.throws = []
        self.unknowns = []
        self.lossy = False
        self.steps = 0
        binds = list(args)
        for prm in fn.params[len(binds):]:
            t = self.p.types[prm['t']]
            a = mk('arg', prm['name'] or 'p%d' % len(binds))
            self.typed(a, t)
            if isref(t):
                r = mk('obj', 'arg', prm['name'])
                self.typed(mk('init', r), t)
                binds.append(('r', LV(r)))
            else:
                binds.append(('v', a))
        try:
            v = self.enter(fn, this, binds, fn.body, st, dyncls=dyncls or (fn.cls if this is not None else None))
        except Dead:
            v = None
            st = None
        return Summary(self, fn, st, v, self.events, self.throws, this)


class _Brk:
    switch = True

    def __init__(self, prev):
        self.prev = prev
        self.breaks = []


class Summary:
    def __init__(self, ip, fn, st, value, events, throws, this):
        self.ip = ip
        self.fn = fn
        self.st = st
        self.value = value
        self.events = events
        self.throws = throws
        self.this = this
        self.unknowns = list(ip.unknowns)
        self.lossy = ip.lossy

    def field(self, name):
        return self.ip.load(self.st, self.ip.sub_lv(self.this, ('f', name)))


def ite_num(c):
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    return ite(c, ONE, ZERO)
