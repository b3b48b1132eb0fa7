"""Library model: the effect of standard, Boost, TBB, AuDi and pagmo operations on the abstract state."""
from terms import *
from cont import *
import re

import cont
import loops

ARITH = {'+', '-', '*', '/'}
MATH1 = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'tanh', 'sinh', 'cosh', 'asin', 'acos', 'atan', 'asinh', 'acosh',
         'atanh', 'erf', 'cbrt', 'exp2', 'expm1', 'log1p', 'log10', 'log2', 'ceil', 'floor', 'round', 'lgamma', 'tgamma',
         'erfc'}


def cls_short(c):
    return (c or '').split('<')[0]



def tmpl_args(t):
    """top-level template arguments of a type"""
    if '<' not in t or not t.endswith('>'):
        return []
    out, d, cur = [], 0, ''
    for ch in t[t.index('<') + 1:-1]:
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        d += ch in '<('
        d -= ch in '>)'
        cur += ch
    return out + [cur.strip()]


FUNCTORS = {'std::' + x for x in ('plus', 'minus', 'multiplies', 'divides', 'negate', 'less', 'greater', 'less_equal',
                                  'greater_equal', 'equal_to', 'not_equal_to')}


class Std:
    def __init__(self, ip):
        self.ip = ip

    # ------------------------------------------------------------ helpers
    def decl(self, n):
        return self.ip.p.decls.get(n.get('fn')) or {}

    def ty(self, n):
        from absint import base_type
        return base_type(self.ip.p.ty(n))

    def vals(self, ns, st):
        return [self.ip.ev(a, st) for a in ns if not self.is_alloc(a)]

    def is_alloc(self, a):
        return self.ty(a).startswith('std::allocator<')

    def strings(self, t):
        from absint import is_str_t
        return is_str_t(t)

    def tostr(self, v):
        if v.op in ('str', 'strcat', 'sjoin', 'sjoinr'):
            return v
        if v.op == 'ite' and any(x.op in ('str', 'strcat') for x in v.args[1:]):
            return ite(v.args[0], self.tostr(v.args[1]), self.tostr(v.args[2]))
        return v

    def shown(self, v, x):
        """what a stream shows of the value of this expression"""
        t = self.ty(x)
        if self.strings(t) or 'char' in t and 'vector' not in t or v.op == 'str':
            return s_lit(chr(int(v.args[0]))) if v.op == 'num' else v
        return self.num2str(self.ip.truth(v) if t == 'bool' else v)

    def num2str(self, v):
        if v.op == 'ite':
            return ite(v.args[0], self.num2str(v.args[1]), self.num2str(v.args[2]))
        return mk('tostr', v)

    def rng(self, b, e, st):
        """(container lv or None, container value, first offset, count)"""
        if b.op == 'ptr' and e.op == 'ptr' and b.args[0] is e.args[0]:
            return b.args[0], self.ip.load(st, b.args[0]), b.args[1], sub(e.args[1], b.args[1])
        return None

    # ------------------------------------------------------------ construction
    def elem_default(self, t):
        from absint import vec_elem_t, is_vec_t, is_str_t, is_int_t, is_float_t, base_type
        et = base_type(vec_elem_t(t))
        if is_vec_t(et):
            return list_()
        if is_str_t(et):
            return s_lit('')
        if et == 'bool':
            return FALSE
        if is_int_t(et) or is_float_t(et):
            return ZERO
        r = self.ip.p.records.get(et)
        if r is not None or et.startswith('audi::'):
            return mk('dflt', et) if not et.startswith('audi::gdual') else ZERO
        return mk('dflt', et)

    def construct(self, n, st, t):
        from absint import is_vec_t, is_str_t, is_int_t, base_type, is_uns_t, vec_elem_t
        ip = self.ip
        c = cls_short(t)
        if c in ('std::vector', 'std::deque', 'std::list', 'std::set', 'std::unordered_set', 'std::initializer_list'):
            an = [a for a in n['a'] if not self.is_alloc(a) and not (a['k'] == 'DefArg')]
            vs = [ip.ev(a, st) for a in an]
            if not vs:
                return list_()
            if len(vs) == 1:
                if is_int_t(ip.p.ty(an[0])):
                    ip.event('alloc', (vs[0],), n, st)
                    return fill(vs[0], self.elem_default(t))
                if c == 'std::set':
                    return mk('set', vs[0])
                self.moved_from(an[0], st)
                return vs[0]
            if vs[0].op in ('ptr', 'rptr') or vs[1].op in ('ptr', 'rptr'):
                r = self.rng(vs[0], vs[1], st)
                if r is not None:
                    ip.event('range', (r[0], r[2], r[3], size(r[1])), n, st)
                    v = slice_(r[1], r[2], r[3])
                    return mk('set', v) if c == 'std::set' else v
                if vs[0].op == 'rptr' and vs[1].op == 'rptr' and vs[0].args[0] is vs[1].args[0]:
                    cc = ip.load(st, vs[0].args[0])
                    k = fresh_var()
                    return tab(sub(vs[0].args[1], vs[1].args[1]), k, sel(cc, sub(sub(vs[0].args[1], ONE), k)))
                return mk('app', 'vector', *vs)
            if is_int_t(ip.p.ty(an[0])):
                ip.event('alloc', (vs[0],), n, st)
                return fill(vs[0], vs[1])
            return mk('app', 'range', *vs)
        if is_str_t(t):
            an = [a for a in n['a'] if not self.is_alloc(a) and a['k'] != 'DefArg']
            vs = [ip.ev(a, st) for a in an]
            if not vs:
                return s_lit('')
            if len(vs) == 1:
                return vs[0]
            if len(vs) == 2 and vs[0].op == 'num' and vs[1].op == 'num':
                return s_lit(chr(int(vs[1].args[0])) * int(vs[0].args[0]))
            return mk('app', 'string', *vs)
        if c in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator'):
            vs = self.vals(n['a'], st)
            if not vs:
                return mk('uninit', id(n))
            v = vs[0]
            if c == 'std::reverse_iterator' and v.op == 'ptr':
                return mk('rptr', v.args[0], v.args[1])
            return v
        if c == 'boost::optional' or c == 'std::optional':
            vs = self.vals(n['a'], st)
            if not vs or vs[0].op == 'none':
                return mk('none')
            if cls_short(self.ty(n['a'][0])) in ('boost::optional', 'std::optional'):
                return vs[0]
            if cls_short(self.ty(n['a'][0])) in ('boost::none_t', 'std::nullopt_t'):
                return mk('none')
            return mk('some', vs[0])
        if c in ('boost::none_t', 'std::nullopt_t'):
            for a in n['a']:
                ip.ev(a, st)
            return mk('none')
        if c in ('std::pair', 'std::tuple'):
            vs = self.vals(n['a'], st)
            if len(vs) == 1:
                return vs[0]
            if not vs:
                if c == 'std::pair':
                    ta = tmpl_args(t)
                    if len(ta) == 2:
                        return rec(mk('new', 'pair'), {k: self.elem_default('std::vector<%s>' % x)
                                                       for k, x in zip(('first', 'second'), ta)})
                    return rec(mk('new', 'pair'), {})
                return mk('dflt', t)
            if c == 'std::pair':
                return rec(mk('new', 'pair'), {'first': vs[0], 'second': vs[1]})
            return rec(mk('new', 'tuple'), {'get%d' % i: v for i, v in enumerate(vs)})
        if c.endswith('_distribution'):
            vs = self.vals([a for a in n['a'] if a['k'] != 'DefArg'], st)
            kind = {'std::uniform_int_distribution': 'uint' if is_uns_t(vec_elem_t(t)) else 'int',
                    'std::uniform_real_distribution': 'real', 'std::normal_distribution': 'normal'}.get(c, c)
            if len(vs) == 1 and vs[0].op == 'dist':
                return vs[0]
            dl = {'real': (ZERO, ONE), 'normal': (ZERO, ONE), 'uint': (ZERO, mk('intmax')), 'int': (ZERO, mk('intmax'))}
            d = dl.get(kind, (ZERO, ONE))
            lo = vs[0] if len(vs) > 0 else d[0]
            hi = vs[1] if len(vs) > 1 else d[1]
            ip.event('dist', (kind, lo, hi), n, st)
            return mk('dist', kind, lo, hi)
        if c == 'std::mersenne_twister_engine':
            vs = self.vals(n['a'], st)
            if len(vs) == 1 and 'mersenne_twister' in ip.p.ty(n['a'][0]):
                return vs[0]
            return mk('engine', *vs)
        if c in ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock') or 'scoped_lock' in c:
            lvs = [ip.lvof(a, st) for a in n['a'] if a['k'] != 'DefArg']
            ip.event('lock', tuple(lvs), n, st)
            if not any('defer_lock' in ip.p.ty(x) for x in n['a']):
                ip.held += lvs
            return mk('lock', *lvs)
        if c == 'audi::gdual':
            an = [a for a in n['a'] if a['k'] != 'DefArg']
            vs = [ip.ev(a, st) for a in an]
            if not vs:
                return ZERO
            if len(vs) == 1:
                return vs[0]
            return mk('app', 'new ' + c, *vs)
        if c in ('std::function', 'std::unique_ptr', 'std::shared_ptr', 'dcgp::function'):
            vs = self.vals([a for a in n['a'] if a['k'] != 'DefArg'], st)
            if len(vs) == 1:
                self.moved_from(n['a'][0], st)
                return vs[0]
            return mk('app', c, *vs) if vs else mk('null')
        if 'exception' in c or c in ('std::invalid_argument', 'std::runtime_error', 'std::out_of_range',
                                     'std::domain_error', 'std::logic_error'):
            return mk('exc', c)
        if c in ('std::basic_ostringstream', 'std::basic_stringstream'):
            return s_lit('')
        if t in ip.p.records and not ip.p.records[t]['fields'] and not n['a']:
            return mk('dflt', t)
        if 'lambda' in t:
            vs = self.vals(n['a'], st)
            return vs[0] if len(vs) == 1 else mk('app', 'lambda', *vs)
        vs = self.vals([a for a in n['a'] if a['k'] != 'DefArg'], st)
        if len(vs) == 1 and self.ty(n['a'][0]) == t:
            return vs[0]
        if c == 'Eigen::Matrix' and len(vs) == 1 and 'Eigen' in self.ty(n['a'][0]):
            return vs[0]
        if c == 'tbb::detail::d1::blocked_range' and len(vs) >= 2:
            return rec(mk('new', 'brange'), {'b': vs[0], 'e': vs[1]})
        if c == 'audi::vectorized' and len(vs) == 1 and base_type(self.ty(n['a'][0])) in ('double', 'int', 'unsigned int'):
            return vs[0]            # one coefficient, broadcast
        if c in FUNCTORS and not vs:
            return mk('dflt', t)
        return mk('obj0', c, *vs) if not vs else mk('app', 'new ' + c, *vs)

    # ------------------------------------------------------------ member calls
    def mcall(self, n, st, want_lv):
        ip = self.ip
        d = self.decl(n)
        cls = cls_short(d.get('cls'))
        name = d.get('name') or n.get('name')
        h = getattr(self, 'm_' + cls.split('::')[-1].strip('_'), None)
        ip.event('mcall', (cls, name), n, st)
        if name in ('lock', 'unlock', 'acquire', 'release') and ('mutex' in cls or 'lock' in cls):
            o = self.objlv(n, st)
            v = ip.load(st, o) if 'lock' in cls else None
            ms = [ip.lvof(x, st) for x in n['a'] if x['k'] != 'DefArg'] or (list(v.args) if v is not None and v.op == 'lock' else [o])
            if name in ('lock', 'acquire'):
                ip.held += ms
            else:
                ip.held[:] = [x for x in ip.held if x not in ms]
            return mk('void')
        if cls in ('std::vector', 'std::basic_string', 'std::deque', 'std::initializer_list', 'std::set') or (
                cls == 'audi::vectorized' and name in ('begin', 'end', 'cbegin', 'cend', 'size')):
            r = self.m_container(n, st, cls, name, want_lv)
            if r is not None:
                return r
        elif cls.endswith('_distribution') and name == 'reset':
            ip.event('draw', ('reset', self.objlv(n, st), None), n, st)
            return mk('void')
        elif h is not None:
            r = h(n, st, name, want_lv)
            if r is not None:
                return r
        elif cls.startswith('tbb::') and name in ('begin', 'end'):
            o = ip.ev(n['obj'], st)
            return fld(o, name[0])
        return self.generic(n, st, d, cls, name, n['a'], obj=n['obj'], arrow=n.get('arrow'))

    def objlv(self, n, st):
        return self.ip.objlv(n, st)

    def moved_from(self, n, st):
        """a vector whose contents were moved away is empty"""
        ip = self.ip
        n = ip.peel(n)
        if n['k'] != 'Call' or len(n['a']) != 1 or self.decl(n).get('name') != 'move':
            return
        x = ip.peel(n['a'][0])
        t = ip.p.ty(x)
        from absint import is_vec_t, base_type
        y = x
        while y['k'] == 'Member' and y.get('b') is not None:
            y = ip.peel(y['b'])
        if t.startswith('const ') or y['k'] not in ('Ref', 'This'):
            return
        if is_vec_t(t):
            ip.assign(st, ip.lvof(x, st), list_(), n)
        elif t.startswith('std::unique_ptr<'):
            ip.assign(st, ip.lvof(x, st), mk('null'), n)
        elif ip.open_function and t.startswith('dcgp::function<'):
            for f in ip.p.records[base_type(t)]['fields']:
                if ip.p.types[f['t']].startswith('std::unique_ptr<'):
                    ip.assign(st, ip.sub_lv(ip.lvof(x, st), ('f', f['name'])), mk('null'), n)

    def f_make_unique(self, n, st, a):
        ip = self.ip
        from absint import base_type, LV
        t = tmpl_args(self.ty(n))
        t = base_type(t[0]) if t else ''
        r = ip.p.records.get(t)
        if not ip.open_function or r is None:
            return None
        cand = [ip.p.fns[m['id']] for m in r['methods'] if m.get('ctor') and m['id'] in ip.p.fns]
        cand = [f for f in cand if len(f.params) == len(a) and ip.inlinable(f)]
        rv = [self.is_rvalue(x) for x in a]
        fit = [f for f in cand if all(p.endswith('&&') == q for p, q in zip(f.ptypes(), rv))] or cand
        if not fit and a:
            return None
        lv = ip.heap(n, t, st)
        if fit:
            ip.enter(fit[0], lv, ip.bind_args(fit[0], a, n, st), n, st, dyncls=t)
        else:
            st.mem[lv.args[0]] = ip.default_of(t, st)
        return mk('addr', lv)

    def is_rvalue(self, n):
        """whether an argument binds to an rvalue reference"""
        n = self.ip.peel(n)
        if n['k'] in ('Call', 'MCall', 'OpCall'):
            rt = str(self.decl(n).get('ret', ''))
            return rt.endswith('&&') or not rt.endswith('&')
        if n['k'] == 'Cast' and n['ck'] == 'XValue':
            return True
        return n['k'] not in ('Ref', 'Member', 'Index')

    def m_container(self, n, st, cls, name, want_lv):
        from absint import is_uns_t, vec_elem_t, is_int_t
        ip = self.ip
        lv = self.objlv(n, st)
        a = n['a']
        ot = ip.p.ty(n['obj'])
        isstr = cls == 'std::basic_string'
        cur = ip.load(st, lv)
        if not isstr and is_uns_t(vec_elem_t(ot)):
            ip.pr.mark_elem(cur)
        if name in ('size', 'length'):
            s = size(cur)
            ip.note_nonneg(s)
            return s
        if name == 'empty':
            return eq(size(cur), ZERO) if not isstr or cur.op != 'str' else (TRUE if cur.args[0] == '' else FALSE)
        if name in ('begin', 'cbegin', 'data'):
            return mk('ptr', lv, ZERO)
        if name in ('end', 'cend'):
            s = size(cur)
            ip.note_nonneg(s)
            return mk('ptr', lv, s)
        if name in ('rbegin', 'crbegin'):
            return mk('rptr', lv, size(cur))
        if name in ('rend', 'crend'):
            return mk('rptr', lv, ZERO)
        if name == 'clear':
            ip.assign(st, lv, s_lit('') if isstr else list_(), n, how='clear')
            return mk('void')
        if name in ('push_back', 'emplace_back') and not isstr:
            if len(a) == 1:
                v = ip.ev(a[0], st)
                self.moved_from(a[0], st)
                if name == 'emplace_back':
                    v = self.emplaced(n, ot, [v], st)
            elif not a:
                v = self.elem_default(ot)
            else:
                v = self.emplaced_ctor(n, ot, a, st)
                if v is None:
                    v = self.emplaced(n, ot, self.vals(a, st), st)
            cur = ip.load(st, lv)
            ip.assign(st, lv, cat(cur, list_(v)), n, how='append')
            return ip.index_lv(lv, size(cur))
        if name == 'pop_back':
            ip.assign(st, lv, slice_(cur, ZERO, sub(size(cur), ONE)), n)
            return mk('void')
        if name == 'resize':
            m = ip.ev(a[0], st)
            fillv = ip.ev(a[1], st) if len(a) > 1 and a[1]['k'] != 'DefArg' else self.elem_default(ot)
            cur = ip.load(st, lv)
            s = size(cur)
            if ip.prove(eq(s, m), st) is True:
                r = cur
            elif ip.prove(eq(s, ZERO), st) is True:
                r = fill(m, fillv)
            elif ip.prove(le(s, m, True), st) is True:
                r = cat(cur, fill(sub(m, s), fillv))
            elif ip.prove(le(m, s, True), st) is True:
                r = slice_(cur, ZERO, m)
            else:
                r = mk('resized', cur, m, fillv)
            ip.assign(st, lv, r, n, how='resize')
            return mk('void')
        if name == 'assign':
            vs = self.vals(a, st)
            if len(vs) == 2 and is_int_t(ip.p.ty(a[0])):
                r = fill(vs[0], vs[1])
            elif len(vs) == 2:
                q = self.rng(vs[0], vs[1], st)
                r = slice_(q[1], q[2], q[3]) if q else unk('assign')
            else:
                r = vs[0]
            ip.assign(st, lv, r, n)
            return mk('void')
        if name in ('reserve', 'shrink_to_fit'):
            for x in a:
                ip.ev(x, st)
            return mk('void')
        if name in ('front',):
            ip.event('index', (lv, ZERO, size(cur)), n, st)
            return ip.index_lv(lv, ZERO)
        if name == 'back':
            ip.event('index', (lv, sub(size(cur), ONE), size(cur)), n, st)
            return ip.index_lv(lv, sub(size(cur), ONE))
        if name == 'at':
            i = ip.ev(a[0], st)
            cur = ip.load(st, lv)
            g = lt(i, size(cur), True)
            r = ip.prove(g, st)
            if r is not True:
                bad = st.copy()
                if ip.assume(bad, b_not(g)):
                    ip.raise_(n, bad, 'std::out_of_range')
                if not ip.assume(st, g):
                    from absint import Dead
                    raise Dead()
            return ip.index_lv(lv, i)
        if name == 'insert':
            vs = self.vals(a, st)
            cur = ip.load(st, lv)
            if vs and vs[0].op == 'ptr' and vs[0].args[0] is lv:
                off = vs[0].args[1]
                s = size(cur)
                ins = None
                if len(vs) == 3:
                    if vs[1].op in ('ptr', 'rptr'):
                        q = self.rng(vs[1], vs[2], st)
                        if q is not None:
                            ins = slice_(q[1], q[2], q[3])
                    elif is_int_t(ip.p.ty(a[1])):
                        ins = fill(vs[1], vs[2])
                elif len(vs) == 2:
                    ins = vs[1] if 'initializer_list' in ip.p.ty(a[1]) else list_(vs[1])
                if ins is not None:
                    if off is s:
                        r = cat(cur, ins)
                    else:
                        r = cat(cat(slice_(cur, ZERO, off), ins), slice_(cur, off, sub(s, off)))
                    ip.assign(st, lv, r, n, how='append' if off is s else 'insert')
                    return mk('ptr', lv, off)
            ip.assign(st, lv, unk('insert'), n)
            return unk('insert')
        if name == 'erase':
            vs = self.vals(a, st)
            cur = ip.load(st, lv)
            if len(vs) == 2 and all(v.op == 'ptr' and v.args[0] is lv for v in vs):
                o1, o2 = vs[0].args[1], vs[1].args[1]
                if o1.op == 'uniqlen' and cur.op == 'uniq' and o1.args[0] is cur.args[0] and o2 is size(cur):
                    r = mk('dedup', cur.args[0])
                elif o2 is size(cur):
                    r = slice_(cur, ZERO, o1)
                else:
                    r = cat(slice_(cur, ZERO, o1), slice_(cur, o2, sub(size(cur), o2)))
                ip.assign(st, lv, r, n)
                return mk('ptr', lv, o1)
            if len(vs) == 1 and vs[0].op == 'ptr' and vs[0].args[0] is lv:
                o1 = vs[0].args[1]
                o2 = add(o1, ONE)
                ip.assign(st, lv, cat(slice_(cur, ZERO, o1), slice_(cur, o2, sub(size(cur), o2))), n)
                return vs[0]
            ip.assign(st, lv, unk('erase'), n)
            return unk('erase')
        if name == 'swap':
            o = ip.lvof(a[0], st)
            x, y = ip.load(st, lv), ip.load(st, o)
            ip.assign(st, lv, y, n)
            ip.assign(st, o, x, n)
            return mk('void')
        if isstr:
            vs = self.vals(a, st)
            cur = ip.load(st, lv)
            if name == 'compare' and len(vs) == 1:
                return mk('app', 'strcmp', cur, vs[0])
            if name == 'append':
                ip.assign(st, lv, strcat(cur, vs[0]), n)
                return lv
            if name == 'push_back':
                c = vs[0]
                ip.assign(st, lv, strcat(cur, s_lit(chr(int(c.args[0]))) if c.op == 'num' else c), n)
                return mk('void')
            if name == 'c_str':
                return cur
            return mk('app', 'string::' + name, cur, *vs)
        if name in ('operator=',):
            v = ip.ev(a[0], st)
            ip.assign(st, lv, v, n)
            return lv
        if name == 'count' or name == 'find':
            return mk('app', cls + '::' + name, cur, *self.vals(a, st))
        return None

    def emplaced_ctor(self, n, ot, a, st):
        """element built in place by a constructor of the library"""
        from absint import vec_elem_t, base_type, LV
        ip = self.ip
        et = base_type(vec_elem_t(ot))
        if et not in ip.p.records or not et.startswith('dcgp::'):
            return None
        ts = [base_type(ip.p.ty(x)) for x in a]

        def conv(have, want):
            return have == want or ('basic_string' in want and 'char' in have) or (
                want in ('double', 'unsigned int', 'int') and have in ('double', 'unsigned int', 'int', 'unsigned long'))
        fs = [f for f in ip.p.fns.values() if f.ctor and f.cls == et and f.body is not None and len(f.params) == len(a)
              and all(conv(h, base_type(w)) for h, w in zip(ts, f.ptypes()))]
        ids = {str(f.loc) for f in fs}
        if not fs or len(ids) != 1:
            return None
        fn = fs[0]
        root = mk('obj', 'new', ip.nid(n), ip.frame.key if ip.frame else 0, ip.kargs())
        st.mem[root] = mk('new', et)
        ip.enter(fn, LV(root), ip.bind_args(fn, a, n, st), n, st, dyncls=et)
        v = st.mem.get(root, mk('init', root))
        st.mem.pop(root, None)
        return v

    def emplaced(self, n, ot, vs, st):
        from absint import vec_elem_t, base_type, is_int_t
        ip = self.ip
        et = base_type(vec_elem_t(ot))
        c = cls_short(et)
        if c == 'std::pair' and len(vs) == 2:
            return rec(mk('new', 'pair'), {'first': vs[0], 'second': vs[1]})
        if c == 'std::tuple' and len(vs) > 1:
            return rec(mk('new', 'tuple'), {'get%d' % i: v for i, v in enumerate(vs)})
        if c == 'std::vector' and len(vs) == 2 and n.get('a') and is_int_t(base_type(ip.p.ty(n['a'][0]))):
            return fill(vs[0], vs[1])
        if len(vs) == 1:
            a = [x for x in n['a'] if x['k'] != 'DefArg']
            if et.startswith('SymEngine::') and base_type(ip.p.ty(a[0])) != et:
                return mk('app', 'new ' + c, *vs)
            return vs[0]
        return mk('app', 'new ' + c, *vs)

    def m_optional(self, n, st, name, want_lv):
        ip = self.ip
        lv = self.objlv(n, st)
        if name in ('operator bool', 'is_initialized', 'has_value'):
            return ip.truth(ip.load(st, lv))
        if name in ('get', 'value'):
            return self.opt_get(ip.load(st, lv))
        if name == 'operator=':
            v = ip.ev(n['a'][0], st)
            ip.assign(st, lv, v, n)
            return lv
        if name == 'reset':
            ip.assign(st, lv, mk('none'), n)
            return mk('void')
        return None

    def opt_get(self, v):
        if v.op == 'some':
            return v.args[0]
        if v.op == 'ite':
            return ite(v.args[0], self.opt_get(v.args[1]), self.opt_get(v.args[2]))
        return fld(v, '*')

    def m_mersenne_twister_engine(self, n, st, name, want_lv):
        ip = self.ip
        lv = self.objlv(n, st)
        if name == 'discard':
            ip.event('draw', ('discard', lv, None), n, st)
        if name == 'seed':
            v = self.vals([a for a in n['a'] if a['k'] != 'DefArg'], st)
            ip.assign(st, lv, mk('engine', *v), n, how='seed')
            return mk('void')
        if name == 'operator=':
            v = ip.ev(n['a'][0], st)
            ip.assign(st, lv, v, n)
            return lv
        return None

    def m_basic_ostringstream(self, n, st, name, want_lv):
        if name == 'str':
            return self.ip.load(st, self.objlv(n, st))
        return None

    def m_gdual(self, n, st, name, want_lv):
        """truncated series: the symbol set does not change what a series denotes"""
        ip = self.ip
        if name == 'extend_symbol_set':
            lv = self.objlv(n, st)
            vs = self.vals(n['a'], st)
            ip.assign(st, lv, mk('app', 'extended', ip.load(st, lv), *vs), n)
            return mk('void')
        if name in ('get_order', 'constant_cf'):
            v = ip.ev(n['obj'], st)
            while v.op == 'app' and v.args[0] == 'extended':
                v = v.args[1]
            if name == 'get_order':
                return mk('app', 'order', v)
            return v if v.op == 'num' else mk('cf', v)
        if name == 'constant_cf':
            v = ip.ev(n['obj'], st)
            return v if v.op == 'num' else mk('cf', v)
        return None

    def m_population(self, n, st, name, want_lv):
        ip = self.ip
        lv = self.objlv(n, st)
        X, Fv = ip.sub_lv(lv, ('f', 'x')), ip.sub_lv(lv, ('f', 'f'))
        if name == 'get_x':
            return X
        if name == 'get_f':
            return Fv
        if name == 'get_ID':
            return ip.sub_lv(lv, ('f', 'ID'))
        if name == 'get_problem':
            return ip.sub_lv(lv, ('f', 'prob'))
        if name == 'size':
            s = size(ip.load(st, X))
            ip.note_nonneg(s)
            return s
        if name == 'set_xf':
            i, x, f = self.vals(n['a'], st)
            ip.event('set_xf', (lv, i, x, f), n, st)
            ip.assign(st, ip.index_lv(X, i), x, n, how='set_xf')
            ip.assign(st, ip.index_lv(Fv, i), f, n, how='set_xf')
            return mk('void')
        if name == 'set_x':
            i, x = self.vals(n['a'], st)
            f = mk('app', 'fitness', x)
            ip.event('set_xf', (lv, i, x, f), n, st)
            ip.assign(st, ip.index_lv(X, i), x, n, how='set_xf')
            ip.assign(st, ip.index_lv(Fv, i), f, n, how='set_xf')
            return mk('void')
        if name == 'push_back':
            vs = self.vals([a for a in n['a'] if a['k'] != 'DefArg'], st)
            x = vs[0]
            f = vs[1] if len(vs) > 1 else mk('app', 'fitness', x)
            ip.event('pop_push', (lv, x, f), n, st)
            ip.assign(st, X, cat(ip.load(st, X), list_(x)), n, how='append')
            ip.assign(st, Fv, cat(ip.load(st, Fv), list_(f)), n, how='append')
            return mk('void')
        if name in ('best_idx', 'worst_idx'):
            r = mk('app', name, ip.load(st, Fv))
            ip.uns.add(r)
            return r
        if name in ('champion_x', 'champion_f'):
            return mk('app', name, ip.load(st, X), ip.load(st, Fv))
        return None

    def m_not_population_based(self, n, st, name, want_lv):
        """the individual an algorithm takes from a population, and the one it replaces (policies: best by default)"""
        ip = self.ip
        if name not in ('select_individual', 'replace_individual'):
            return None
        lv = ip.lvof(n['a'][0], st)
        X, Fv = ip.sub_lv(lv, ('f', 'x')), ip.sub_lv(lv, ('f', 'f'))
        if name == 'select_individual':
            i = mk('app', 'select_idx', ip.load(st, Fv))
            ip.uns.add(i)
            return rec(mk('new', 'pair'), {'first': sel(ip.load(st, X), i), 'second': sel(ip.load(st, Fv), i)})
        vs = self.vals(n['a'][1:], st)
        if len(vs) != 2:
            return None
        x, f = vs
        i = mk('app', 'replace_idx', ip.load(st, Fv))
        ip.uns.add(i)
        ip.event('set_xf', (lv, i, x, f), n, st)
        ip.assign(st, ip.index_lv(X, i), x, n, how='set_xf')
        ip.assign(st, ip.index_lv(Fv, i), f, n, how='set_xf')
        return mk('void')

    def m_problem(self, n, st, name, want_lv):
        ip = self.ip
        lv = self.objlv(n, st)
        if name in ('fitness', 'gradient', 'hessians'):
            x = ip.ev(n['a'][0], st)
            ip.event('eval', (name, lv, x), n, st)
            if ip.count_evals:
                c = self.evals(name[0])
                ip.assign(st, c, add(ip.load(st, c), ONE), n, how='count')
            return mk('app', name, x)
        if name in ('get_fevals', 'get_gevals', 'get_hevals') and ip.count_evals:
            return ip.load(st, self.evals(name[4]))
        if name in ('get_fevals', 'get_gevals', 'get_hevals'):
            v = mk('count', name, id(n), ip.frame.key, ip.kargs())
            ip.uns.add(v)
            return v
        if name == 'extract' and 'symbolic_regression' in str(self.ip.p.ty(n)):
            return mk('app', 'udp', ip.load(st, lv))
        if name in ('get_nx', 'get_nix'):
            g = self.chromosome_length(ip.load(st, lv), n, st)
            if g is not None:
                c = mk('app', 'problem::get_ncx')
                ip.uns.add(c)
                return g if name == 'get_nix' else add(c, g)
        vs = self.vals(n['a'], st)
        r = mk('app', 'problem::' + name, *vs)
        if name in ('get_nobj', 'get_nx', 'get_ncx', 'get_nix', 'get_nec', 'get_nic', 'get_nf', 'get_nc'):
            ip.uns.add(r)
        return r

    def evals(self, k):
        """where a problem counts the evaluations of one kind"""
        c = mk('lv', mk('obj', 'evaluations'), (('f', k),))
        self.ip.uns.add(fld(mk('init', mk('obj', 'evaluations')), k))
        return c

    def chromosome_length(self, P, n, st):
        """the integer dimension of a regression problem is the length of the chromosome of its expression"""
        ip = self.ip
        lv = mk('lv', mk('obj', 'pointee', mk('app', 'udp', P)), ())
        cls = 'dcgp::symbolic_regression'
        rec_, ip.rec = ip.rec, False
        try:
            for name in ('get_cgp', 'get'):
                fs = [f for f in ip.p.find(cls, name) if f.body is not None and not f.params]
                if not fs:
                    return None
                r = ip.enter(fs[0], lv, [], n, st.copy(), dyncls=cls)
                if name == 'get':
                    s = size(self.val(r, st))
                    ip.note_nonneg(s)
                    return s
                lv = r if r.op == 'lv' else mk('val', r)
                cls = 'dcgp::expression<double>'
        finally:
            ip.rec = rec_

    def m_unique_ptr(self, n, st, name, want_lv):
        ip = self.ip
        v = ip.ev(n['obj'], st) if not n.get('arrow') else ip.load(st, self.objlv(n, st))
        if name == 'get':
            return v
        if name == 'operator bool':
            return ip.truth(v)
        return None

    # ------------------------------------------------------------ operators
    def opcall(self, n, st, want_lv):
        ip = self.ip
        from absint import is_str_t, is_uns_t, vec_elem_t, is_vec_t
        op = n['op']
        a = n['a']
        d = self.decl(n)
        t0 = self.ty(a[0])
        c0 = cls_short(t0)
        if op == '()':
            if c0.endswith('_distribution'):
                return self.draw(n, st)
            if c0 == 'std::mersenne_twister_engine':
                lv = ip.lvof(a[0], st)
                ip.event('draw', ('raw', lv, None), n, st)
                return mk('draw', 'raw', ZERO, mk('intmax'), id(n), ip.frame.key, ip.kargs())
            if c0 == 'std::random_device':
                ip.event('draw', ('device', None, None), n, st)
                return mk('draw', 'device', ZERO, mk('intmax'), id(n), ip.frame.key, ip.kargs())
            if c0.startswith('Eigen::'):
                lv = ip.lvof(a[0], st)
                ix = self.vals(a[1:], st)
                return ip.index_lv(lv, mk('idx', *ix))
            if c0 == 'pagmo::bfe':
                vs = [ip.lvof(x, st) for x in a[1:]]
                dv = ip.load(st, vs[1]) if len(vs) > 1 else None
                ip.event('eval', ('bfe', vs[0], dv), n, st)
                return mk('app', 'bfe', dv)
            c = ip.ev(a[0], st)
            args = []
            fn = None
            if c.op == 'clo':
                cand = [ip.p.fns[i] for i in c.args[4] if i in ip.p.fns] or [ip.p.fns.get(c.args[0])]
                fn = cand[0]
            elif c.op == 'fnobj' or c.op == 'dflt':
                q = ip.p.find(c.args[0], 'operator()')
                fn = q[0] if len(q) == 1 else None
                if c.op == 'dflt' and fn is not None and fn.body:
                    c = mk('fnobj', c.args[0])
            ts = fn.ptypes() if fn is not None else []
            for i, x in enumerate(a[1:]):
                if i < len(ts) and ts[i].endswith('&'):
                    args.append(('r', ip.lvof(x, st)))
                else:
                    args.append(ip.ev(x, st))
            if c0 == 'dcgp::function' or c0 == 'std::function':
                ip.event('fcall', (c, tuple(args)), n, st)
                if 'symbolic_regression *(const pagmo::problem &)' in t0 and args:
                    return mk('app', 'udp', self.val(args[0][1] if isinstance(args[0], tuple) else args[0], st))
            return ip.call_value(c, args, n, st, a[1:])
        if op == '[]':
            lv = ip.lvof(a[0], st)
            i = ip.ev(a[1], st)
            cur = ip.load(st, lv)
            if c0.startswith('__gnu') or c0 == 'std::reverse_iterator' or cur.op == 'ptr':
                return ip.deref(ip.ptr_add(cur, i), st, n)
            if is_vec_t(t0) and is_uns_t(vec_elem_t(t0)):
                ip.pr.mark_elem(cur)
            ip.event('index', (lv, i, size(cur)), n, st)
            return ip.index_lv(lv, i)
        if op in ('*', '->') and len(a) == 1:
            if c0 in ('boost::optional', 'std::optional'):
                v = ip.ev(a[0], st)
                ip.event('optget', (v,), n, st)
                r = self.opt_get(v)
                return mk('addr', mk('lv', mk('obj', 'optval', r), ())) if op == '->' else r
            if c0 in ('std::unique_ptr', 'std::shared_ptr'):
                v = ip.ev(a[0], st)
                return v if op == '->' else ip.deref(v, st, n)
            v = ip.ev(a[0], st)
            if op == '*':
                return ip.deref(v, st, n)
            lv = ip.deref(v, st, n)
            return mk('addr', lv)
        if op in ('++', '--'):
            lv = ip.lvof(a[0], st)
            v = ip.load(st, lv)
            dlt = ONE if op == '++' else num(-1)
            nv = ip.ptr_add(v, dlt)
            ip.assign(st, lv, nv, n)
            return v if len(a) > 1 else lv
        if op == '=':
            v = ip.ev(a[1], st)
            lv = ip.lvof(a[0], st)
            if c0 in ('boost::optional', 'std::optional'):
                c1 = cls_short(self.ty(a[1]))
                if c1 in ('boost::none_t', 'std::nullopt_t'):
                    v = mk('none')
                elif c1 != c0:
                    v = mk('some', v)
            if is_str_t(t0) and v.op == 'num':
                v = s_lit(chr(int(v.args[0])))
            self.moved_from(a[1], st)
            ip.assign(st, lv, v, n)
            return lv
        if op in ('+=', '-=', '*=', '/='):
            v = ip.ev(a[1], st)
            lv = ip.lvof(a[0], st)
            cur = ip.load(st, lv)
            if cur.op in ('ptr', 'rptr'):
                nv = ip.ptr_add(cur, v if op == '+=' else neg(v))
            elif is_str_t(t0):
                if v.op == 'num' and self.ty(a[1]) == 'char':
                    v = s_lit(chr(int(v.args[0])))
                nv = strcat(cur, v)
            else:
                nv = self.arith(op[0], cur, v)
            ip.assign(st, lv, nv, n, how=op)
            return lv
        if op == '<<' and ('ostream' in t0 or 'stream' in t0):
            lv = ip.lvof(a[0], st)
            v = ip.ev(a[1], st)
            if v.op in ('func', 'app') and v.op == 'func':
                return lv
            ip.event('stream', (lv, v), n, st)
            cur = ip.load(st, lv)
            s = self.shown(v, a[1])
            if lv.op == 'lv':
                ip.assign(st, lv, strcat(cur, s), n, how='stream')
            return lv
        if len(a) == 2 and op in ('==', '!=', '<', '<=', '>', '>='):
            x, y = ip.ev(a[0], st), ip.ev(a[1], st)
            return ip.binop(op, x, y, ip.p.ty(a[0]), ip.p.ty(a[1]), ip.p.ty(n), n, st)
        if len(a) == 2 and op in ARITH:
            x, y = ip.ev(a[0], st), ip.ev(a[1], st)
            if x.op in ('ptr', 'rptr') or y.op in ('ptr', 'rptr') or ip._ptree(x):
                return ip.binop(op, x, y, ip.p.ty(a[0]), ip.p.ty(a[1]), ip.p.ty(n), n, st)
            if is_str_t(t0) or is_str_t(self.ty(a[1])):
                x = s_lit(chr(int(x.args[0]))) if x.op == 'num' else x
                y = s_lit(chr(int(y.args[0]))) if y.op == 'num' else y
                return strcat(x, y)
            if c0.startswith('Eigen') or cls_short(self.ty(a[1])).startswith('Eigen'):
                return mk('app', 'eigen' + op, x, y)
            return self.arith(op, x, y)
        if len(a) == 1 and op == '-':
            return neg(ip.ev(a[0], st))
        if len(a) == 1 and op == '+':
            return ip.ev(a[0], st)
        if len(a) == 1 and op == '!':
            return b_not(ip.truth(ip.ev(a[0], st)))
        return self.generic(n, st, d, cls_short(d.get('cls')), 'operator' + op, a)

    def arith(self, op, x, y):
        x, y = self.ip.as_num(x), self.ip.as_num(y)
        if op == '+':
            return add(x, y)
        if op == '-':
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        return fdiv(x, y)

    def draw(self, n, st):
        ip = self.ip
        a = n['a']
        dv = ip.ev(a[0], st)
        eng = ip.lvof(a[1], st)
        kind, lo, hi = dv.args if dv.op == 'dist' else (None, None, None)
        if len(a) > 2:
            kind = None
        if kind is None:
            kind, lo, hi = 'opaque', dv, ZERO
        t = mk('draw', kind, lo, hi, id(n), ip.frame.key, ip.kargs())
        ip.event('draw', (kind, eng, t, ip.load(st, eng)), n, st)
        return t

    # ------------------------------------------------------------ free functions
    def call(self, n, st, want_lv):
        ip = self.ip
        d = self.decl(n)
        name = d.get('name') or n.get('name')
        a = [x for x in n['a']]
        if name is None:
            c = ip.ev(n['callee'], st)
            ts = []
            args = [ip.ev(x, st) for x in a]
            return ip.call_value(c, args, n, st, a)
        f = getattr(self, 'f_' + name, None)
        if f is not None:
            r = f(n, st, a)
            if r is not None:
                return r
        if name in MATH1 and len(a) == 1:
            v = ip.as_num(ip.ev(a[0], st))
            return self.fn1(name, v)
        if name == '__assert_fail':
            from absint import Dead
            raise Dead()
        return self.generic(n, st, d, cls_short(d.get('cls')), name, a)

    def fn1(self, name, v):
        if v.op == 'ite':
            return ite(v.args[0], self.fn1(name, v.args[1]), self.fn1(name, v.args[2]))
        if v is ZERO:
            z = {'sin': 0, 'tan': 0, 'exp': 1, 'cos': 1, 'sqrt': 0, 'tanh': 0, 'sinh': 0, 'cosh': 1, 'atan': 0,
                 'asin': 0, 'log1p': 0, 'expm1': 0}.get(name)
            if z is not None:
                return num(z)
        if v is ONE and name in ('sqrt',):
            return ONE
        if v is ONE and name in ('log',):
            return ZERO
        return mk('fn', name, v)

    def f_move(self, n, st, a):
        return self.ip.lvof(a[0], st) if len(a) == 1 else None

    f_forward = f_move
    f_as_const = f_move
    f_ref = f_move
    f_cref = f_move

    def f_addressof(self, n, st, a):
        return mk('addr', self.ip.lvof(a[0], st))

    def f_abs(self, n, st, a):
        v = self.ip.as_num(self.ip.ev(a[0], st))
        if v.op == 'num':
            return num(abs(v.args[0]))
        return mk('abs', v)

    f_fabs = f_abs

    def f_pow(self, n, st, a):
        x, y = [self.ip.as_num(self.ip.ev(v, st)) for v in a]
        return self.power(x, y)

    def power(self, x, y):
        if y.op == 'num' and y.args[0].denominator == 1 and 0 <= y.args[0] <= 12:
            r = ONE
            for _ in range(int(y.args[0])):
                r = mul(r, x)
            return r
        if y.op == 'num' and y.args[0] == Fraction(1, 2):
            return self.fn1('sqrt', x)
        return mk('fn', 'pow', x, y)

    def f_isfinite(self, n, st, a):
        return mk('pred', 'finite', self.ip.ev(a[0], st))

    def f_isnan(self, n, st, a):
        return mk('pred', 'nan', self.ip.ev(a[0], st))

    def f_isinf(self, n, st, a):
        return mk('pred', 'inf', self.ip.ev(a[0], st))

    def f_to_string(self, n, st, a):
        return self.num2str(self.ip.ev(a[0], st))

    def f_numeric_cast(self, n, st, a):
        return self.ip.ev(a[0], st)

    def f_infinity(self, n, st, a):
        return mk('fconst', 'inf')

    def f_quiet_NaN(self, n, st, a):
        return mk('fconst', 'nan')

    def f_epsilon(self, n, st, a):
        return mk('fconst', 'eps')

    def f_max(self, n, st, a):
        if not a:
            return mk('fconst', 'max ' + self.ty(n))
        return self.minmax(n, st, a, False)

    def f_min(self, n, st, a):
        if not a:
            return mk('fconst', 'min ' + self.ty(n))
        return self.minmax(n, st, a, True)

    def f_lowest(self, n, st, a):
        return mk('fconst', 'lowest')

    def minmax(self, n, st, a, lo):
        ip = self.ip
        vs = [ip.ev(x, st) for x in a]
        if len(vs) == 1 and vs[0].op == 'list':
            vs = list(vs[0].args)
        elif len(vs) != 2:
            return None
        r = vs[0]
        t = ip.p.ty(n)
        tt = ip.p.ty(a[0]) if len(a) == 2 else t
        for v in vs[1:]:
            c = ip.binop('<', v, r, tt, tt, 'bool', n, st) if lo else ip.binop('<', r, v, tt, tt, 'bool', n, st)
            k = ip.prove(c, st) if is_bool(c) else None
            r = v if k is True else (r if k is False else ite(c, v, r))
        return r

    def f_distance(self, n, st, a):
        x, y = [self.ip.ev(v, st) for v in a]
        return self.pdiff(y, x)

    def pdiff(self, y, x):
        if x.op == 'ptr' and y.op == 'ptr' and x.args[0] is y.args[0]:
            return sub(y.args[1], x.args[1])
        if x.op == 'rptr' and y.op == 'rptr' and x.args[0] is y.args[0]:
            return sub(x.args[1], y.args[1])
        if y.op == 'ite':
            return ite(y.args[0], self.pdiff(y.args[1], x), self.pdiff(y.args[2], x))
        r = mk('ptrdiff', y, x)
        return r

    def f_next(self, n, st, a):
        vs = [self.ip.ev(v, st) for v in a]
        return self.ip.ptr_add(vs[0], vs[1] if len(vs) > 1 else ONE)

    def f_prev(self, n, st, a):
        vs = [self.ip.ev(v, st) for v in a]
        return self.ip.ptr_add(vs[0], neg(vs[1]) if len(vs) > 1 else num(-1))

    def f_advance(self, n, st, a):
        lv = self.ip.lvof(a[0], st)
        k = self.ip.ev(a[1], st)
        self.ip.assign(st, lv, self.ip.ptr_add(self.ip.load(st, lv), k), n)
        return mk('void')

    def f_begin(self, n, st, a):
        return mk('ptr', self.ip.lvof(a[0], st), ZERO)

    f_cbegin = f_begin

    def f_end(self, n, st, a):
        lv = self.ip.lvof(a[0], st)
        return mk('ptr', lv, size(self.ip.load(st, lv)))

    f_cend = f_end

    def f_size(self, n, st, a):
        return size(self.ip.ev(a[0], st))

    def f_back_inserter(self, n, st, a):
        return mk('inserter', self.ip.lvof(a[0], st))

    def out(self, dst, k, v, n, st):
        """write element k of an output range"""
        ip = self.ip
        if dst.op == 'inserter':
            lv = dst.args[0]
            ip.assign(st, lv, cat(ip.load(st, lv), list_(v)), n, how='append')
        elif dst.op in ('ptr', 'rptr'):
            lv = ip.deref(ip.ptr_add(dst, k), st, n)
            ip.assign(st, lv, v, n)
        else:
            ip.unknown('output range', n)

    def elem(self, p, k, n, st):
        return self.ip.deref(self.ip.ptr_add(p, k), st, n)

    def loop(self, n, st, cnt, body, tag):
        ip = self.ip
        ip.note_nonneg(cnt)
        ok = ip.synth_loop(n, st, cnt, body, tag)
        if not ok:
            from absint import Dead
            raise Dead()

    def count(self, b, e, n, st):
        c = self.pdiff(e, b)
        return c

    def f_copy(self, n, st, a):
        ip = self.ip
        b, e, o = [ip.ev(v, st) for v in a[:3]]
        cnt = self.count(b, e, n, st)
        ip.event('copy', (b, e, o, cnt), n, st)
        r = self.rng(b, e, st)
        if r is not None and o.op == 'inserter':
            lv = o.args[0]
            ip.assign(st, lv, cat(ip.load(st, lv), slice_(r[1], r[2], r[3])), n, how='append')
            return o
        src = self.rng(b, e, st)
        if src is not None and o.op == 'ptr':
            lv = o.args[0]
            cur = ip.load(st, lv)
            k = fresh_var()
            s = src[1]
            off = src[2]
            v = sel(s, add(off, k), ip.prover(st))
            if o.args[1] is ZERO and size(cur) is cnt:
                new = slice_(s, off, cnt)
            else:
                new = lm(cur, k, cnt, add(o.args[1], k), v)
            ip.assign(st, lv, new, n)
            return ip.ptr_add(o, cnt)

        def body(s):
            k = ip.loop.kappa
            v = ip.load(s, self.elem(b, k, n, s))
            self.out(o, k, v, n, s)
            return True
        self.loop(n, st, cnt, body, 'copy')
        return ip.ptr_add(o, cnt) if o.op != 'inserter' else o

    def f_transform(self, n, st, a):
        ip = self.ip
        vs = [ip.ev(v, st) for v in a]
        if len(vs) == 4:
            b, e, o, f = vs
            b2 = None
        elif len(vs) == 5:
            b, e, b2, o, f = vs
        else:
            return None
        cnt = self.count(b, e, n, st)
        ip.event('range', (b, cnt), n, st)

        def body(s):
            k = ip.loop.kappa
            args = [('r', self.elem(b, k, n, s))]
            if b2 is not None:
                args.append(('r', self.elem(b2, k, n, s)))
            v = ip.call_value(f, args, n, s)
            v = self.val(v, s)
            self.out(o, k, v, n, s)
            return True
        self.loop(n, st, cnt, body, 'transform')
        return ip.ptr_add(o, cnt) if o.op != 'inserter' else o

    def val(self, v, st):
        if v.op == 'lv' or (v.op in ('ite', 'val') and self.ip._ltree(v)):
            return self.ip.load(st, v)
        return v

    def f_for_each(self, n, st, a):
        ip = self.ip
        b, e, f = [ip.ev(v, st) for v in a]
        cnt = self.count(b, e, n, st)

        def body(s):
            ip.call_value(f, [('r', self.elem(b, ip.loop.kappa, n, s))], n, s)
            return True
        self.loop(n, st, cnt, body, 'for_each')
        return f

    def f_fill(self, n, st, a):
        ip = self.ip
        b, e, v = [ip.ev(x, st) for x in a]
        cnt = self.count(b, e, n, st)

        def body(s):
            self.out(b, ip.loop.kappa, v, n, s)
            return True
        self.loop(n, st, cnt, body, 'fill')
        return mk('void')

    def f_generate(self, n, st, a):
        ip = self.ip
        b, e, f = [ip.ev(x, st) for x in a]
        cnt = self.count(b, e, n, st)

        def body(s):
            v = self.val(ip.call_value(f, [], n, s), s)
            self.out(b, ip.loop.kappa, v, n, s)
            return True
        self.loop(n, st, cnt, body, 'gen')
        return mk('void')

    def f_generate_n(self, n, st, a):
        ip = self.ip
        b, cnt, f = [ip.ev(x, st) for x in a]

        def body(s):
            v = self.val(ip.call_value(f, [], n, s), s)
            self.out(b, ip.loop.kappa, v, n, s)
            return True
        self.loop(n, st, cnt, body, 'gen')
        return ip.ptr_add(b, cnt) if b.op != 'inserter' else b

    def f_iota(self, n, st, a):
        ip = self.ip
        b, e, v = [ip.ev(x, st) for x in a]
        cnt = self.count(b, e, n, st)

        def body(s):
            self.out(b, ip.loop.kappa, add(v, ip.loop.kappa), n, s)
            return True
        self.loop(n, st, cnt, body, 'iota')
        return mk('void')

    def narrowed(self, n, its, step):
        """an integral accumulator of floating elements loses the fraction at every step"""
        from absint import is_int_t
        if is_int_t(self.ty(n)) and any(re.search(r'\b(double|float)\b', self.ty(x)) for x in its):
            return lambda s, acc, k: self.ip.trunc(step(s, acc, k))
        return step

    def accum(self, n, st, cnt, init, step, tag):
        ip = self.ip
        r = ip.tmp(n, tag)
        from absint import LV
        st.mem[r] = init
        lv = LV(r)

        def body(s):
            ip.assign(s, lv, step(s, ip.load(s, lv), ip.loop.kappa), n)
            return True
        rec_ = ip.rec
        self.loop(n, st, cnt, body, tag)
        return st.mem.pop(r)

    def f_accumulate(self, n, st, a):
        ip = self.ip
        from absint import is_str_t
        vs = [ip.ev(x, st) for x in a]
        b, e, init = vs[:3]
        f = vs[3] if len(vs) > 3 else None
        cnt = self.count(b, e, n, st)

        def step(s, acc, k):
            x = ip.load(s, self.elem(b, k, n, s))
            if f is not None:
                return self.val(ip.call_value(f, [acc, x], n, s), s)
            return strcat(acc, x) if is_str_t(self.ty(n)) else add(acc, ip.as_num(x))
        return self.accum(n, st, cnt, init, self.narrowed(n, a[:1], step), 'acc')

    f_reduce = f_accumulate

    def f_inner_product(self, n, st, a):
        ip = self.ip
        vs = [ip.ev(x, st) for x in a]
        b, e, b2, init = vs[:4]
        cnt = self.count(b, e, n, st)

        def step(s, acc, k):
            if len(vs) == 6:
                q = self.val(ip.call_value(vs[5], [ip.load(s, self.elem(b, k, n, s)), ip.load(s, self.elem(b2, k, n, s))], n, s), s)
                return self.val(ip.call_value(vs[4], [acc, q], n, s), s)
            return add(acc, mul(ip.load(s, self.elem(b, k, n, s)), ip.load(s, self.elem(b2, k, n, s))))
        return self.accum(n, st, cnt, init, self.narrowed(n, [a[0], a[2]], step), 'ip')

    def quant(self, n, st, a, kind):
        ip = self.ip
        b, e, f = [ip.ev(x, st) for x in a]
        cnt = self.count(b, e, n, st)

        def step(s, acc, k):
            p = ip.truth(self.val(ip.call_value(f, [('r', self.elem(b, k, n, s))], n, s), s))
            return b_or(acc, p) if kind == 'any' else b_and(acc, p)
        r = self.accum(n, st, cnt, FALSE if kind == 'any' else TRUE, step, kind)
        return r

    def f_any_of(self, n, st, a):
        return self.quant(n, st, a, 'any')

    def f_all_of(self, n, st, a):
        return self.quant(n, st, a, 'all')

    def f_none_of(self, n, st, a):
        return b_not(self.quant(n, st, a, 'any'))

    def findgen(self, n, st, b, e, pred):
        ip = self.ip
        cnt = self.count(b, e, n, st)
        hold = {}

        def step(s, acc, k):
            p = pred(s, k)
            hold['p'] = p
            hold['k'] = k
            return b_or(acc, p)
        anyp = self.accum(n, st, cnt, FALSE, step, 'find')
        p, k = hold.get('p'), hold.get('k')
        if p is None or k is None or k.op != 'k':
            if cnt.op == 'num' and b.op == 'ptr' and cnt.args[0] <= 8:
                r = e
                for j in reversed(range(int(cnt.args[0]))):
                    r = ite(pred(st.copy(), num(j)), ip.ptr_add(b, num(j)), r)
                return r
            return e if anyp is FALSE else mk('app', 'find', b, e)
        i = first_(cnt, k, p)
        ip.uns.add(i)
        return ite(anyp, ip.ptr_add(b, i), e)

    def f_find(self, n, st, a):
        ip = self.ip
        b, e, v = [ip.ev(x, st) for x in a]
        return self.findgen(n, st, b, e, lambda s, k: ip.equal(ip.load(s, self.elem(b, k, n, s)), v, s))

    def f_find_if(self, n, st, a):
        ip = self.ip
        b, e, f = [ip.ev(x, st) for x in a]
        return self.findgen(n, st, b, e, lambda s, k: ip.truth(self.val(ip.call_value(
            f, [('r', self.elem(b, k, n, s))], n, s), s)))

    def f_find_if_not(self, n, st, a):
        ip = self.ip
        b, e, f = [ip.ev(x, st) for x in a]
        return self.findgen(n, st, b, e, lambda s, k: b_not(ip.truth(self.val(ip.call_value(
            f, [('r', self.elem(b, k, n, s))], n, s), s))))

    def f_count_if(self, n, st, a):
        ip = self.ip
        b, e, f = [ip.ev(x, st) for x in a]
        cnt = self.count(b, e, n, st)
        return self.accum(n, st, cnt, ZERO, lambda s, acc, k: add(acc, ip.as_num(ip.truth(self.val(ip.call_value(
            f, [('r', self.elem(b, k, n, s))], n, s), s)))), 'count')

    def f_equal(self, n, st, a):
        ip = self.ip
        vs = [ip.ev(x, st) for x in a]
        b, e, b2 = vs[:3]
        if b.op not in ('ptr', 'rptr') or b2.op not in ('ptr', 'rptr'):
            return None
        e2 = vs[3] if len(vs) > 3 and vs[3].op in ('ptr', 'rptr') else None
        f = vs[-1] if len(vs) == (5 if e2 is not None else 4) else None
        cnt = self.count(b, e, n, st)
        c = TRUE
        if e2 is not None:
            c = eq(cnt, self.count(b2, e2, n, st))
            if c is FALSE:
                return FALSE

        def step(s, acc, k):
            p, q = self.elem(b, k, n, s), self.elem(b2, k, n, s)
            if f is not None:
                t = ip.truth(self.val(ip.call_value(f, [('r', p), ('r', q)], n, s), s))
            else:
                t = ip.equal(ip.load(s, p), ip.load(s, q), s)
            return b_and(acc, t)
        s = st
        if c is not TRUE:
            s = st.copy()
            if not ip.assume(s, c):
                return FALSE
        r = self.accum(n, s, cnt, TRUE, step, 'equal')
        return b_and(c, r)

    def f_copy_n(self, n, st, a):
        ip = self.ip
        b, cnt, o = [ip.ev(x, st) for x in a]

        def body(s):
            self.out(o, ip.loop.kappa, ip.load(s, self.elem(b, ip.loop.kappa, n, s)), n, s)
            return True
        self.loop(n, st, cnt, body, 'copy')
        return ip.ptr_add(o, cnt) if o.op != 'inserter' else o

    def f_fill_n(self, n, st, a):
        ip = self.ip
        b, cnt, v = [ip.ev(x, st) for x in a]

        def body(s):
            self.out(b, ip.loop.kappa, v, n, s)
            return True
        self.loop(n, st, cnt, body, 'fill')
        return ip.ptr_add(b, cnt) if b.op != 'inserter' else b

    def f_count(self, n, st, a):
        ip = self.ip
        b, e, v = [ip.ev(x, st) for x in a]
        cnt = self.count(b, e, n, st)
        return self.accum(n, st, cnt, ZERO, lambda s, acc, k: add(acc, ip.as_num(ip.equal(
            ip.load(s, self.elem(b, k, n, s)), v, s))), 'count')

    def extremum(self, n, st, a, op):
        ip = self.ip
        vs = [ip.ev(x, st) for x in a]
        b, e = vs[:2]
        cnt = self.count(b, e, n, st)
        k = fresh_var()
        x = ip.load(st, self.elem(b, k, n, st)) if b.op == 'ptr' else None
        if x is None:
            return None
        if len(vs) > 2:
            y = ip.load(st, self.elem(b, mk('other'), n, st))
            s = st.copy()
            body = self.val(ip.call_value(vs[2], [('r', self.elem(b, k, n, s)), ('r', self.elem(b, mk('other'), n, s))],
                                          n, s), s)
        else:
            body = x
        i = fold(op, cnt, k, body)
        ip.uns.add(i)
        return ip.ptr_add(b, i)

    def f_min_element(self, n, st, a):
        return self.extremum(n, st, a, 'argmin')

    def f_max_element(self, n, st, a):
        return self.extremum(n, st, a, 'argmax')

    def f_sort(self, n, st, a):
        ip = self.ip
        vs = [ip.ev(x, st) for x in a]
        r = self.rng(vs[0], vs[1], st)
        if r is None:
            return None
        lv, c, off, cnt = r
        if off is ZERO and cnt is size(c):
            ip.assign(st, lv, mk('sorted', c) if len(vs) == 2 else mk('sorted', c, self.cmpterm(vs[2])), n, how='sort')
        else:
            ip.assign(st, lv, mk('sortedpart', c, off, cnt), n)
        return mk('void')

    f_stable_sort = f_sort

    def cmpterm(self, f):
        return f

    def f_unique(self, n, st, a):
        ip = self.ip
        vs = [ip.ev(x, st) for x in a]
        r = self.rng(vs[0], vs[1], st)
        if r is None or len(vs) > 2:
            return None
        lv, c, off, cnt = r
        ip.assign(st, lv, mk('uniq', c), n)
        return mk('ptr', lv, mk('uniqlen', c))

    def f_shuffle(self, n, st, a):
        ip = self.ip
        vs = [ip.ev(x, st) for x in a[:2]]
        eng = ip.lvof(a[2], st)
        r = self.rng(vs[0], vs[1], st)
        ip.event('draw', ('shuffle', eng, None), n, st)
        if r is None:
            return None
        lv, c, off, cnt = r
        ip.event('shuffle', (lv, eng, ip.load(st, eng)), n, st)
        e0 = ip.load(st, eng)
        ip.assign(st, lv, mk('perm', c, mk('engstate', e0), off, cnt), n, how='shuffle')
        ip.assign(st, eng, mk('app', 'shuffled', e0, cnt), n, how='draw')
        return mk('void')

    def f_swap(self, n, st, a):
        ip = self.ip
        x, y = ip.lvof(a[0], st), ip.lvof(a[1], st)
        vx, vy = ip.load(st, x), ip.load(st, y)
        ip.assign(st, x, vy, n)
        ip.assign(st, y, vx, n)
        return mk('void')

    def f_make_pair(self, n, st, a):
        x, y = [self.ip.ev(v, st) for v in a]
        return rec(mk('new', 'pair'), {'first': x, 'second': y})

    def f_make_tuple(self, n, st, a):
        vs = [self.ip.ev(v, st) for v in a]
        return rec(mk('new', 'tuple'), {'get%d' % i: v for i, v in enumerate(vs)})

    def f_get(self, n, st, a):
        d = self.decl(n)
        ta = d.get('targs') or n.get('targs')
        lv = self.ip.lvof(a[0], st)
        i = None
        if ta:
            import re
            mm = re.match(r'<?\s*(\d+)', ta if isinstance(ta, str) else str(ta[0]))
            i = int(mm.group(1)) if mm else None
        if i is None:
            return None
        if cls_short(self.ty(a[0])) == 'std::pair':
            return self.ip.sub_lv(lv, ('f', ('first', 'second')[i]))
        return self.ip.sub_lv(lv, ('f', 'get%d' % i))

    def f_parallel_for(self, n, st, a):
        ip = self.ip
        vs = []
        for x in a:
            vs.append(ip.ev(x, st))
        ip.event('parallel', (), n, st)
        if len(vs) >= 3 and cls_short(self.ty(a[0])) != 'tbb::detail::d1::blocked_range':
            lo, hi = vs[0], vs[1]
            stp = vs[2] if len(vs) > 3 else ONE
            f = vs[3] if len(vs) > 3 and vs[2].op != 'clo' else vs[2]
            if f is vs[2]:
                stp = ONE
            cnt = sub(hi, lo)
            if stp is not ONE:
                cnt = loops.steps(ip, st, cnt, stp)

            def body(s):
                saved = ip.par
                from absint import Parallel
                ip.par = Parallel(ip, ip.loop.kappa, n)
                try:
                    ip.call_value(f, [add(lo, mul(stp, ip.loop.kappa))], n, s)
                finally:
                    ip.par = saved
                return True
            self.loop(n, st, cnt, body, 'pfor')
            return mk('void')
        r = vs[0]
        ip.call_value(vs[1], [r], n, st)
        return mk('void')

    def f_print(self, n, st, a):
        vs = [self.ip.ev(x, st) for x in a]
        self.ip.event('print', tuple(vs), n, st)
        return mk('void')

    def f_stream(self, n, st, a):
        lv = self.ip.lvof(a[0], st)
        vs = [self.ip.ev(x, st) for x in a[1:]]
        self.ip.event('stream', (lv,) + tuple(vs), n, st)
        cur = self.ip.load(st, lv)
        if lv.op == 'lv':
            parts = [self.shown(v, x) for v, x in zip(vs, a[1:])]
            self.ip.assign(st, lv, strcat(cur, *parts), n, how='stream')
        return mk('void')

    def f_setw(self, n, st, a):
        for x in a:
            self.ip.ev(x, st)
        return mk('manip')

    def f_numeric_limits(self, n, st, a):
        return mk('fconst', 'limit')

    # ------------------------------------------------------------ anything else
    def functor(self, t, args, n, st):
        """function objects of the standard library, applied to values"""
        c = cls_short(t)
        ip = self.ip
        if c not in FUNCTORS:
            return None
        isint = 'int' in t or 'long' in t
        text = 'string' in t or any(x.op in ('str', 'strcat') for x in args)
        if c == 'std::plus' and len(args) == 2:
            if text:
                return strcat(*args)
            return None if '<void>' in t or '<' not in t else add(*[ip.as_num(x) for x in args])
        if text and c not in ('std::equal_to', 'std::not_equal_to'):
            return None
        if c in ('std::minus', 'std::multiplies', 'std::divides') and len(args) == 2:
            x, y = [ip.as_num(x) for x in args]
            if c == 'std::divides':
                return None if isint or '<void>' in t else fdiv(x, y)
            return sub(x, y) if c == 'std::minus' else mul(x, y)
        if c == 'std::negate' and len(args) == 1:
            return neg(ip.as_num(args[0]))
        if c in ('std::less', 'std::greater', 'std::less_equal', 'std::greater_equal') and len(args) == 2:
            x, y = args if 'less' in c else (args[1], args[0])
            return le(x, y, isint) if 'equal' in c else lt(x, y, isint)
        if c in ('std::equal_to', 'std::not_equal_to') and len(args) == 2:
            r = eq(args[0], args[1])
            return r if c == 'std::equal_to' else b_not(r)
        return None

    def generic(self, n, st, d, cls, name, a, obj=None, arrow=False):
        """an operation without a model: a function of the values it is given; objects it may write become unknown"""
        ip = self.ip
        vals = []
        pts = [ip.p.types[x] if isinstance(x, int) else x for x in d.get('ptypes', [])]
        muts = []
        if obj is not None:
            lv = self.objlv(n, st) if n.get('k') == 'MCall' else ip.lvof(obj, st)
            vals.append(ip.load(st, lv))
            if not d.get('const') and not d.get('static') and lv.op == 'lv':
                muts.append(lv)
        off = 0
        if n.get('k') == 'OpCall' and n.get('m'):
            lv = ip.lvof(a[0], st)
            vals.append(ip.load(st, lv))
            if not d.get('const'):
                muts.append(lv)
            a = a[1:]
        for i, x in enumerate(a):
            t = pts[i] if i < len(pts) else ''
            if t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                lv = ip.lvof(x, st)
                vals.append(ip.load(st, lv))
                muts.append(lv)
            else:
                vals.append(ip.ev(x, st))
        ip.event('lib', (cls, name, tuple(vals)), n, st)
        q = (cls + '::' if cls else '') + str(name)
        for lv in muts:
            ip.assign(st, lv, mk('app', 'after ' + q, *vals) if not any(v.op == 'unk' for v in vals)
                      else unk('after ' + q), n, how='lib')
        r = mk('app', q, *vals)
        return r
