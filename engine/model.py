"""Summaries of library and reference functions, object roles, sample points."""
import random
from core import *
import absint
from absint import *
import equiv
from equiv import Loops, Colors, Valuation, NoValue, Ill, Op, close

D = 'dcgp::expression<double>'
W = 'dcgp::expression_weighted<double>'
A = 'dcgp::expression_ann'


def h3(*k):
    return int(equiv.h01('enum', *k) * 3)


class Model:
    def __init__(self, ctx, prog='spec'):
        self.p = ctx.prog(prog)
        self.cache = {}
        self.objs = {}

    # ------------------------------------------------------------ lookup
    def fn(self, cls, name, *pt, ctor=None, const=None, nparams=None):
        """the one member whose parameter types contain the given substrings, in order"""
        out = []
        for f in self.p.find(cls, name):
            if f.body is None:
                continue
            ts = f.ptypes()
            if nparams is not None and len(ts) != nparams:
                continue
            if pt and (len(pt) > len(ts) or not all((x in t) if isinstance(x, str) else x(t) for x, t in zip(pt, ts))):
                continue
            if const is not None and bool(f.const) != const:
                continue
            out.append(f)
        if not out:
            for b in self.p.bases.get(cls, []):
                try:
                    return self.fn(base_type(b), name, *pt, ctor=ctor, const=const, nparams=nparams)
                except AnalysisError:
                    pass
            raise AnalysisError('no function %s::%s(%s)' % (cls, name, pt))
        return out[0]

    def spec(self, name, *pt):
        for f in self.p.fns.values():
            if f.qual == 'vspec::' + name and f.body is not None:
                ts = f.ptypes()
                if all(x in t for x, t in zip(pt, ts)):
                    return f
        raise AnalysisError('no reference function ' + name)

    def interp(self):
        return Interp(self.p)

    def arg(self, ip, i, t, name=None):
        """canonical binding for parameter i"""
        nm = name or 'a%d' % i
        if isref(t):
            r = mk('obj', 'arg', nm)
            ip.typed(mk('init', r), t)
            return ('r', LV(r))
        a = mk('arg', nm)
        ip.typed(a, t)
        return ('v', a)

    def argterm(self, i, t, name=None):
        nm = name or 'a%d' % i
        return mk('init', mk('obj', 'arg', nm)) if isref(t) else mk('arg', nm)

    def run(self, fn, this=None, given=None, st=None, key=None, prep=None):
        """summary of fn; `given` maps parameter positions to bindings"""
        k = (fn.id, key)
        if key is not None and k in self.cache:
            return self.cache[k]
        ip = self.interp()
        o = None
        if this is not None and not fn.static:
            o = ip.new_object('self', this)
        st = st.copy() if st is not None else St()
        if prep is not None:
            prep(ip, st)
        args = []
        for i, prm in enumerate(fn.params):
            t = self.p.types[prm['t']]
            g = (given or {}).get(i)
            args.append(g if g is not None else self.arg(ip, i, t))
        s = ip.run(fn, o, args, st, dyncls=this if o is not None else None)
        if key is not None:
            self.cache[k] = s
        return s

    def value(self, s):
        if s.value is None:
            return None
        return s.ip.std.val(s.value, s.st)

    # ------------------------------------------------------------ roles
    def getter(self, cls, name):
        """value a public accessor returns, as a term over the object"""
        f = self.fn(cls, name, nparams=0)
        s = self.run(f, cls, key='get')
        if s.value is None:
            raise AnalysisError('%s::%s has no value' % (cls, name))
        return self.value(s)

    def role(self, cls, name):
        """field path behind an accessor, or None when it is not a plain field"""
        t = self.getter(cls, name)
        path = []
        while t.op == 'fld':
            path.append(t.args[1])
            t = t.args[0]
        if t is mk('init', mk('obj', 'self')) and path:
            return tuple(reversed(path))
        return None

    def field(self, s, cls, name, this=None):
        """what accessor `name` returns in the final state of summary s"""
        f = self.fn(cls, name, nparams=0)
        ip = s.ip
        ip.frame = None
        ip.loop = None
        ip.brk = None
        rec, ip.rec = ip.rec, False
        try:
            v = ip.enter(f, this or s.this, [], f.body, s.st.copy(), dyncls=cls)
            return ip.std.val(v, s.st)
        finally:
            ip.rec = rec

    # ------------------------------------------------------------ sample points
    def kernels(self, cls, names):
        r = self.p.records.get(cls)
        out = []
        for i, n in enumerate(names):
            d = {}
            for f in r['fields']:
                t = base_type(self.p.types[f['t']])
                d[f['name']] = n if is_str_t(t) else h3(n, i) if 'thread_safety' in t else Op(f['name'], n, i)
            out.append(d)
        return out

    def objects(self, cls, n=12, seed=1, eph=2):
        """well-formed objects: the constructor's own closed form evaluated at random arguments"""
        key = (cls, n, seed, eph)
        if key in self.objs:
            return self.objs[key]
        out = []
        rnd = random.Random(seed)
        ct = [f for f in self.p.find(cls, cls.split('::')[-1].split('<')[0]) if f.ctor and f.body is not None]
        ct = [f for f in ct if len(f.params) >= 7 and any('vector<unsigned' in t for t in f.ptypes())]
        if not ct:
            raise AnalysisError('no constructor of ' + cls)
        f = ct[0]
        s = self.run(f, cls, key='ctor')
        if s.st is None:
            raise AnalysisError('the constructor of %s never returns' % cls)
        L = Loops(s.ip)
        val = s.ip.load(s.st, s.this)
        tries = 0
        errs = []
        while len(out) < n and tries < 4 * n:
            tries += 1
            env, desc = self.ctor_args(f, rnd, cls, eph)
            try:
                v = Valuation(L, env, 3000000).ev(val)
            except Ill:
                continue
            except NoValue as e:
                errs.append(str(e))
                continue
            self.perturb(v, cls, rnd)
            out.append((v, desc))
        if not out:
            raise AnalysisError('no sample object of %s: %s' % (cls, errs[:2]))
        self.objs[key] = out
        return out

    def perturb(self, v, cls, rnd):
        """weights, biases and constants take arbitrary values"""
        for g in ('get_weights', 'get_biases', 'get_eph_val'):
            try:
                r = self.role(cls, g)
            except AnalysisError:
                continue
            if r and len(r) == 1 and isinstance(v.get(r[0]), list):
                v[r[0]] = vec(rnd, len(v[r[0]]))

    def fields_of_type(self, cls, pred):
        out = []
        while cls in self.p.records:
            for f in self.p.records[cls]['fields']:
                if pred(base_type(self.p.types[f['t']])):
                    out.append(f['name'])
            bs = [base_type(b) for b in self.p.bases.get(cls) or []]
            if not bs:
                break
            cls = bs[0]
        return out

    ANN = ['tanh', 'sig', 'ReLu', 'ELU', 'ISRU', 'sin_nu', 'cos_nu', 'gaussian_nu', 'sum', 'inv_sum', 'abs', 'step']

    def ctor_args(self, f, rnd, cls, eph=2):
        ints = ['n', 'm', 'r', 'c', 'l']
        env = {'salt': rnd.random()}
        desc = {}
        c = rnd.randint(1, 4)
        uns = 0
        for i, prm in enumerate(f.params):
            t = base_type(self.p.types[prm['t']])
            if is_uns_t(t):
                uns += 1
                if uns == 4:
                    v = c
                elif uns == 5:
                    v = rnd.randint(1, c + 1)
                elif uns == 6 and len(f.params) > 8:
                    v = rnd.randint(0, eph)
                else:
                    v = rnd.randint(1, 3)
            elif 'kernel<' in t:
                k = rnd.randint(1, 4)
                names = rnd.sample(self.ANN, k)
                v = self.kernels(vec_elem_t(t), names)
                desc['kernels'] = names
            elif is_vec_t(t):
                v = [rnd.randint(1, 3) for _ in range(c)]
            else:
                raise AnalysisError('constructor parameter ' + t)
            env[self.argterm(i, self.p.types[prm['t']])] = v
            desc[prm['name']] = v if 'kernel<' not in t else len(v)
        return env, desc


def vec(rnd, n, lo=-2., hi=2.):
    return [round(rnd.uniform(lo, hi), 3) for _ in range(n)]


def clean(t, *ips):
    """no opaque parts"""
    seen = set()
    L = Loops(*ips)
    todo = [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op in ('unk', 'alt'):
                return False
            if y.op in ('phi', 'bphi'):
                pr = L.phi.get((y.args[0], y.args[1]))
                if pr is None:
                    return False
                todo.extend(pr)
    return True


def parts(t, *ips):
    """everything a value is made of, through the loops that build it"""
    L = Loops(*ips)
    seen, todo, conds = set(), [t], set()
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op in ('phi', 'bphi'):
                todo.extend(L.phi.get((y.args[0], y.args[1])) or ())
            l = y.args[1] if y.op == 'pred' and y.args[0] == 'early' else y.args[0] if y.op in ('exit', 'phi', 'bphi', 'k') else None
            if l is not None and l not in conds:
                conds.add(l)
                d = L.info.get(l)
                if d:
                    todo.extend(d[k] for k in ('cond', 'trip', 'early') if isinstance(d.get(k), T))
    return seen


def n_sites(t, *ips):
    """distinct points where the random numbers a value depends on are drawn"""
    L = Loops(*ips)
    seen, sites, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y in seen:
                continue
            seen.add(y)
            if y.op == 'draw':
                sites.add((y.args[3], y.args[4]))
            elif y.op in ('phi', 'bphi'):
                todo.extend(L.phi.get((y.args[0], y.args[1])) or ())
            if y.op in ('exit', 'phi', 'bphi'):
                d = L.info.get(y.args[0])
                if d and d.get('cond') is not None and ('c', y.args[0]) not in seen:
                    seen.add(('c', y.args[0]))
                    todo.append(d['cond'])
    return len(sites)


def truth(f, L, env, val):
    """value of a fact at a sample point: True, False or None; loop counters of the fact are quantified existentially"""
    ks = sorted({x.args[0] for x in syms(f) if x.op == 'k'})
    try:
        if not ks:
            return bool(val.ev(f))
    except (NoValue, Ill, OverflowError, ZeroDivisionError, ValueError, RecursionError, KeyError, TypeError):
        return None
    return None


def may_hold(fs, L, env, val):
    """False when the conjunction certainly fails at the sample point (loop counters existential), else True"""
    ks = sorted({x.args[0] for f in fs for x in syms(f) if x.op == 'k'})
    if not ks:
        return not any(truth(f, L, env, val) is False for f in fs)
    of = [(f, {x.args[0] for x in syms(f) if x.op == 'k'}) for f in fs]
    if any(truth(f, L, env, val) is False for f, q in of if not q):
        return False
    budget = [6000]

    def go(i, K):
        """is there a value of the counters ks[i:] under which no fact certainly fails"""
        if i == len(ks):
            return True
        now = [f for f, q in of if ks[i] in q and q <= set(ks[:i + 1])]
        for j in range(14):
            budget[0] -= 1
            if budget[0] < 0:
                return True
            K[ks[i]] = j
            bad = False
            for f in now:
                try:
                    if not val.ev(f, K, {}):
                        bad = True
                        break
                except Ill:
                    bad = True
                    break
                except (NoValue, OverflowError, ZeroDivisionError, ValueError, RecursionError, KeyError, TypeError):
                    continue
            if not bad and go(i + 1, K):
                return True
        K.pop(ks[i], None)
        return False
    return go(0, {})


def accepts(s, L, env):
    """does the summarised function return normally at the sample point? True / False / None (not decided)"""
    val = Valuation(L, env)
    if s.st is None:
        return False
    if any(truth(f, L, env, val) is False for f in s.st.facts):
        return False
    if all(not may_hold(t[0].facts, L, env, val) for t in s.throws):
        return True
    return None


def regular(sa, sb, envs):
    """the sample points neither side rejects"""
    L = Loops(sa.ip, sb.ip)
    return [e for e in envs if accepts(sa, L, e) is not False and accepts(sb, L, e) is not False]


def refuted(F, pr, split=3):
    """do these facts contradict each other? (unit propagation, then case splits on disjunctions)"""
    F = set(F)
    todo = list(F)
    while todo:
        f = todo.pop()
        new = []
        if f is FALSE or b_not(f) in F:
            return True
        if f.op == 'and':
            new = list(f.args)
        elif f.op == 'or':
            left = [d for d in flat(f) if b_not(d) not in F]
            if not left:
                return True
            if len(left) == 1:
                new = left
        for q in new:
            if q not in F:
                F.add(q)
                todo.append(q)
                todo.extend(o for o in F if o.op == 'or')
    FF = frozenset(F)
    for f in F:
        if f.op not in ('and', 'or') and pr.prove(f, frozenset(FF - {f})) is False:
            return True
    if split > 0:
        for f in sorted((f for f in F if f.op == 'or'), key=lambda f: (len(flat(f)), f.id)):
            ds = flat(f)
            if len(ds) <= 6 and not any(d in F for d in ds) and all(refuted((F - {f}) | {d}, pr, split - 1) for d in ds):
                return True
    return False


def flat(f):
    out = []
    for d in f.args:
        d = d if isinstance(d, tuple) else (d,)
        for q in d:
            out.extend(flat(q) if q.op == 'or' else [q])
    return out


def compare_accept(res, rule, inst, where, sa, sb, envs, what):
    """same arguments rejected? sa: library, sb: reference"""
    def implied(x, y):
        """whenever x throws, y cannot return normally"""
        if y.st is None:
            return True
        for t in x.throws:
            F = frozenset(t[0].facts) | frozenset(y.st.facts)
            ks = {q.args[0] for f in t[0].facts for q in syms(f) if q.op == 'k'}
            for k in ks:
                d = x.ip.loopinfo.get(k)
                if d and d['exact'] and d['trip'] is not None:
                    F |= {ige(sub(d['trip'], mk('k', k)))}
            for f in F:
                if f.op == 'not' and f.args[0].op == 'eq' and f.args[0].args[1] is ZERO:
                    q = f.args[0].args[0]
                    for r in (q, neg(q)):
                        if x.ip.pr.prove(ige(r), F) is True:
                            F |= {ige(sub(r, ONE))}
            for f in list(F):
                if f.op == 'all':
                    for k in ks:
                        i = mk('k', k)
                        if x.ip.pr.prove(ige(sub(sub(f.args[0], i), ONE)), F) is True:
                            F |= {subst(f.args[2], {f.args[1]: i})}
            ok = refuted(F, x.ip.pr)
            if not ok:
                return False
        return True
    if implied(sa, sb) and implied(sb, sa):
        res.ok(rule, inst, where, '%d rejecting paths, the reference rejects the same arguments' % len(sa.throws))
        return True
    L = Loops(sa.ip, sb.ip)
    n = 0
    for env in envs:
        y = accepts(sb, L, env)
        if y is None:
            continue
        x = accepts(sa, L, env)
        if x is None:
            continue
        n += 1
        if x != y:
            av = {show(k, 3): brief(v) for k, v in env.items() if isinstance(k, T) and k.op in ('arg', 'init') and k is not mk('init', mk('obj', 'self'))}
            res.bad(rule, inst, where, '%s %s arguments the definition %s: %s' % (
                what, 'accepts' if x else 'rejects', 'rejects' if x else 'accepts', av))
            return False
    res.undecided(rule, inst, where, 'rejecting paths differ in spelling; %d sample points agree' % n)
    return None


def compare(res, rule, inst, where, a, b, envs, ipa, ipb, what=None):
    """a: what the library computes, b: the reference; decided by equality of value numbers"""
    ipb = ipb if isinstance(ipb, tuple) else (ipb,)
    ips = (ipa,) + ipb
    if a is None or b is None:
        if a is None and b is not None:
            res.bad(rule, inst, where, '%s: no normal return' % (what or inst))
        else:
            res.undecided(rule, inst, where, 'no reference value')
        return None
    if equiv.same(a, b, *ips):
        res.ok(rule, inst, where, 'equal normal forms')
        return True
    na, nb = n_sites(a, *ips), n_sites(b, *ips)
    if na != nb:
        res.undecided(rule, inst, where, 'different numbers of random draws (%d, %d)' % (na, nb))
        return None
    try:
        w = equiv.witness(a, b, envs() if callable(envs) else envs, *ips)
    except NoValue as e:
        if os.environ.get('SHOWNF'):
            print('A', show(a, 30)[:700]); print('B', show(b, 30)[:700])
        res.undecided(rule, inst, where, 'normal forms differ in spelling; no sample value (%s)' % e)
        return None
    if w is None:
        if os.environ.get('SHOWNF'):
            print('A', show(a, 30)[:700]); print('B', show(b, 30)[:700])
        res.undecided(rule, inst, where, 'normal forms differ in spelling; no separating point')
        return None
    env, x, y, n = w
    res.bad(rule, inst, where, '%s differs from its definition: it denotes %s where the definition gives %s' % (
        what or inst, brief(x), brief(y)))
    return False


def brief(v):
    if isinstance(v, float):
        return '%.6g' % v
    if isinstance(v, list):
        return '[' + ', '.join(brief(x) for x in v[:24]) + (', ..' if len(v) > 24 else '') + ']'
    if isinstance(v, dict):
        return '{..}'
    return str(v)[:300]
