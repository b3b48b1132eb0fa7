"""Serialisation completeness, polymorphic registration and guarded global state: effect and typestate queries on the
resolved syntax tree."""
import os
import re
from core import AnalysisError, walk, strip, kids, F

ARCH = {'out': 'dcgp_facts::out_archive', 'in': 'dcgp_facts::in_archive'}


def bare(t):
    t = t.rstrip(' &')
    return t[6:] if t.startswith('const ') else t


# ------------------------------------------------------------------ serialisation
class Collector:
    """ordered list of the pieces of *this that one (de)serialisation path transmits"""

    def __init__(self, prog, mode):
        self.p = prog
        self.mode = mode
        self.ev = []       # (path, conditional, where)
        self.locals = {}   # local id -> path it stands for
        self.moved = []    # (field path, local id)
        self.depth = 0

    def path(self, n, bind):
        n = strip(n)
        k = n.get('k')
        if k == 'This':
            return ''
        if k == 'Member':
            b = self.path(n['b'], bind)
            if b is None:
                return None
            return (b + '.' if b else '') + n['name']
        if k == 'Un' and n['op'] in ('*', '&'):
            return self.path(n['e'], bind)
        if k == 'Ref':
            if n['id'] in bind:
                return bind[n['id']]
            if n['id'] in self.locals:
                return self.locals[n['id']]
            if n.get('rk') == 'var':
                return 'local#%d' % n['id']
            return None
        if k in ('Call', 'Construct', 'MCall'):
            if k == 'Call' and n.get('name') == 'base_object':
                return 'base:' + bare(self.p.ty(n))
            if k == 'Call' and n.get('name') in ('make_nvp', 'move', 'as_const', 'addressof', 'make_array', 'ref',
                                                 'make_binary_object', 'forward'):
                for a in reversed(n['a']):
                    q = self.path(a, bind)
                    if q is not None:
                        return q
            if k == 'Construct' and len(n.get('a', [])) == 1:
                return self.path(n['a'][0], bind)
        if k == 'OpCall' and n['op'] in ('*', '->'):
            return self.path(n['a'][0], bind)
        if k == 'Cast':
            return self.path(n['e'], bind)
        return None

    def is_ar(self, n, ars):
        n = strip(n)
        if n.get('k') == 'Ref' and n['id'] in ars:
            return True
        if n.get('k') == 'OpCall' and n['op'] in ('&', '<<', '>>') and n['a']:
            return self.is_ar(n['a'][0], ars)
        return False

    def expr(self, n, ars, bind, cond):
        n0 = n
        n = strip(n)
        k = n.get('k')
        if k == 'OpCall' and n['op'] in ('&', '<<', '>>') and len(n['a']) == 2 and self.is_ar(n['a'][0], ars):
            self.expr(n['a'][0], ars, bind, cond)
            p = self.path(n['a'][1], bind)
            self.ev.append((p, cond, n))
            return
        if k in ('Call', 'MCall') and any(self.is_ar(a, ars) for a in n.get('a', [])):
            fn = self.p.fns.get(n.get('fn'))
            if n.get('name') == 'split_member':
                cls = bare(self.p.ty(n['a'][1]))
                want = 'save' if self.mode == 'out' else 'load'
                c = [f for f in self.p.find(cls, want)]
                c = [f for f in c if any(ARCH[self.mode] in t for t in f.ptypes())]
                if not c:
                    raise AnalysisError('no %s instantiated for %s' % (want, cls))
                self.fn(c[0], {}, cond)
                return
            if fn is not None and fn.body and self.depth < 6:
                b = {}
                for prm, a in zip(fn.params, n['a']):
                    q = self.path(a, bind)
                    if q is not None and not self.is_ar(a, ars):
                        b[prm['id']] = q
                arp = {prm['id'] for prm, a in zip(fn.params, n['a']) if self.is_ar(a, ars)}
                self.fn(fn, b, cond, arp)
                return
            for a in n['a']:
                if not self.is_ar(a, ars):
                    q = self.path(a, bind)
                    if q is not None:
                        self.ev.append((q, cond, n))
            return
        if k in ('Asg',) or (k == 'OpCall' and n['op'] == '='):
            l, r = (n['a'], n['b']) if k == 'Asg' else (n['a'][0], n['a'][1])
            lp = self.path(l, bind)
            ids = [x['id'] for x in walk(r) if x.get('k') == 'Ref' and x.get('rk') == 'var']
            if lp is not None and not str(lp).startswith('local#'):
                for i in ids:
                    self.moved.append((lp, i, n))
                if not ids:
                    self.moved.append((lp, None, n))
            return
        for c in kids(n):
            self.expr(c, ars, bind, cond)

    def stmt(self, n, ars, bind, cond):
        k = n.get('k')
        if k == 'Block':
            for s in n['s']:
                self.stmt(s, ars, bind, cond)
        elif k == 'If':
            cv = n.get('cv')
            if cv is None:
                c = strip(n['c'])
                cv = c.get('cv') if isinstance(c, dict) else None
                if isinstance(c, dict) and c.get('k') == 'Bool':
                    cv = c['v']
            if cv is not None:
                br = n.get('then') if cv else n.get('else')
                if br:
                    self.stmt(br, ars, bind, cond)
                return
            for b in ('then', 'else'):
                if n.get(b):
                    self.stmt(n[b], ars, bind, True)
        elif k == 'RangeFor':
            p = self.path(n['range'], bind)
            b = dict(bind)
            v = n['var']
            v = v['v'][0] if v.get('k') == 'Decl' else v
            if p is not None:
                b[v['id']] = p + '[]'
            self.stmt(n['body'], ars, b, cond)
        elif k in ('For', 'While', 'Do'):
            self.stmt(n['body'], ars, bind, True)
        elif k == 'Decl':
            for v in n['v']:
                if v.get('init') is not None:
                    q = self.path(v['init'], bind)
                    if q is not None and (v.get('ref') or self.mode == 'out'):
                        self.locals[v['id']] = q
                    else:
                        self.expr(v['init'], ars, bind, cond)
        elif k == 'Try':
            self.stmt(n['body'], ars, bind, cond)
        elif k in ('Return', 'ExprStmt') and n.get('e') is None:
            pass
        elif k == 'Lambda':
            pass
        else:
            self.expr(n, ars, bind, cond)

    def fn(self, f, bind, cond=False, arp=None):
        if arp is None:
            arp = {prm['id'] for prm, t in zip(f.params, f.ptypes()) if ARCH[self.mode] in t}
        self.depth += 1
        self.stmt(f.body, arp, bind, cond)
        self.depth -= 1

    def resolve(self):
        """local temporaries that were moved into a field stand for that field"""
        out = []
        for p, c, n in self.ev:
            if p and p.startswith('local#'):
                lid = int(re.match(r'local#(\d+)', p).group(1))
                rest = p[len('local#%d' % lid):].lstrip('.')
                tgt = [m for m in self.moved if m[1] == lid]
                if tgt:
                    b = tgt[-1][0]
                    p = '.'.join(x for x in (b, rest) if x)
            out.append((p, c, n))
        return out


def live_fields(prog, cls):
    """fields of cls that some expression reads (a field that is only ever written carries no observable state)"""
    ids = {f['id']: f['name'] for f in prog.records[cls]['fields']}
    live = set()
    WR = {'clear', 'resize', 'assign', 'push_back', 'emplace_back', 'reserve', 'swap', 'insert', 'shrink_to_fit'}

    def visit(n, ctx):
        # ctx: 'r' value used, 'w' only stored to
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'Member' and n['id'] in ids and ctx == 'r':
            live.add(ids[n['id']])
        if k == 'Member':
            visit(n['b'], ctx)
            return
        if k == 'Asg' and n['op'] == '=':
            visit(n['a'], 'w')
            visit(n['b'], 'r')
            return
        if k == 'OpCall' and n['op'] == '=':
            visit(n['a'][0], 'w')
            for a in n['a'][1:]:
                visit(a, 'r')
            return
        if k == 'MCall' and n.get('name') in WR:
            visit(n['obj'], 'w')
            for a in n['a']:
                visit(a, 'r')
            return
        if k in ('Index',):
            visit(n['a'], ctx)
            visit(n['b'], 'r')
            return
        if k == 'OpCall' and n['op'] == '[]':
            visit(n['a'][0], ctx)
            for a in n['a'][1:]:
                visit(a, 'r')
            return
        if k == 'Cast':
            visit(n['e'], ctx)
            return
        for c in kids(n):
            visit(c, 'r')
    for f in prog.fns.values():
        if f.name in ('serialize', 'save', 'load') and f.cls == cls:
            continue
        if f.body and not f.d.get('defaulted') and not f.d.get('implicit'):
            visit(f.body, 'r')
    return live


def serialisation(ctx, res):
    res.rule('S1', 'every field that the program reads is transmitted by the saving and by the loading path')
    res.rule('S2', 'saving and loading transmit the same pieces in the same order')
    res.rule('S3', 'base-class state is transmitted before leaving the derived part')
    res.rule('S4', 'a value loaded into a temporary reaches the object')
    progs = ctx.need('core', 'opt')
    seen = set()
    for prog in progs:
        for cls, rec in sorted(prog.records.items()):
            fs = [f for f in prog.fns.values() if f.cls == cls and f.name in ('serialize', 'save', 'load')]
            if not fs or cls in seen:
                continue
            if not fs[0].body or cls.startswith('boost::') or not F.rel(fs[0].file).startswith('include/'):
                continue
            got = {}
            for mode in ('out', 'in'):
                c = [f for f in fs if f.name == 'serialize' and any(ARCH[mode] in t for t in f.ptypes())]
                if not c:
                    continue
                col = Collector(prog, mode)
                col.fn(c[0], {})
                got[mode] = (col, c[0])
            if len(got) < 2:
                continue
            seen.add(cls)
            short = short_cls(cls)
            live = live_fields(prog, cls) if rec['fields'] else set()
            ev = {m: got[m][0].resolve() for m in got}
            where = got['out'][1].where()
            for m in ('out', 'in'):
                verb = 'saving' if m == 'out' else 'loading'
                paths = [p for p, c, n in ev[m]]
                names = {p.split('.')[0].split('[')[0] for p in paths if p}
                if '' in paths:
                    names |= {f['name'] for f in rec['fields']}
                condn = {p.split('.')[0].split('[')[0] for p, c, n in ev[m] if p and c}
                wr = {p for p, l, n in got[m][0].moved if l is None}
                for f in rec['fields']:
                    inst = '%s.%s (%s)' % (short, f['name'], verb)
                    if f['name'] in names:
                        if f['name'] in condn:
                            res.undecided('S1', inst, where, 'transmitted under a run-time condition')
                        else:
                            res.ok('S1', inst, where)
                    elif f['name'] not in live:
                        res.ok('S1', inst, where, 'never read: carries no state')
                    elif f['name'] in wr or None in paths:
                        res.undecided('S1', inst, where, 'recomputed or passed through an expression')
                    else:
                        res.bad('S1', inst, where, 'field %s of %s is not transmitted when %s: a round trip loses it'
                                % (f['name'], short, verb), key='S1:%s.%s' % (short, f['name']))
                for b in prog.bases.get(cls, []):
                    if not any(r == b and (prog.records[r]['fields'] or prog.bases.get(r)) or
                               (r == b and any(mm['name'] == 'serialize' for mm in prog.records[r]['methods']))
                               for r in prog.records):
                        continue
                    inst = '%s : %s (%s)' % (short, short_cls(b), verb)
                    if ('base:' + b) in paths:
                        res.ok('S3', inst, where)
                    elif prog.records[b]['fields']:
                        res.bad('S3', inst, where, 'the %s part of a %s is not transmitted when %s' % (
                            short_cls(b), short, verb), key='S3:%s' % short)
                    else:
                        res.undecided('S3', inst, where, 'empty base not passed through')
                for p, c, n in ev[m]:
                    if p and p.startswith('local#') and m == 'in':
                        lid = int(re.match(r'local#(\d+)', p).group(1))
                        used = sum(1 for x in walk(got[m][1].body) if x.get('k') == 'Ref' and x['id'] == lid)
                        cand = [f for f in fs if f.name == 'load']
                        for f in cand:
                            used += sum(1 for x in walk(f.body) if x.get('k') == 'Ref' and x['id'] == lid)
                        nloc = sum(1 for q, _, _ in ev[m] if q and q.startswith('local#%d' % lid))
                        if used <= nloc:
                            res.bad('S4', '%s <- temporary' % short, where,
                                    'the value read from the archive stays in a temporary and never reaches the object',
                                    key='S4:%s' % short)
                        else:
                            res.undecided('S4', '%s <- temporary' % short, where)
            a, b = ([(p, c) for p, c, n in ev[m]] for m in ('out', 'in'))
            if None in [p for p, c in a + b]:
                res.undecided('S2', short, where)
            elif [p for p, _ in a] != [p for p, _ in b]:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x[0] != y[0]), min(len(a), len(b)))
                if any(c for _, c in a + b) or any(p.startswith('local#') for p, _ in a + b):
                    res.undecided('S2', short, where)
                else:
                    res.bad('S2', short, where, 'position %d: saving writes %s but loading reads %s' % (
                        i, a[i][0] if i < len(a) else 'nothing', b[i][0] if i < len(b) else 'nothing'),
                        key='S2:' + short)
            else:
                res.ok('S2', short, where, ' '.join(p or '*this' for p, _ in a))
    res.expect('S1', 150, 'class fields')
    res.expect('S2', 12, 'serialisable classes')
    for must in ('expression<double>', 'expression_ann', 'expression_weighted<double>', 'kernel<double>',
                 'kernel_set<double>', 'symbolic_regression', 'es4cgp', 'mes4cgp', 'moes4cgp', 'momes4cgp', 'gd4cgp'):
        if not any(o[0] == 'S2' and o[1] == must for o in res.obl):
            raise AnalysisError('no serialisation path found for ' + must)


def short_cls(c):
    c = c.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    c = re.sub(r', std::allocator<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)?>', '', c)
    c = c.replace('audi::gdual<audi::vectorized<double>, void>', 'gdual_v').replace('audi::gdual<double, void>', 'gdual_d')
    return c.replace('dcgp::detail::', '').replace('dcgp::', '')


# ------------------------------------------------------------------ registration
def registration(ctx, res):
    res.rule('R1', 'every callable a built-in kernel wraps has an export key and an export implementation')
    res.rule('R2', 'export names are unique across the program')
    res.rule('R3', 'every user-defined algorithm/problem of the library has an export key and one implementation')
    res.rule('R4', 'no polymorphic callable is tracked, and the callables are not virtual bases')
    p, q = ctx.need('core', 'opt')
    guid = {s['args'] for s in p.specs if s['tmpl'].endswith('guid_defined') and s['explicit']}
    impl = {s['args'] for s in p.specs if s['tmpl'].endswith('init_guid') and s['explicit']}
    track = {s['args'] for s in p.specs if s['tmpl'].endswith('tracking_level') and s['explicit']}
    # every function_inner<T, R, Args...> over a library callable
    for n, r in sorted(p.records.items()):
        m = re.match(r'dcgp::detail::function_inner<(dcgp::[\w:]+(?:<.*?>)?), (?!void\b)', n)
        if r['simple'] != 'function_inner' or not n.startswith('dcgp::detail::function_inner<dcgp::'):
            continue
        key = '<' + n + '>'
        inst = short_cls(n)
        loc = '%s:%d' % (F.rel(p.files[r['loc'][0]]), r['loc'][1])
        # recName prints the bare type; specs print the argument list
        g = key in guid
        i = key in impl
        if g and i:
            res.ok('R1', inst, loc)
        else:
            res.bad('R1', inst, loc, 'no export %s for %s: an archive of it cannot be %s' % (
                'key' if not g else 'implementation', inst, 'written'), key='R1:' + inst)
        if key in track:
            res.ok('R4', inst, loc)
        else:
            res.undecided('R4', inst, loc)
    byname = {}
    for prog in (p, q):
        for f in prog.fns.values():
            if f.name == 'guid' and f.body:
                lits = [x['v'] for x in walk(f.body) if x.get('k') == 'Str']
                if len(lits) == 1:
                    byname.setdefault(lits[0], set()).add(f.d.get('targs'))
    for s, ts in sorted(byname.items()):
        if len(ts) == 1:
            res.ok('R2', s)
        else:
            res.bad('R2', s, '', 'two types share the export name "%s": %s' % (s, ' and '.join(sorted(map(str, ts)))))
    guidq = {s['args'] for s in q.specs if s['tmpl'].endswith('guid_defined') and s['explicit']}
    # implementation sites of the algorithms / problem: macros in the binding and in the headers
    text = ''
    for d in ('dcgpy', 'include'):
        for f in F._tree(os.path.join(F.REPO, d), ('.cpp', '.hpp')):
            t = open(f, errors='replace').read()
            t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
            t = re.sub(r'//[^\n]*', ' ', t)
            text += t
    for cls, kind in [(c, k) for c, k in classes_with(q)]:
        inner = '<pagmo::detail::%s_inner<%s>>' % (kind, cls)
        loc = '%s:%d' % (F.rel(q.files[q.records[cls]['loc'][0]]), q.records[cls]['loc'][1])
        K = 'ALGORITHM' if kind == 'algo' else 'PROBLEM'
        has_key = inner in guidq
        has_impl = re.search(r'PAGMO_S11N_%s_(IMPLEMENT|EXPORT)\s*\(\s*%s\s*\)' % (K, re.escape(cls)), text)
        if has_key and has_impl:
            res.ok('R3', cls, loc)
        else:
            res.bad('R3', cls, loc, '%s has no export %s' % (cls, 'key' if not has_key else 'implementation'),
                    key='R3:' + cls)
    res.expect('R1', 80, 'callables')
    res.expect('R2', 90, 'export names')
    res.expect('R3', 6, 'algorithms and problems')


def classes_with(q):
    """library classes that pagmo can type-erase: evolve -> algorithm, fitness -> problem"""
    out = []
    for c, r in sorted(q.records.items()):
        names = {m['name'] for m in r['methods']}
        if not c.startswith('dcgp::') or '<' in c:
            continue
        if 'evolve' in names:
            out.append((c, 'algo'))
        elif 'fitness' in names and 'get_bounds' in names:
            out.append((c, 'prob'))
    return out


# ------------------------------------------------------------------ guarded globals
GUARDS = ('std::lock_guard<', 'std::unique_lock<', 'std::scoped_lock<', 'boost::lock_guard', 'boost::unique_lock',
          'tbb::', 'std::shared_lock<')


def lock_state(fn, prog, gids):
    """for each access to a global of gids in fn: the set of mutexes held there (lexical scopes of RAII guards,
    explicit lock()/unlock() calls)"""
    acc = []

    def mutex_of(n):
        s = [x for x in walk(n) if (x.get('k') == 'Ref' and x.get('rk') in ('global', 'var')) or x.get('k') == 'Member']
        s = [x for x in s if 'mutex' in prog.ty(x) or 'Mutex' in prog.ty(x)]
        return {x['id'] for x in s}

    def ev(n, held):
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'Block':
            h = set(held)
            guards = {}
            for s in n['s']:
                stmt(s, h, guards)
            # explicit lock()/unlock() effects survive the block, guards do not
            for g in guards.values():
                for m in g:
                    if m not in held:
                        h.discard(m)
            return h
        if k == 'Lambda':
            # runs later, with nothing held
            for i in n.get('insts', []):
                f = prog.fns.get(i)
                if f is not None and f.body:
                    ev(f.body, set())
            for c in n.get('caps', []):
                if c.get('id') in gids:
                    acc.append((n, frozenset(held), 'captured'))
            return
        if k in ('Ref', 'Member') and n.get('id') in gids:
            acc.append((n, frozenset(held), 'use'))
        for c in kids(n):
            ev(c, held)

    def stmt(s, h, guards):
        k = s.get('k')
        if k == 'Decl':
            for v in s['v']:
                t = prog.ty(v)
                if v.get('init') is not None:
                    deferred = any('defer_lock' in str(x.get('name', '')) or 'defer_lock' in prog.ty(x)
                                   for x in walk(v['init']))
                    if any(g in t for g in GUARDS) or 'scoped_lock' in t:
                        m = mutex_of(v['init'])
                        guards[v['id']] = m
                        if not deferred and not v.get('static'):
                            h |= m
                        continue
                    ev(v['init'], h)
            return
        x = strip(s)
        if x.get('k') == 'MCall' and x.get('name') in ('lock', 'unlock', 'release') and not x['a']:
            o = strip(x['obj'])
            ms = guards.get(o.get('id')) or mutex_of(o)
            if x['name'] == 'lock':
                h |= ms
            else:
                h -= ms
            return
        if k == 'Block':
            h2 = ev(s, h)
            h &= h2
            return
        ev(s, h)
    if fn.body:
        ev(fn.body, set())
    return acc


def rng_lock(ctx, res):
    res.rule('L1', 'each access to the shared engine is made while one common mutex is held by the accessing scope')
    res.rule('L2', 'the shared engine does not escape (no reference, pointer or copy leaves its guarded accessors)')
    res.rule('L3', 'the library keeps no other mutable state shared between objects')
    core, opt = ctx.need('core', 'opt')
    for prog in (core, opt):
        engines = {}
        for g in prog.globals:
            t = prog.types[g['t']]
            if 'linear_congruential_engine' in t or 'mersenne_twister' in t or 'random_engine' in t or 'mt19937' in t:
                engines[g['id']] = g
        if not engines:
            raise AnalysisError('no global random engine found')
        common = None
        total = 0
        todo = []
        use = mentions(prog)
        for f in fns_mentioning(prog, use, set(engines)):
            for n, held, how in lock_state(f, prog, set(engines)):
                todo.append((f, n, held, how))
        for f, n, held, how in todo:
            total += 1
            h = set(held)
            if not h:
                h = callers_hold(prog, f)
            inst = '%s in %s (%s)' % (n.get('name', 'engine'), f.qual, prog.name)
            if not h:
                res.bad('L1', inst, f.where(n), 'the global engine is used in %s with no lock held' % f.qual,
                        key='L1:' + f.qual)
                continue
            common = h if common is None else common & h
            if not common:
                res.bad('L1', inst, f.where(n), 'the accesses of the global engine do not share one mutex',
                        key='L1:common:' + f.qual)
            else:
                res.ok('L1', inst, f.where(n))
            rt = f.d.get('ret')
            rts = prog.types[rt] if rt is not None else ''
            if ('&' in rts or '*' in rts) and ('engine' in rts):
                res.bad('L2', inst, f.where(n), '%s hands out a reference to the global engine' % f.qual,
                        key='L2:' + f.qual)
            else:
                res.ok('L2', inst, f.where(n))
        if total < 2:
            raise AnalysisError('fewer than two accesses to the global engine (%d)' % total)
        # other mutable globals
        writes = {}
        gl = {g['id']: g for g in prog.globals if not g.get('const') and g['id'] not in engines}
        for f in prog.fns.values():
            if not f.body:
                continue
            for n in walk(f.body):
                if n.get('k') == 'Decl':
                    for v in n['v']:
                        if v.get('static') and not prog.ty(v).startswith('const ') and not v.get('constexpr'):
                            if 'mutex' in prog.ty(v):
                                continue
                            wr = any(is_write_to(x, v['id'], prog) for x in walk(f.body))
                            if wr:
                                res.bad('L3', '%s in %s' % (v['name'], f.qual), f.where(n),
                                        'a function-local static is modified: state shared by every caller and thread',
                                        key='L3:%s:%s' % (f.qual, v['name']))
                            else:
                                res.ok('L3', '%s in %s' % (v['name'], f.qual), f.where(n), 'never written')
        for gid, g in gl.items():
            t = prog.types[g['t']]
            if 'mutex' in t:
                continue
            ws = [(f, x) for f in fns_mentioning(prog, use, {gid}) for x in walk(f.body) if is_write_to(x, gid, prog)]
            inst = '%s (%s)' % (g['qual'], prog.name)
            loc = '%s:%d' % (F.rel(prog.files[g['loc'][0]]), g['loc'][1])
            bad = [(f, x) for f, x in ws if not all(h for n, h, _ in lock_state(f, prog, {gid}))]
            if bad:
                f, x = bad[0]
                res.bad('L3', inst, f.where(x), 'global %s is modified in %s without a lock' % (g['name'], f.qual),
                        key='L3:' + g['qual'])
            else:
                res.ok('L3', inst, loc, 'never written by the library' if not ws else 'written under a lock')
    res.expect('L1', 4, 'engine accesses')


def mentions(prog):
    """declaration id -> functions whose body refers to it"""
    m = {}
    for f in prog.fns.values():
        if f.body:
            for n in walk(f.body):
                if n.get('k') in ('Ref', 'Member'):
                    m.setdefault(n['id'], set()).add(f.id)
                elif n.get('k') == 'Lambda':
                    for c in n.get('caps', []):
                        if c.get('id'):
                            m.setdefault(c['id'], set()).add(f.id)
    return m


def fns_mentioning(prog, use, ids):
    return [prog.fns[i] for i in sorted(set().union(*[use.get(g, set()) for g in ids]))]


def is_write_to(x, gid, prog):
    def base(n):
        n = strip(n)
        while n.get('k') in ('Member', 'Index') or (n.get('k') == 'OpCall' and n['op'] == '[]'):
            n = strip(n['b'] if n['k'] == 'Member' else (n['a'] if n['k'] == 'Index' else n['a'][0]))
        return n
    k = x.get('k')
    if k == 'Asg' or (k == 'OpCall' and x['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--')):
        b = base(x['a'] if k == 'Asg' else x['a'][0])
        return b.get('id') == gid
    if k == 'Un' and x['op'] in ('++', '--'):
        return base(x['e']).get('id') == gid
    if k == 'MCall' and x.get('name') in ('push_back', 'emplace_back', 'clear', 'insert', 'erase', 'resize', 'assign',
                                           'seed', 'emplace', 'pop_back', 'swap', 'reset', 'discard', 'reserve',
                                           'emplace_front', 'push_front', 'pop_front', 'str'):
        return base(x['obj']).get('id') == gid
    if k == 'OpCall' and x['op'] == '()':       # drawing changes a distribution and an engine
        return base(x['a'][0]).get('id') == gid and re.search(r'_distribution\b|_engine\b', prog.ty(base(x['a'][0]))) is not None
    if k == 'OpCall' and x['op'] in ('<<', '>>'):
        return base(x['a'][0]).get('id') == gid
    if k == 'Call' and x.get('name') in WRITERS:
        for a in x.get('a', [])[WRITERS[x['name']]:]:
            for y in walk(a):
                if y.get('k') == 'MCall' and y.get('name') in ('begin', 'data', 'rbegin') and base(y['obj']).get('id') == gid:
                    return True
    return False


# library algorithms that write through the iterators from this position on
WRITERS = {'fill': 0, 'fill_n': 0, 'iota': 0, 'generate': 0, 'sort': 0, 'shuffle': 0, 'copy': 2, 'transform': 2,
           'copy_n': 2, 'move': 2, 'partial_sum': 2}


def callers_hold(prog, f, depth=0):
    """mutexes held at every call site of f (a helper that is only entered with the lock held)"""
    if depth > 3:
        return set()
    common = None
    for g in prog.fns.values():
        if not g.body:
            continue
        sites = [x for x in walk(g.body) if x.get('k') in ('Call', 'MCall') and x.get('fn') == f.id]
        if not sites:
            continue
        for n, held, how in lock_state_calls(g, prog, f.id):
            h = set(held) or callers_hold(prog, g, depth + 1)
            common = h if common is None else common & h
    return common or set()


def lock_state_calls(g, prog, fid):
    acc = []
    ids = {id(x) for x in walk(g.body) if x.get('k') in ('Call', 'MCall') and x.get('fn') == fid}
    # reuse the scope walk by tagging the call nodes
    tag = -987654
    saved = []
    for x in walk(g.body):
        if id(x) in ids:
            saved.append(x)
    out = []
    for x in saved:
        x.setdefault('a', []).append({'k': 'Ref', 'id': tag, 'name': '?', 'f': x['f'], 'l': x['l']})
    try:
        out = lock_state(g, prog, {tag})
    finally:
        for x in saved:
            x['a'].pop()
    return out
