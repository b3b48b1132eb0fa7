"""Encoding layout, active data, evaluation and loss of the expressions."""
from model import *


def model(ctx):
    if 'model' not in ctx.memo:
        ctx.memo['model'] = Model(ctx)
    return ctx.memo['model']


SELF = mk('init', mk('obj', 'self'))
UV = 'vector<unsigned'
NV = 'vector<double'
SV = 'vector<std::basic_string'


def ctors(M, cls):
    short = cls.split('::')[-1].split('<')[0]
    return [f for f in M.p.find(cls, short) if f.ctor and f.body is not None and len(f.params) >= 7]


def ctor_roles(M, f):
    """positions of n m r c l arity kernels [n_eph] seed, by position (the documented order)"""
    ts = f.ptypes()
    ks = [i for i, t in enumerate(ts) if 'kernel<' in t]
    if len(ks) != 1 or ks[0] != 6:
        raise AnalysisError('constructor %s has an unexpected signature' % f)
    return dict(n=0, m=1, r=2, c=3, l=4, arity=5, f=6, n_eph=7 if len(ts) == 9 else None)


def ctor_env(M, f, rnd):
    """sample arguments for either constructor"""
    ro = ctor_roles(M, f)
    ts = f.ptypes()
    c = rnd.randint(1, 4)
    r = rnd.randint(1, 3)
    n = rnd.randint(1, 3)
    vals = {'n': n, 'm': rnd.randint(1, 3), 'r': r, 'c': c, 'l': rnd.randint(1, c + 1), 'n_eph': rnd.randint(0, 2)}
    env = {'salt': rnd.random()}
    for k, i in ro.items():
        if i is None:
            continue
        t = ts[i]
        if k == 'arity':
            v = rnd.randint(1, 3) if not is_vec_t(t) else [rnd.randint(1, 3) for _ in range(c)]
        elif k == 'f':
            v = M.kernels(vec_elem_t(t), rnd.sample(M.ANN, rnd.randint(1, 4)))
        else:
            v = vals[k]
        env[M.argterm(i, t)] = v
    i = len(ts) - 1
    env[M.argterm(i, ts[i])] = rnd.randint(0, 1000)
    return env


def spec_args(M, ip, f, extra_n=True):
    """bindings n m r c l arity n_f of the layout functions, as terms over the constructor's parameters"""
    ro = ctor_roles(M, f)
    ts = f.ptypes()
    a = {k: M.argterm(i, ts[i]) for k, i in ro.items() if i is not None}
    n = add(a['n'], a['n_eph']) if 'n_eph' in a else a['n']
    ar = a['arity'] if is_vec_t(ts[ro['arity']]) else fill(a['c'], a['arity'])
    for k in ('n', 'm', 'r', 'c', 'l', 'n_eph', 'arity'):
        if k in a:
            ip.typed(a[k], ts[ro[k]])
    ip.pr.mark_elem(ar)
    return dict(n=n, m=a['m'], r=a['r'], c=a['c'], l=a['l'], arity=ar, nf=size(a['f']), n_eph=a.get('n_eph', ZERO))


def run_spec(M, name, binds, pt=(), st=None, facts=None, prep=None):
    """summary of a reference function on the given terms (by position)"""
    f = M.spec(name, *pt)
    ip = M.interp()
    s0 = st.copy() if st is not None else St()
    if facts:
        s0.facts = s0.facts | frozenset(facts)
    if prep:
        prep(ip, s0)
    args = []
    for i, prm in enumerate(f.params):
        t = M.p.types[prm['t']]
        b = binds[i]
        if isinstance(b, tuple):
            args.append(b)
        elif isref(t):
            r = mk('obj', 'sa', i)
            s0.mem[r] = b
            args.append(('r', LV(r)))
            ip.typed(b, t)
        else:
            args.append(('v', b))
            ip.typed(b, t)
    s = ip.run(f, None, args, s0)
    return s


def layout(ctx, res):
    M = model(ctx)
    import random
    res.rule('layout', 'after every constructor the bounds, the gene positions and the chromosome length are the '
                       'documented functions of the constructor arguments, for all arguments')
    res.rule('symbols', 'weights, biases and their symbols are laid out one per connection / node in encoding order')
    for cls in (D, W, A):
        for f in ctors(M, cls):
            s = M.run(f, cls, key='ctor')
            if s.st is None:
                res.bad('layout', '%s constructor returns' % cls, f.where(), 'no normal return')
                continue
            rnd = random.Random(7 + ctx.seed)
            envs = [ctor_env(M, f, rnd) for _ in range(12)]
            who = cls.split('::')[-1] + ('(arity per column)' if is_vec_t(f.ptypes()[5]) else '(one arity)')
            facts = s.st.facts

            def check(rule, what, val, spec, names, pt=()):
                ip = M.interp()
                b = spec_args(M, ip, f)
                sp = run_spec(M, spec, [b[x] for x in names], pt, facts=facts, prep=lambda ip2, st: spec_args(M, ip2, f))
                compare(res, rule, '%s: %s' % (who, what), f.where(), val, M.value(sp), envs, s.ip, sp.ip,
                        '%s of %s' % (what, who))
            seven = ('n', 'm', 'r', 'c', 'l', 'arity', 'nf')
            check('layout', 'lower bounds', M.field(s, cls, 'get_lb'), 'lower', seven)
            check('layout', 'upper bounds', M.field(s, cls, 'get_ub'), 'upper', seven)
            check('layout', 'gene positions', M.field(s, cls, 'get_gene_idx'), 'gene_idx', seven)
            b = spec_args(M, M.interp(), f)
            for g, t in (('get_n', b['n']), ('get_m', b['m']), ('get_r', b['r']), ('get_c', b['c']), ('get_l', b['l']),
                         ('get_arity', b['arity'])):
                compare(res, 'layout', '%s: %s()' % (who, g), f.where(), M.field(s, cls, g), t, envs, s.ip, s.ip)
            x = M.field(s, cls, 'get')
            compare(res, 'layout', '%s: chromosome length' % who, f.where(), size(x),
                    M.value(run_spec(M, 'n_genes', [b['m'], b['r'], b['c'], b['arity']], facts=facts)), envs, s.ip, s.ip)
            if cls == D:
                compare(res, 'layout', '%s: number of constants' % who, f.where(), size(M.field(s, cls, 'get_eph_val')),
                        b['n_eph'], envs, s.ip, s.ip)
                compare(res, 'layout', '%s: number of constant names' % who, f.where(),
                        size(M.field(s, cls, 'get_eph_symb')), b['n_eph'], envs, s.ip, s.ip)
            if cls in (W, A):
                check('symbols', 'initial weights', M.field(s, cls, 'get_weights'), 'unit_weights', ('r', 'arity'))
            if cls == A:
                check('symbols', 'initial biases', M.field(s, cls, 'get_biases'), 'zero_biases', ('r', 'c'))
            if cls in (W, A):
                own = [x['name'] for x in M.p.records[cls]['fields'] if 'vector<std::basic_string' in base_type(M.p.types[x['t']])]
                for nm in own:
                    v = s.field(nm)
                    sy = 'bias_symbols' if 'bias' in nm else 'weight_symbols'
                    check('symbols', nm, v, sy, ('n', 'r', 'c') if sy == 'bias_symbols' else ('n', 'r', 'c', 'arity'))
    res.expect('layout', 40, 'constructor fields')


# ------------------------------------------------------------------ objects
def on_self(M, name, cls, binds=(), pt=(), st=None, e='same'):
    """reference function applied to the same object (and the given terms)"""
    f = M.spec(name, *pt)
    ip = M.interp()
    s0 = st.copy() if st is not None else St()
    o = ip.new_object('self', cls)
    args = [('r', o)]
    for i, prm in enumerate(f.params[1:]):
        t = M.p.types[prm['t']]
        b = binds[i]
        if isinstance(b, tuple):
            args.append(b)
        elif isref(t):
            r = mk('obj', 'sa', i)
            s0.mem[r] = b
            args.append(('r', LV(r)))
            ip.typed(b, t)
        else:
            args.append(('v', b))
            ip.typed(b, t)
    return ip.run(f, None, args, s0)


def self_envs(M, cls, fill=None, n=12, seed=3):
    """sample objects with arguments: fill(env, object, rnd) adds the arguments"""
    import random
    rnd = random.Random(seed)
    out = []
    for v, d in M.objects(cls, n):
        env = {SELF: v, 'salt': rnd.random()}
        if fill is not None:
            fill(env, v, rnd)
        out.append(env)
    return out


def short(cls):
    return cls.split('::')[-1]


def getv(M, cls, v, name):
    r = M.role(cls, name)
    for x in r:
        v = v[x]
    return v


def active(ctx, res):
    M = model(ctx)
    res.rule('active', 'after the active data is rebuilt it is exactly what the output genes reach, and the genes are '
                       'those of the reached nodes followed by the outputs')
    for cls in (D, W, A):
        f = M.fn(cls, 'update_data_structures', nparams=0)
        s = M.run(f, cls, key=('upd', cls))
        envs = self_envs(M, cls)
        sp = on_self(M, 'active_nodes', cls)
        compare(res, 'active', '%s: active nodes' % short(cls), f.where(), M.field(s, cls, 'get_active_nodes'),
                M.value(sp), envs, s.ip, sp.ip, 'set of active nodes')
        sp2 = on_self(M, 'active_genes', cls, [M.value(sp)])
        compare(res, 'active', '%s: active genes' % short(cls), f.where(), M.field(s, cls, 'get_active_genes'),
                M.value(sp2), envs, s.ip, (sp.ip, sp2.ip), 'list of active genes')


def evaluators(ctx, res):
    M = model(ctx)
    res.rule('numeric', 'the numeric evaluation applies, node by node, the kernel the function gene names to the values '
                        'of the nodes the connection genes name')
    res.rule('symbolic', 'the symbolic evaluation does the same on expressions')

    def nums(env, v, rnd):
        n = getv(M, D, v, 'get_n') - len(getv(M, D, v, 'get_eph_val'))
        env[mk('init', mk('obj', 'arg', 'a0'))] = vec(rnd, n)

    def strs(env, v, rnd):
        n = getv(M, D, v, 'get_n') - len(getv(M, D, v, 'get_eph_val'))
        env[mk('init', mk('obj', 'arg', 'a0'))] = ['x%d' % i for i in range(n)]
    a0 = mk('init', mk('obj', 'arg', 'a0'))
    W_ = mk('fld', SELF, (M.role(W, 'get_weights') or ['?'])[0])
    for cls, num, sym in ((D, 'eval_num', 'eval_str'), (W, 'eval_weighted', 'eval_weighted_str'),
                          (A, 'eval_ann', 'eval_ann_str')):
        for rule, pt, spec in (('numeric', NV, num), ('symbolic', SV, sym)):
            f = M.fn(cls, 'operator()', pt)
            s = M.run(f, cls, key=('op', cls), prep=lambda ip, st: no_correction(M, cls, st))
            extra = []
            if cls == W:
                extra = [M.getter(cls, 'get_weights')] if rule == 'numeric' else [own_symbols(M, cls)[0]]
            if cls == A:
                extra = [M.getter(cls, 'get_weights'), M.getter(cls, 'get_biases')] if rule == 'numeric' else \
                    list(own_symbols(M, cls))
            sp = on_self(M, spec, cls, [a0] + extra)
            envs = self_envs(M, cls, nums if rule == 'numeric' else strs)
            va = M.value(s)
            compare(res, rule, '%s: %s evaluation' % (short(cls), rule), f.where(), va, M.value(sp), envs, s.ip, sp.ip)


def no_correction(M, cls, st):
    for n in M.fields_of_type(cls, lambda t: 'optional<' in t):
        o = mk('obj', 'self')
        st.mem[o] = upd(st.mem.get(o, SELF), n, mk('none'))


def own_symbols(M, cls):
    """terms of the weight and bias symbol lists (the class's own lists of strings, told apart by their length in
    the constructor: weights have one per connection)"""
    own = [x['name'] for x in M.p.records[cls]['fields'] if 'vector<std::basic_string' in base_type(M.p.types[x['t']])]
    w = [n for n in own if 'bias' not in n]
    b = [n for n in own if 'bias' in n]
    return [mk('fld', SELF, n) for n in w[:1] + b[:1]]


def enum_consts(M, *names):
    """terms of the enumerators with these names"""
    out = {}
    for f in M.p.fns.values():
        if f.body is None or 'dcgp' not in f.qual:
            continue
        for n in walk(f.body):
            if n.get('rk') == 'enumc' and n.get('name') in names:
                out[n['name']] = mk('enumc', n.get('qual', n['name']), n.get('cv'))
    if len(out) != len(names):
        raise AnalysisError('enumerators %s not found' % (names,))
    return [out[n] for n in names]


def vals(v, cls, M):
    n = getv(M, D, v, 'get_n') - len(getv(M, D, v, 'get_eph_val'))
    return n, getv(M, D, v, 'get_m')


def race_free(res, inst, fn, s):
    """what the parts of a parallel section share is only written under one lock, or each part writes places of its own"""
    ip = s.ip
    if not ip.parlog:
        res.ok('race', inst, fn.where(), 'no part runs at the same time as another')
        return
    writes, reads = {}, {}
    for par, how, root, path, held, f, node in ip.parlog:
        own = par.kappa.op != 'k' or any(e[0] == 'i' and par.kappa in syms(e[1]) for e in path)
        top = tuple(e[1] for e in path[:1] if e[0] == 'f')
        if how == 'write':
            writes.setdefault((root, top), []).append((held, own, path, f, node))
        else:
            reads.setdefault((root, top), []).append((held, own, path, f, node))
    n = 0
    for (root, top), ws in sorted(writes.items(), key=lambda x: str(x[0])):
        name = ip.kinds.get(root) or 'the object'
        if top:
            name = '%s of %s' % (top[0], name)
        if 'atomic' in ip.vtypes.get(root, '') or 'combinable' in ip.vtypes.get(root, '') or 'enumerable_thread' in ip.vtypes.get(root, ''):
            res.undecided('race', inst, fn.where(), '%s is shared through a special type' % name)
            return
        common = None
        for held, own, path, f, node in ws:
            n += 1
            if own:
                continue
            at = f.where(node) if f is not None else fn.where()
            if not held:
                res.bad('race', inst, at, 'parts running at the same time write %s with no lock held' % name)
                return
            common = held if common is None else common & held
            if not common:
                res.bad('race', inst, at, 'parts running at the same time write %s under different locks' % name)
                return
        for held, own, path, f, node in reads.get((root, top), ()):
            if own or held or common is None:
                continue
            t = base_type(ip.vtypes.get(root, ''))
            if path and path[-1][0] == 'i' or not path and (is_float_t(t) or is_int_t(t)):
                res.bad('race', inst, f.where() if f is not None else fn.where(),
                        'a part reads %s with no lock held while others write it' % name)
                return
    res.ok('race', inst, fn.where(), '%d writes of shared places, all under one lock or apart' % n)


def losses(ctx, res):
    M = model(ctx)
    res.rule('sample', 'the loss of one sample is the documented error of the evaluated outputs')
    res.rule('batch', 'the loss of a batch is the mean of the sample losses, each sample once with its own label, '
                      'whatever the number of parallel parts')
    res.rule('race', 'parallel parts only touch what they share under one lock')
    a = [mk('init', mk('obj', 'arg', 'a%d' % i)) for i in range(3)]
    kinds = dict(zip(('MSE', 'CE'), enum_consts(M, 'MSE', 'CE')))

    def one(env, v, rnd):
        n, m = vals(v, D, M)
        env[a[0]] = vec(rnd, n)
        env[a[1]] = vec(rnd, m, 0.1, 1.)
    for cls in (D, W, A):
        for nm, kind in kinds.items():
            f = M.fn(cls, 'loss', NV, NV, nparams=3)
            s = M.run(f, cls, given={2: ('v', kind)}, key=('loss', cls, nm), prep=lambda ip, st: no_correction(M, cls, st))
            st = St()
            no_correction(M, cls, st)
            sp = on_self(M, 'sample_loss', cls, [a[0], a[1], ('v', kind)], st=st)
            compare(res, 'sample', '%s: %s of one sample' % (short(cls), nm), f.where(), M.value(s), M.value(sp),
                    self_envs(M, cls, one), s.ip, sp.ip)

    def many(par):
        def go(env, v, rnd):
            n, m = vals(v, D, M)
            N = rnd.choice([2, 4, 6])
            env[a[0]] = [vec(rnd, n) for _ in range(N)]
            env[a[1]] = [vec(rnd, m, 0.1, 1.) for _ in range(N)]
            env[mk('arg', 'par')] = par and 2
            env[mk('arg', 'a3')] = par and 2
        return go
    for cls in (D, W, A):
        f = M.fn(cls, 'loss', 'vector<std::vector', 'vector<std::vector', nparams=4)
        for nm, kind in kinds.items():
            for par in (0, 1):
                parg = ZERO if not par else mk('arg', 'a3')
                fc = [ige(sub(parg, ONE))] if par else []
                st = St()
                no_correction(M, cls, st)
                st.facts = st.facts | frozenset(fc)
                r = mk('obj', 'arg', 'a2')
                st.mem[r] = mk('str', nm)
                s = M.run(f, cls, given={2: ('r', LV(r)), 3: ('v', parg)}, st=st, key=('bloss', cls, nm, par))
                sp = on_self(M, 'batch_loss', cls, [a[0], a[1], ('v', kind), ('v', parg)], st=st)
                compare(res, 'batch', '%s: %s of a batch%s' % (short(cls), nm, ', in parallel parts' if par else ''),
                        f.where(), M.value(s), M.value(sp), self_envs(M, cls, many(par)), s.ip, sp.ip)
                if par:
                    race_free(res, '%s: %s of a batch' % (short(cls), nm), f, s)


def ann_fields(M):
    r = {}
    for x in M.p.records[A]['fields']:
        t = base_type(M.p.types[x['t']])
        if 'pair<' in t:
            r['links'] = x['name']
        elif 'kernel_type' in t:
            r['kinds'] = x['name']
    if len(r) != 2:
        raise AnalysisError('the network class has no consumer lists / kernel kinds')
    return r


def byref(M, s, i):
    return s.ip.load(s.st, LV(mk('obj', 'arg', 'a%d' % i)))


def ann_terms(M):
    fl = ann_fields(M)
    fs = {k: mk('fld', SELF, v) for k, v in fl.items()}
    return fl, fs, M.getter(A, 'get_weights'), M.getter(A, 'get_biases')


def links(ctx, res):
    M = model(ctx)
    fl, fs, wt, bt = ann_terms(M)
    res.rule('links', 'the consumer lists used for back-propagation are those of the current chromosome')
    f = M.fn(A, 'update_data_structures', nparams=0)
    s = M.run(f, A, key=('upd', A))
    # the lists are computed from the refreshed active nodes
    sp = on_self(M, 'consumers', A, st=s.st)
    compare(res, 'links', 'consumers after a refresh', f.where(), s.field(fl['links']), M.value(sp), self_envs(M, A),
            s.ip, sp.ip)


def kinds(ctx, res):
    M = model(ctx)
    fl, fs, wt, bt = ann_terms(M)
    res.rule('kinds', 'the nonlinearity attached to each kernel is the one its name says')
    for f in ctors(M, A):
        s = M.run(f, A, key='ctor')
        if s.st is None:
            continue
        import random
        rnd = random.Random(11)
        envs = [ctor_env(M, f, rnd) for _ in range(12)]
        sp = run_spec(M, 'kinds', [M.argterm(6, f.ptypes()[6])], facts=s.st.facts)
        compare(res, 'kinds', 'kinds after construction (%s)' % f.ptypes()[5], f.where(), s.field(fl['kinds']), M.value(sp),
                envs, s.ip, sp.ip)


def gradient(ctx, res):
    M = model(ctx)
    fl, fs, wt, bt = ann_terms(M)
    res.rule('gradient', 'loss value and gradients of one sample are the back-propagated ones')
    kinds = dict(zip(('MSE', 'CE'), enum_consts(M, 'MSE', 'CE')))
    a = [mk('init', mk('obj', 'arg', 'a%d' % i)) for i in range(6)]
    f = M.fn(A, 'd_loss', 'double &', NV, NV, NV, NV, nparams=6)

    def args(env, v, rnd):
        n, m = vals(v, D, M)
        env['real'] = True
        env[a[0]] = rnd.uniform(-1, 1)
        env[a[1]] = vec(rnd, len(getv(M, A, v, 'get_weights')))
        env[a[2]] = vec(rnd, len(getv(M, A, v, 'get_biases')))
        env[a[3]] = vec(rnd, n)
        env[a[4]] = vec(rnd, m, 0.1, 1.)
    for nm, kind in kinds.items():
        s = M.run(f, A, given={5: ('v', kind)}, key=('dloss', nm))
        st = St()
        sp = on_self(M, 'grad', A, [('r', LV(mk('obj', 'arg', 'a%d' % i))) for i in range(5)]
                     + [('v', kind), wt, bt, fs['kinds'], fs['links']])
        for i, what in ((0, 'value'), (1, 'gradient of the weights'), (2, 'gradient of the biases')):
            x = s.ip.load(s.st, LV(mk('obj', 'arg', 'a%d' % i))) if s.st is not None else None
            y = sp.ip.load(sp.st, LV(mk('obj', 'arg', 'a%d' % i))) if sp.st is not None else None
            compare(res, 'gradient', '%s: %s' % (nm, what), f.where(), x, y, lambda: self_envs(M, A, args, 80), s.ip, sp.ip)


def train_setup(M):
    fl = ann_fields(M)
    fs = {k: mk('fld', SELF, v) for k, v in fl.items()}
    wt, bt = M.getter(A, 'get_weights'), M.getter(A, 'get_biases')
    kinds = dict(zip(('MSE', 'CE'), enum_consts(M, 'MSE', 'CE')))
    VV = 'vector<std::vector'
    a = [mk('init', mk('obj', 'arg', 'a%d' % i)) for i in range(7)]

    def data(par, sgd=False):
        def go(env, v, rnd):
            n, m = vals(v, D, M)
            N = rnd.choice([2, 4])
            env['real'] = True
            env[a[0]] = [vec(rnd, n) for _ in range(N)]
            env[a[1]] = [vec(rnd, m, 0.1, 1.) for _ in range(N)]
            env[mk('arg', 'a5' if sgd else 'a3')] = par and 2
            env[mk('arg', 'a2')] = 0.05
            env[mk('arg', 'a3')] = rnd.choice([2, 4, 6]) if sgd and par else rnd.choice([1, 2, 3, 5]) if sgd else par and 2
        return go
    return fs, wt, bt, kinds, VV, a, data


def batch_gradient(ctx, res):
    M = model(ctx)
    fs, wt, bt, kinds, VV, a, data = train_setup(M)
    res.rule('batch-gradient', 'the gradient of a batch is the mean of the sample gradients, each sample once with its '
                               'own label, whatever the number of parallel parts')
    res.rule('race', 'parallel parts only touch what they share under one lock')
    f = M.fn(A, 'd_loss', VV, VV, nparams=4)
    for nm, kind in kinds.items():
        for par in (0, 1):
            parg = ZERO if not par else mk('arg', 'a3')
            st = St()
            if par:
                st.facts = st.facts | frozenset([ige(sub(parg, ONE))])
            s = M.run(f, A, given={2: ('v', kind), 3: ('v', parg)}, st=st, key=('bgrad', nm, par))
            if par:
                race_free(res, '%s: gradient of a batch' % nm, f, s)
            sp = on_self(M, 'batch_grad_all', A, [a[0], a[1], ('v', kind), ('v', parg), wt, bt, fs['kinds'], fs['links']], st=st)
            for i, what in ((0, 'mean loss'), (1, 'weights'), (2, 'biases')):
                x, y = tuple_item(M.value(s), i), tuple_item(M.value(sp), i)
                compare(res, 'batch-gradient', '%s%s: %s' % (nm, ', in parallel parts' if par else '', what), f.where(), x,
                        y, self_envs(M, A, data(par), 8), s.ip, sp.ip)


def training(ctx, res):
    M = model(ctx)
    fs, wt, bt, kinds, VV, a, data = train_setup(M)
    res.rule('descent', 'an epoch walks once through the samples in order, in batches of the requested size, moving '
                        'the parameters against the gradient of each batch')
    f = M.fn(A, 'sgd', VV, VV, nparams=7)
    for nm, kind in kinds.items():
        for par in (0, 1):
            parg = ZERO if not par else mk('arg', 'a5')
            st = St()
            bs = mk('arg', 'a3')
            st.facts = st.facts | frozenset([ige(sub(bs, ONE))])
            if par:
                st.facts = st.facts | frozenset([ige(sub(parg, ONE))])
            r = mk('obj', 'arg', 'a4')
            st.mem[r] = mk('str', nm)
            s = M.run(f, A, given={4: ('r', LV(r)), 5: ('v', parg), 6: ('v', ZERO)}, st=st, key=('sgd', nm, par))
            sp = on_self(M, 'epoch', A, [a[0], a[1], ('v', mk('arg', 'a2')), ('v', bs), ('v', kind), ('v', parg), wt, bt,
                                         fs['kinds'], fs['links']], st=st)
            if s.st is None or sp.st is None:
                res.undecided('descent', nm, f.where(), 'no normal return')
                continue
            es = self_envs(M, A, data(par, True), 8)
            for what, x, y in (('loss', M.value(s), M.value(sp)),
                               ('weights', M.field(s, A, 'get_weights'), sp.ip.load(sp.st, LV(mk('obj', 'sa', 6)))),
                               ('biases', M.field(s, A, 'get_biases'), sp.ip.load(sp.st, LV(mk('obj', 'sa', 7))))):
                compare(res, 'descent', '%s%s: %s' % (nm, ', in parallel parts' if par else '', what), f.where(), x, y,
                        es, s.ip, sp.ip)


def tuple_item(t, i):
    return fld(t, 'get%d' % i) if t is not None else None
