"""Everything that changes an expression, against the reference transitions."""
from r_expr import *

NODES, GENES, X = 'get_active_nodes', 'get_active_genes', 'get'


def engine_field(M):
    f = M.fields_of_type(D, lambda t: 'mersenne_twister' in t)
    if len(f) != 1:
        raise AnalysisError('the expression has no single random engine')
    return mk('fld', SELF, f[0])


def arg_types(M, f):
    return [M.p.types[x['t']] for x in f.params]


def state_term(M, cls, role):
    if role == 'engine':
        return engine_field(M)
    return M.getter(cls, role)


def transition(M, res, rule, cls, f, spec, nargs, roles, outs, envs, what, given=None, value=False, consts=(), reject=True):
    """library member f against reference function spec(e, args.., state..): state terms listed in roles, outs = roles whose
    final values are compared"""
    st = St()
    s = M.run(f, cls, given=given, key=('tr', cls, what), prep=lambda ip, st: no_correction(M, cls, st))
    sf = M.spec(spec)
    no_correction(M, cls, st)
    ip = M.interp()
    o = ip.new_object('self', cls)
    args = [('r', o)]
    refs = {}
    for i, prm in enumerate(sf.params[1:]):
        t = M.p.types[prm['t']]
        if i < nargs:
            lt = M.p.types[f.params[i]['t']]
            g = (given or {}).get(i) or M.arg(ip, i, lt)
            if isref(t) and g[0] == 'v':
                r = mk('obj', 'sarg', i)
                st.mem[r] = g[1]
                g = ('r', LV(r))
            elif not isref(t) and g[0] == 'r':
                g = ('v', ip.load(st, g[1]))
            args.append(g)
        else:
            role = roles[i - nargs]
            r = mk('obj', 'sa', i)
            v = role if isinstance(role, T) else state_term(M, cls, role)
            st.mem[r] = v
            refs[role] = LV(r)
            ip.typed(v, t)
            args.append(('r', LV(r)) if isref(t) else ('v', v))
    sp = ip.run(sf, None, args, st)
    inst = '%s::%s' % (short(cls), what)
    full = envs if isinstance(envs, list) else list(envs())
    ev = regular(s, sp, full)
    if value:
        compare(res, rule, inst + ' value', f.where(), M.value(s), M.value(sp), ev, s.ip, sp.ip, what)
    for role in outs:
        x = s.field(engine_field(M).args[1]) if role == 'engine' else M.field(s, cls, role) if s.st is not None else None
        y = sp.ip.load(sp.st, refs[role]) if sp.st is not None else None
        compare(res, rule, '%s: %s' % (inst, role.replace('get_', '')), f.where(), x, y, ev, s.ip, sp.ip,
                '%s after %s' % (role, what))
    if reject:
        compare_accept(res, 'rejects', inst, f.where(), s, sp, full, what)
    return s, sp


def a0(t='arg'):
    return mk('arg', 'a0') if t == 'arg' else mk('init', mk('obj', 'arg', 'a0'))


def put(env, i, v):
    env[mk('arg', 'a%d' % i)] = v
    env[mk('init', mk('obj', 'arg', 'a%d' % i))] = v


def pos(v, M, rnd, slack=2):
    return rnd.randint(0, len(getv(M, D, v, 'get')) - 1 + slack)


def self_touched(s):
    """throws with the object as it is at that point: [(throw, final term, initial term)]"""
    out = []
    for t in s.throws:
        r = s.this.args[0]
        v = t[0].mem.get(r)
        i = mk('init', r)
        if v is None or v is i:
            out.append((t, i, i))
        else:
            out.append((t, v, i))
    return out


def intact(ctx, res):
    """at every point where a public mutator gives up, the object still has its initial value"""
    M = model(ctx)
    res.rule('intact', 'where a public non-const member throws, no member of the object has been changed')
    for cls in (D, W, A, 'dcgp::kernel_set<double>', 'dcgp::symbolic_regression'):
        fs = sorted((f for f in M.p.fns.values() if f.cls == cls and f.body is not None),
                    key=lambda f: f.loc)
        for f in fs:
            if f.ctor or f.static or f.const or f.access != 'public' or f.name.startswith(('operator', '~', 'serialize', 'save', 'load')):
                continue
            given = ranges(M, f)
            try:
                s = M.run(f, cls, given=given, key='intact')
            except AnalysisError as e:
                res.undecided('intact', '%s::%s' % (short(cls), f.name), f.where(), str(e)[:100])
                continue
            inst = '%s::%s(%d)' % (short(cls), f.name, len(f.params))
            if not s.throws:
                continue
            for t, v, i in self_touched(s):
                if v is i or equiv.same(v, i, s.ip):
                    res.ok('intact', inst, t[2].where(t[1]), 'object unchanged where it throws')
                    continue
                w = changed_at(M, cls, s, t, v, f)
                if w:
                    res.bad('intact', inst, t[2].where(t[1]), '%s throws after changing %s (for example %s)' % (
                        f.name, ', '.join(w[0]), w[1]))
                else:
                    res.undecided('intact', inst, t[2].where(t[1]), 'no point where the object differs')


def ranges(M, f):
    """two consecutive parameters of one iterator type: the ends of a range over one array"""
    ts = [base_type(t) for t in arg_types(M, f)]
    out = {}
    for i in range(len(ts) - 1):
        if ts[i] == ts[i + 1] and i not in out and ('__normal_iterator' in ts[i] or ts[i].endswith('*')):
            r = mk('obj', 'arg', 'a%d' % i)
            out[i] = ('v', mk('ptr', LV(r), ZERO))
            out[i + 1] = ('v', mk('ptr', LV(r), mk('size', mk('init', r))))
    return out or None


def changed_at(M, cls, s, t, v, f):
    L = Loops(s.ip)
    rnd = random.Random(5)
    rg = ranges(M, f) or {}

    def ex(env, o, rnd):
        for i, prm in enumerate(f.params):
            ty = base_type(M.p.types[prm['t']])
            if i in rg and i + 1 in rg:
                x = new_x(o, M, rnd)
                put(env, i, [float(q) for q in x] if 'double' in ty else x)
            elif is_uns_t(ty):
                put(env, i, rnd.randint(0, 12))
            elif ty == 'int':
                put(env, i, rnd.randint(-1, 12))
            elif is_vec_t(ty) and is_uns_t(vec_elem_t(ty)):
                put(env, i, [pos(o, M, rnd) for _ in range(rnd.randint(1, 4))] if f.name != 'set' else new_x(o, M, rnd))
            elif is_vec_t(ty) and 'double' in vec_elem_t(ty) and not is_vec_t(vec_elem_t(ty)):
                put(env, i, vec(rnd, rnd.randint(0, 8)))
            elif 'double' == ty:
                put(env, i, 1.5)
    envs = self_envs(M, cls, ex, 40)
    me = mk('init', s.this.args[0])
    ks = sorted({x.args[0] for q in [v] + list(t[0].facts) for x in syms(q) if x.op == 'k'})
    import itertools
    for env in envs:
        val = Valuation(L, env)
        for js in itertools.product(range(5), repeat=len(ks)):
            K = dict(zip(ks, js))
            try:
                if not all(val.ev(q, K, {}) for q in t[0].facts):
                    continue
                new = val.ev(v, K, {})
                old = val.ev(me)
            except (NoValue, Ill, OverflowError, ZeroDivisionError, ValueError, RecursionError, KeyError, TypeError, IndexError):
                continue
            if isinstance(new, dict) and isinstance(old, dict):
                d = [k for k in old if new.get(k) != old[k]]
                if d:
                    return d, {show(k, 3): brief(x) for k, x in env.items() if isinstance(k, T) and k.op in ('arg', 'init') and k is not me}
    return None


def new_x(v, M, rnd):
    """a chromosome, at times with a wrong length or a gene out of bounds"""
    lb, ub = getv(M, D, v, 'get_lb'), getv(M, D, v, 'get_ub')
    x = [rnd.randint(a, b) for a, b in zip(lb, ub)]
    k = rnd.randint(0, 5)
    i = rnd.randrange(len(x))
    if k == 0:
        x[i] = ub[i] + 1
    elif k == 1 and lb[i] > 0:
        x[i] = lb[i] - 1
    elif k == 2:
        x.append(0)
    elif k == 3:
        x.pop()
    return x


STATE = [X, NODES, GENES]


def setters(ctx, res):
    M = model(ctx)
    res.rule('set', 'a setter stores exactly the accepted values and refreshes what depends on them')
    res.rule('rejects', 'exactly the documented arguments are rejected')

    def args(fn, n=14):
        return lambda: self_envs(M, D, fn, n)
    for cls in (D, A):
        def ex(env, v, rnd):
            put(env, 0, new_x(v, M, rnd))
        transition(M, res, 'set', cls, M.fn(cls, 'set', UV), 'set_x', 1, STATE, STATE, self_envs(M, cls, ex, 14), 'set')

        def ex(env, v, rnd):
            n, rc = getv(M, D, v, 'get_n'), getv(M, D, v, 'get_r') * getv(M, D, v, 'get_c')
            put(env, 0, rnd.choice([rnd.randint(0, n + rc + 1), n + rc, n + rc - 1, n, n - 1]))
            nf = len(getv(M, D, v, 'get_f'))
            put(env, 1, rnd.randint(0, nf))
        transition(M, res, 'set', cls, M.fn(cls, 'set_f_gene', nparams=2), 'f_gene', 2, [X], [X],
                   self_envs(M, cls, ex, 24), 'set_f_gene')
    for f in M.p.find(D, 'set_from_range'):
        if f.body is None:
            continue
        t = arg_types(M, f)[0]
        isd = 'double' in t
        ip = M.interp()
        r = mk('obj', 'arg', 'a0')
        given = {0: ('v', mk('ptr', LV(r), ZERO)), 1: ('v', mk('ptr', LV(r), mk('size', mk('init', r))))}

        def ex(env, v, rnd):
            x = new_x(v, M, rnd)
            put(env, 0, [float(q) for q in x] if isd else x)
        sf = 'set_range_d' if isd else 'set_range_u'
        st = St()
        s = M.run(f, D, given=given, key=('tr', D, 'range', isd))
        ip = M.interp()
        o = ip.new_object('self', D)
        args_ = [('r', o), ('r', LV(r))]
        st = St()
        for i, role in enumerate(STATE):
            q = mk('obj', 'sa', i)
            st.mem[q] = M.getter(D, role)
            args_.append(('r', LV(q)))
        sp = ip.run(M.spec(sf), None, args_, st)
        full = self_envs(M, D, ex, 14)
        ev = regular(s, sp, full)
        inst = 'expression::set_from_range over %s' % ('numbers' if isd else 'genes')
        for i, role in enumerate(STATE):
            compare(res, 'set', '%s: %s' % (inst, role), f.where(), M.field(s, D, role),
                    sp.ip.load(sp.st, LV(mk('obj', 'sa', i))), ev, s.ip, sp.ip)
        compare_accept(res, 'rejects', inst, f.where(), s, sp, full, 'set_from_range')

    def ex(env, v, rnd):
        k = len(getv(M, D, v, 'get_eph_val'))
        put(env, 0, vec(rnd, max(0, k + rnd.choice([0, 0, 1, -1]))))
    transition(M, res, 'set', D, M.fn(D, 'set_eph_val', nparams=1), 'new_constants', 1, ['get_eph_val'], ['get_eph_val'],
               self_envs(M, D, ex, 14), 'set_eph_val')

    def ex(env, v, rnd):
        k = len(getv(M, D, v, 'get_eph_val'))
        put(env, 0, ['k%d' % i for i in range(max(0, k + rnd.choice([0, 0, 1, -1])))])
    transition(M, res, 'set', D, M.fn(D, 'set_eph_symb', nparams=1), 'new_names', 1, ['get_eph_symb'], ['get_eph_symb'],
               self_envs(M, D, ex, 14), 'set_eph_symb')

    def ex(env, v, rnd):
        n, rc = getv(M, D, v, 'get_n'), getv(M, D, v, 'get_r') * getv(M, D, v, 'get_c')
        put(env, 0, rnd.choice([rnd.randint(0, n + rc + 1), n + rc, n + rc - 1, n, n - 1]))
    transition(M, res, 'set', D, M.fn(D, 'get_arity', nparams=1), 'node_arity', 1, [], [], self_envs(M, D, ex, 24),
               'get_arity(node)', value=True)


def mutations(ctx, res):
    M = model(ctx)
    res.rule('mutation', 'a mutation redraws only genes of the kind it names, uniformly within their bounds and different from '
                         'the old value, and refreshes the active data')
    res.rule('rejects', 'exactly the documented arguments are rejected')
    ST = STATE + ['engine']

    def count(env, v, rnd):
        put(env, 0, rnd.randint(0, 4))

    def one(env, v, rnd):
        put(env, 0, pos(v, M, rnd))

    def many(env, v, rnd):
        put(env, 0, [pos(v, M, rnd, 0 if rnd.random() < .7 else 2) for _ in range(rnd.randint(0, 4))])
    for cls in (D, A):
        ms = [('mutate', ('unsigned int',), 'mut_one', one, ST, STATE), ('mutate', (UV,), 'mut_many', many, ST, STATE),
              ('mutate_random', (), 'mut_random', count, ST, STATE),
              ('mutate_inactive', (), 'mut_inactive', count, [X, GENES, 'engine'], [X]),
              ('mutate_active', (), 'mut_active', count, ST, STATE),
              ('mutate_active_fgene', (), 'mut_fgene', count, ST, STATE),
              ('mutate_active_cgene', (), 'mut_cgene', count, ST, STATE),
              ('mutate_ogene', (), 'mut_ogene', count, ST, STATE)]
        for nm, pt, spec, fill, roles, outs in ms:
            f = M.fn(cls, nm, *([lambda t: t in ('unsigned int', 'unsigned')] if pt == ('unsigned int',) else pt), nparams=1)
            transition(M, res, 'mutation', cls, f, spec, 1, roles, outs, self_envs(M, cls, fill, 14),
                       '%s%s' % (nm, '(several)' if pt == (UV,) else ''), reject=nm == 'mutate')


def parameters(ctx, res):
    M = model(ctx)
    res.rule('parameter', 'weights and biases are read and written at the place their node and input name')
    res.rule('rejects', 'exactly the documented arguments are rejected')

    def node(env, v, rnd):
        n, rc = getv(M, D, v, 'get_n'), getv(M, D, v, 'get_r') * getv(M, D, v, 'get_c')
        put(env, 0, rnd.choice([rnd.randint(0, n + rc + 1), rnd.randint(n, n + rc - 1), n + rc, n + rc - 1, n, n - 1]))
        put(env, 1, rnd.randint(0, 3))
        put(env, 2, 7.25)

    def vecs(role):
        def go(env, v, rnd):
            put(env, 0, vec(rnd, max(0, len(getv(M, cls, v, role)) + rnd.choice([0, 0, 1, -1]))))
        return go
    for cls in (W, A):
        w = 'get_weights'
        transition(M, res, 'parameter', cls, M.fn(cls, 'set_weight', nparams=3), 'put_weight', 3, [w], [w],
                   self_envs(M, cls, node, 30), 'set_weight')
        transition(M, res, 'parameter', cls, M.fn(cls, 'get_weight', nparams=2), 'at_weight', 2, [w], [],
                   self_envs(M, cls, node, 30), 'get_weight', value=True)
        transition(M, res, 'parameter', cls, M.fn(cls, 'set_weights', nparams=1), 'new_constants', 1, [w], [w],
                   self_envs(M, cls, vecs(w), 12), 'set_weights')
    cls = A
    b = 'get_biases'
    transition(M, res, 'parameter', A, M.fn(A, 'set_biases', nparams=1), 'new_constants', 1, [b], [b],
               self_envs(M, A, vecs(b), 12), 'set_biases')

    def at(role):
        def go(env, v, rnd):
            put(env, 0, rnd.randint(0, max(0, len(getv(M, A, v, role)) - 1)))
            put(env, 1, 7.25)
        return go
    for nm, role, two in (('weight', 'get_weights', 2), ('bias', b, 2)):
        transition(M, res, 'parameter', A, M.fn(A, 'set_' + nm, nparams=2), 'put_at', 2, [role], [role],
                   self_envs(M, A, at(role), 12), 'set_%s(index)' % nm, reject=False)
        transition(M, res, 'parameter', A, M.fn(A, 'get_' + nm, nparams=1), 'get_at', 1, [role], [],
                   self_envs(M, A, at(role), 12), 'get_%s(index)' % nm, value=True, reject=False)

    def rand(env, v, rnd):
        put(env, 0, 0.5)
        put(env, 1, 2.)
        put(env, 2, 17)
    for nm, role in (('randomise_weights', 'get_weights'), ('randomise_biases', b)):
        transition(M, res, 'parameter', A, M.fn(A, nm, nparams=3), 'gaussian', 3, [role], [role],
                   self_envs(M, A, rand, 12), nm)

    def uniq(env, v, rnd):
        put(env, 0, rnd.randint(0, 1))
    transition(M, res, 'parameter', A, M.fn(A, 'n_active_weights', nparams=1), 'weights_in_use', 1, [], [],
               self_envs(M, A, uniq, 60), 'n_active_weights', value=True)
    kf = ann_fields(M)['kinds']
    names = ['sig', 'tanh', 'ReLu', 'ELU', 'ISRU', 'sum', 'sin_nu', 'cos_nu', 'gaussian_nu', 'inv_sum', 'abs', 'step', 'tan']
    for nm in names:
        r = mk('obj', 'arg', 'a0')
        st = {0: ('r', LV(mk('obj', 'str', nm)))}
        out_f(M, res, nm, kf)


def out_f(M, res, nm, kf):
    f = M.fn(A, 'set_output_f', nparams=1)
    q = mk('obj', 'arg', 'a0')
    st = St()
    st.mem[q] = mk('str', nm)
    s = M.run(f, A, given={0: ('r', LV(q))}, st=st, key=('outf', nm))
    ip = M.interp()
    o = ip.new_object('self', A)
    st = St()
    st.mem[q] = mk('str', nm)
    r = mk('obj', 'sa', 0)
    st.mem[r] = M.getter(A, 'get')
    k = mk('obj', 'sa', 1)
    st.mem[k] = mk('fld', SELF, kf)
    sp = ip.run(M.spec('output_f'), None, [('r', o), ('r', LV(q)), ('r', LV(k)), ('r', LV(r))], st)
    full = self_envs(M, A, None, 12)
    ev = regular(s, sp, full)
    inst = 'expression_ann::set_output_f(%s)' % nm
    if sp.st is None:
        if s.st is None:
            res.ok('parameter', inst, f.where(), 'always rejected')
        else:
            compare_accept(res, 'rejects', inst, f.where(), s, sp, full, inst)
        return
    compare(res, 'parameter', inst, f.where(), M.field(s, A, 'get') if s.st is not None else None, sp.ip.load(sp.st, LV(r)), ev,
            s.ip, sp.ip)
    compare_accept(res, 'rejects', inst, f.where(), s, sp, full, inst)


def construction(ctx, res):
    """what constructors reject, and the values they start from"""
    M = model(ctx)
    res.rule('ctor', 'constructors reject exactly the malformed shapes')
    res.rule('start', 'genes start uniform within their bounds and constants uniform in [-10, 10), from one generator seeded '
                      'with the given seed; constants are named c1, c2, ..')
    for cls in (D, W, A):
        for f in ctors(M, cls):
            s = M.run(f, cls, key='ctor')
            ts = f.ptypes()
            ro = ctor_roles(M, f)
            who = cls.split('::')[-1] + ('(arity per column)' if is_vec_t(ts[5]) else '(one arity)')
            b = spec_args(M, M.interp(), f)
            good = random.Random(7 + ctx.seed)
            envs = [ctor_env(M, f, good) for _ in range(12)]
            full = list(envs)
            for q in range(40):
                env = ctor_env(M, f, good)
                k = good.choice([x for x in ro if ro[x] is not None])
                t = M.argterm(ro[k], ts[ro[k]])
                if k == 'arity':
                    v = list(env[t]) if isinstance(env[t], list) else env[t]
                    if isinstance(v, list):
                        j = good.randint(0, 2)
                        if j == 0 and v:
                            v[good.randrange(len(v))] = 0
                        elif j == 1:
                            v.append(1)
                        else:
                            v.pop()
                    else:
                        v = 0
                    env[t] = v
                elif k == 'f':
                    names = [] if good.random() < .3 else good.sample(['tan', 'diff', 'tanh', 'pdiv', 'sig'], 3)
                    env[t] = M.kernels(vec_elem_t(ts[ro[k]]), names)
                else:
                    env[t] = 0
                full.append(env)
            names = ('n', 'm', 'r', 'c', 'l', 'arity')
            if cls == A:
                a = [b[x] for x in names] + [M.argterm(ro['f'], ts[ro['f']])]
                sp = run_spec(M, 'admit_ann', a)
            else:
                sp = run_spec(M, 'admit_shape', [b[x] for x in names] + [b['nf']])
            compare_accept(res, 'ctor', who, f.where(), s, sp, full, 'the constructor')
            if s.st is None:
                continue
            lb, ub = M.field(s, cls, 'get_lb'), M.field(s, cls, 'get_ub')
            ip = M.interp()
            spec_args(M, ip, f)
            st = St()
            st.facts = s.st.facts
            q = [mk('obj', 'fv', i) for i in range(4)]
            st.mem[q[0]], st.mem[q[1]] = lb, ub
            st.mem[q[2]] = fill(size(lb), ZERO)
            st.mem[q[3]] = mk('list')
            seed = M.argterm(len(ts) - 1, ts[-1])
            sp = ip.run(M.spec('first_values'), None, [('r', LV(q[0])), ('r', LV(q[1])), ('v', b['n_eph']), ('v', seed),
                                                       ('r', LV(q[2])), ('r', LV(q[3]))], st)
            compare(res, 'start', '%s: chromosome' % who, f.where(), M.field(s, cls, 'get'), sp.ip.load(sp.st, LV(q[2])), envs,
                    s.ip, sp.ip)
            compare(res, 'start', '%s: constants' % who, f.where(), M.field(s, cls, 'get_eph_val'),
                    sp.ip.load(sp.st, LV(q[3])), envs, s.ip, sp.ip)
            if cls == D:
                sn = run_spec(M, 'first_names', [b['n_eph']])
                compare(res, 'start', '%s: names of the constants' % who, f.where(), M.field(s, cls, 'get_eph_symb'), M.value(sn),
                        envs, s.ip, sn.ip)


def data_args(M, cls, kinds, n=24):
    """sample data with an occasional mistake; kinds: per parameter what it is"""
    turn = [0]

    def ex(env, v, rnd):
        n, m = vals(v, D, M)
        turn[0] += 1
        bad = turn[0] % 10
        N = rnd.choice([1, 2, 4, 6])
        pts = [vec(rnd, n) for _ in range(N)]
        lab = [vec(rnd, m, .1, 1.) for _ in range(N)]
        if bad == 0:
            pts[rnd.randrange(N)].append(1.)
        elif bad == 1:
            lab[rnd.randrange(N)].pop()
        elif bad == 2:
            pts.append(vec(rnd, n))
        elif bad == 3:
            pts, lab = [], []
        for i, k in enumerate(kinds):
            if k == 'points':
                put(env, i, pts)
            elif k == 'labels':
                put(env, i, lab)
            elif k == 'point':
                put(env, i, pts[0] if pts else [])
            elif k == 'label':
                put(env, i, lab[0] if lab else [])
            elif k == 'strs':
                put(env, i, ['x%d' % j for j in range(len(pts[0]) if pts else 0)])
            elif k == 'lr':
                put(env, i, rnd.choice([0., -1., 0., 2.]) if bad == 4 else .1)
            elif k == 'batch':
                put(env, i, rnd.choice([1, 2, 4, 5]) if bad != 5 else 0)
            elif k == 'loss':
                put(env, i, rnd.choice(['MSE', 'CE']) if bad != 6 else 'MAE')
            elif k == 'parallel':
                put(env, i, rnd.choice([0, 1, 2, 3]) if bad > 6 else 0)
            elif k == 'no':
                put(env, i, 0)
            elif k == 'g_w':
                put(env, i, [0.] * len(getv(M, A, v, 'get_weights')))
            elif k == 'g_b':
                put(env, i, [0.] * len(getv(M, A, v, 'get_biases')))
            else:
                put(env, i, 0.)
    return self_envs(M, cls, ex, n)


def invariant(M, cls, st):
    """class invariants: one name per constant; weighted expressions and networks have no constants (constructors: C05,
    setters keep lengths: C06)"""
    v, n = size(M.getter(cls, 'get_eph_val')), size(M.getter(cls, 'get_eph_symb'))
    fs = {eq(sub(n, v), ZERO)}
    if cls != D:
        fs |= {eq(v, ZERO), eq(n, ZERO)}
    st.facts = st.facts | fs
    return st


def data_checks(ctx, res):
    """what evaluators, losses and training reject"""
    M = model(ctx)
    res.rule('data', 'evaluators, losses and training reject exactly data of the wrong shape, unknown losses and indivisible batches')
    mse = enum_consts(M, 'MSE')[0]
    VV = 'vector<std::vector'

    def a(i):
        return mk('init', mk('obj', 'arg', 'a%d' % i))

    def v(i):
        return mk('arg', 'a%d' % i)
    def go(inst, cls, f, key, spec, binds, kinds, what, given=None, n=24, facts=(), loss=None):
        st = invariant(M, cls, St())
        st.facts = st.facts | frozenset(facts)
        no_correction(M, cls, st)
        if loss is not None:
            st.mem[mk('obj', 'sa', 9)] = mk('str', loss)
        s = M.run(f, cls, given=given, st=st, key=key)
        sp = on_self(M, spec, cls, binds, st=st)
        compare_accept(res, 'data', inst, f.where(), s, sp, data_args(M, cls, kinds, n), what)
    for cls in (D, W, A):
        for pt, kd in ((NV, 'point'), (SV, 'strs')):
            go('%s: %s' % (short(cls), 'evaluation' if pt == NV else 'symbolic evaluation'), cls, M.fn(cls, 'operator()', pt),
               ('oprej', cls), 'admit_point', [size(a(0))], [kd], 'evaluation')
        go('%s: loss of a sample' % short(cls), cls, M.fn(cls, 'loss', NV, NV, nparams=3), ('lossrej1', cls), 'admit_sample',
           [a(0), a(1)], ['point', 'label'], 'the loss of a sample', given={2: ('v', mse)})
        go('%s: loss of a batch' % short(cls), cls, M.fn(cls, 'loss', VV, VV, nparams=4), ('lossrej', cls), 'admit_batch',
           [a(0), a(1), a(2), v(3)], ['points', 'labels', 'loss', 'parallel'], 'the loss of a batch', n=40)
    gw, gb = size(M.getter(A, 'get_weights')), size(M.getter(A, 'get_biases'))
    go('gradient of a sample', A, M.fn(A, 'd_loss', 'double &', NV, NV, NV, NV, nparams=6), ('dlossrej',), 'admit_sample',
       [a(3), a(4)], ['', 'g_w', 'g_b', 'point', 'label'], 'the gradient of a sample', given={5: ('v', mse)},
       facts=[eq(sub(size(a(1)), gw), ZERO), eq(sub(size(a(2)), gb), ZERO)])
    go('gradient of a batch', A, M.fn(A, 'd_loss', VV, VV, nparams=4), ('bgradrej',), 'admit_batch',
       [a(0), a(1), ('r', LV(mk('obj', 'sa', 9))), v(3)], ['points', 'labels', '', 'parallel'], 'the gradient of a batch',
       given={2: ('v', mse)}, n=40, loss='MSE')
    go('one epoch of training', A, M.fn(A, 'sgd', VV, VV, nparams=7), ('sgdrej',), 'admit_epoch',
       [a(0), a(1), v(2), v(3), a(4), v(5)], ['points', 'labels', 'lr', 'batch', 'loss', 'parallel'], 'sgd',
       given={6: ('v', ZERO)}, n=60)


def pairing(ctx, res):
    """shuffling keeps every sample with its label"""
    M = model(ctx)
    res.rule('pairing', 'shuffling permutes samples and labels alike')
    VV = 'vector<std::vector'
    f = M.fn(A, 'sgd', VV, VV, nparams=7)
    st = St()
    r = mk('obj', 'arg', 'a4')
    st.mem[r] = mk('str', 'MSE')
    s = M.run(f, A, given={4: ('r', LV(r)), 5: ('v', ZERO), 6: ('v', ONE)}, st=st, key=('sgdshuf',))
    x, y = byref(M, s, 0), byref(M, s, 1)
    inst = 'one epoch of training'

    def shape(t):
        return t.args[1:] if t.op == 'perm' else None
    if x.op != 'perm' or y.op != 'perm':
        res.undecided('pairing', inst, f.where(), 'not a permutation of the data')
        return
    base = {q for q in syms(x.args[0])}
    px, py = (x.args[1], x.args[2], x.args[3]), (y.args[1], y.args[2], y.args[3])
    n = (x.args[3], y.args[3])
    same_state = px[0] is py[0]
    facts = s.st.facts
    same_len = s.ip.pr.prove(eq(sub(x.args[3], y.args[3]), ZERO), facts) is True and x.args[2] is y.args[2]
    if same_state and same_len:
        res.ok('pairing', inst, f.where(), 'samples and labels permuted from the same generator state over the same range')
    else:
        res.bad('pairing', inst, f.where(), 'samples are permuted by %s and labels by %s' % (show(x, 5)[:120], show(y, 5)[:120]))
