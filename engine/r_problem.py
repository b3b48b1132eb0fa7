"""The symbolic regression problem, against what the expressions it is built from compute."""
from r_chrom import *

SR = 'dcgp::symbolic_regression'
SRN = ('points', 'labels', 'r', 'c', 'l', 'arity', 'f', 'n_eph', 'mo', 'batches', 'loss', 'seed')


def sr_model(ctx):
    m = ctx.memo.get('sr')
    if m is None:
        m = ctx.memo['sr'] = Model(ctx, 'sr')
    return m


def bounds_py(n, m, r, c, l, arity, n_f):
    lb, ub = [], []
    for i in range(c):
        for j in range(r):
            lb.append(0)
            ub.append(n_f - 1)
            for a in range(arity):
                lb.append(n + r * (i - l) if i >= l else 0)
                ub.append(n + i * r - 1)
    for i in range(m):
        lb.append(n + r * (c - l) if l <= c else 0)
        ub.append(n + r * c - 1)
    return lb, ub


def sr_env(M, f, rnd, names=('sum', 'diff', 'mul', 'pdiv'), mo=None, batches=(0,), loss=('MSE', 'CE'), two=False, order=2):
    """documented arguments of the problem, a chromosome for it, and further points"""
    n, m, r, c = rnd.randint(1, 3), rnd.randint(1, 2), rnd.randint(1, 2), rnd.randint(1, 3)
    l, ar, e, N = rnd.randint(1, c + 1), rnd.randint(2, 3), rnd.randint(0, 2), rnd.choice([1, 2, 3, 4, 5, 6])
    ks = rnd.sample(list(names), rnd.randint(1, len(names)))
    P = [vec(rnd, n, .2, 2.) for _ in range(N)]
    Lb = [vec(rnd, m, .1, 1.) for _ in range(N)]
    lb, ub = bounds_py(n + e, m, r, c, l, ar, len(ks))
    x = vec(rnd, e, -2., 2.) + [float(rnd.randint(a, b)) for a, b in zip(lb, ub)]
    v = [P, Lb, r, c, l, ar, M.kernels('dcgp::kernel<double>', ks), e, rnd.randint(0, 1) if mo is None else mo,
         rnd.choice(batches), rnd.choice(loss), rnd.randint(0, 99), x]
    env = {'salt': rnd.random(), 'veclen': N, 'order': order}
    ts = f.ptypes()
    for i, t in enumerate(ts):
        if i < len(v):
            env[M.argterm(i, t)] = v[i]
    if two:
        q = rnd.randint(0, 4)
        other = vec(rnd, e, -2., 2.) + [float(rnd.randint(a, b)) for a, b in zip(lb, ub)]
        y = list(x) if q == 0 else x[:e] + other[e:] if q == 1 else other[:e] + x[e:] if q == 2 else other
        if q == 3:
            y = list(x)
            k = rnd.randrange(len(x))
            y[k] = other[k]
        env[M.argterm(13, ts[13])] = y
    elif len(ts) > 13:
        env[M.argterm(13, ts[13])] = [vec(rnd, n, .2, 2.) for _ in range(rnd.choice([N, rnd.randint(0, 4)]))] if ts[13].count('vector') > 1 else vec(rnd, n, .2, 2.)
    return env


def probe_pair(M, res, rule, nm, inst, where, rnd, what=None, n=30, at=(12,), **kw):
    """probe and reference of the same name over the same arguments"""
    pf, rf = M.spec('probe_' + nm), M.spec('ref_' + nm)
    s, q = M.run(pf, key='p', st=valid(M, pf, at)), M.run(rf, key='p', st=valid(M, rf, at))
    if s.st is None:
        res.bad(rule, inst, where, '%s: no normal return' % inst)
        return None
    envs = [sr_env(M, pf, rnd, **kw) for _ in range(n)]
    return compare(res, rule, inst, where, M.value(s), M.value(q), envs, s.ip, q.ip, what or inst)


def valid(M, f, at=(12,)):
    """a decision vector has the constants and at least one output gene"""
    st = St()
    ts = f.ptypes()
    for i in at:
        if len(ts) > i:
            st.facts = frozenset(st.facts) | {ige(sub(sub(size(M.argterm(i, ts[i])), M.argterm(7, ts[7])), ONE))}
    return st


def member(M, name, nparams=None):
    return M.fn(SR, name, nparams=nparams).where()


def meaning_sr(ctx, res):
    M = sr_model(ctx)
    rnd = random.Random(21)
    res.rule('model', 'a decision vector is the constants followed by the chromosome of the model it stands for')
    res.rule('fitness', 'the fitness is the loss of that model on the data, and its number of active genes')
    res.rule('prediction', 'predictions are the values of that model')
    res.rule('formula', 'the printed formula is the one of that model')
    probe_pair(M, res, 'model', 'cgp', 'genes of the model', member(M, 'set_cgp'), rnd)
    probe_pair(M, res, 'model', 'eph', 'constants of the model', member(M, 'set_cgp'), rnd)
    probe_pair(M, res, 'fitness', 'fitness', 'fitness', member(M, 'fitness'), rnd)
    probe_pair(M, res, 'prediction', 'predict', 'prediction for one point', member(M, 'predict'), rnd)
    probe_pair(M, res, 'prediction', 'predicts', 'predictions for several points', member(M, 'predict'), rnd)
    probe_pair(M, res, 'formula', 'pretty', 'formula', member(M, 'pretty'), rnd)
    probe_pair(M, res, 'formula', 'prettier', 'simplified formula', member(M, 'prettier'), rnd)


def shape(ctx, res):
    M = sr_model(ctx)
    rnd = random.Random(22)
    res.rule('bounds', 'the bounds are -10 and 10 for each constant, then the bounds of the genes')
    res.rule('dimensions', 'the integer part is as long as the chromosome; one objective, two with the complexity')
    probe_pair(M, res, 'bounds', 'lb', 'lower bounds', member(M, 'get_bounds'), rnd)
    probe_pair(M, res, 'bounds', 'ub', 'upper bounds', member(M, 'get_bounds'), rnd)
    probe_pair(M, res, 'dimensions', 'nix', 'integer dimension', member(M, 'get_nix'), rnd)
    probe_pair(M, res, 'dimensions', 'nobj', 'number of objectives', member(M, 'get_nobj'), rnd)


def derivatives(ctx, res):
    M = sr_model(ctx)
    rnd = random.Random(23)
    res.rule('gradient', 'component i of the gradient is the mean over the data of the derivative by constant i')
    res.rule('hessian', 'and so for the hessian, lower triangle row by row; the complexity has one zero entry')
    res.rule('pattern', 'sparsity patterns list every constant, every pair of constants of the lower triangle')
    probe_pair(M, res, 'gradient', 'gradient', 'gradient', member(M, 'gradient'), rnd, order=1)
    probe_pair(M, res, 'hessian', 'hessians', 'hessian', member(M, 'hessians'), rnd)
    probe_pair(M, res, 'pattern', 'gradient_sparsity', 'pattern of the gradient', member(M, 'gradient_sparsity'), rnd)
    probe_pair(M, res, 'pattern', 'hessian_sparsity', 'pattern of the hessian', member(M, 'hessians_sparsity'), rnd)
    probe_pair(M, res, 'pattern', 'hessian_count', 'number of hessians', member(M, 'hessians_sparsity'), rnd)


def histories(ctx, res):
    M = sr_model(ctx)
    rnd = random.Random(24)
    res.rule('history', 'what was computed before does not change what is returned')
    probe_pair(M, res, 'history', 'after_predict', 'fitness after other calls', member(M, 'fitness'), rnd, at=(12, 13), two=True)
    probe_pair(M, res, 'history', 'after_other', 'fitness after derivatives', member(M, 'fitness'), rnd, at=(12, 13), two=True)
    probe_pair(M, res, 'history', 'gradient_after', 'gradient after other calls', member(M, 'gradient'), rnd, at=(12, 13), two=True)


def safety(ctx, res):
    M = sr_model(ctx)
    rnd = random.Random(25)
    res.rule('safety', 'the problem is as thread safe as its least safe kernel')
    probe_pair(M, res, 'safety', 'safety', 'thread safety', member(M, 'get_thread_safety'), rnd)
    res.rule('kernel', 'a kernel is as thread safe as the less safe of its two functions')
    for pf in [f for f in M.p.fns.values() if f.qual == 'vspec::probe_kernel_safety' and f.body is not None]:
        T_ = (pf.d.get('targs') or '')
        rf = next((f for f in M.p.fns.values() if f.qual == 'vspec::ref_kernel_safety' and f.body is not None
                   and f.d.get('targs') == pf.d.get('targs')), None)
        if rf is None:
            continue
        s, q = M.run(pf), M.run(rf)
        cls = next((c for c in M.p.records if c.startswith('dcgp::kernel<')), 'dcgp::kernel<double>')
        envs = []
        for i in range(9):
            env = {'salt': i}
            for j in (0, 1):
                put(env, j, {'m_thread_safety': (i // 3, i % 3)[j]})
            envs.append(env)
        compare(res, 'kernel', 'kernel%s' % T_.replace('audi::', ''), M.fn(cls, 'get_thread_safety').where(), M.value(s), M.value(q),
                envs, s.ip, q.ip, 'thread safety of a kernel')


def building(ctx, res):
    M = sr_model(ctx)
    rnd = random.Random(26)
    res.rule('problem', 'malformed data and shapes are rejected, and only those')
    pf, rf = M.spec('probe_build'), M.spec('ref_build')
    s, q = M.run(pf, key='p'), M.run(rf, key='p')
    envs = []
    for i in range(60):
        env = sr_env(M, pf, rnd)
        at = [M.argterm(j, t) for j, t in enumerate(pf.ptypes())]
        for _ in range(rnd.randint(0, 2)):
            k = rnd.randint(0, 9)
            P, Lb = [list(x) for x in env[at[0]]], [list(x) for x in env[at[1]]]
            if k == 0:
                P, Lb = [], rnd.choice([[], Lb])
            elif k == 1:
                Lb = Lb[:-1] if rnd.random() < .5 else []
            elif k == 2 and P:
                j = rnd.randrange(len(P))
                P[j] = P[j] + [1.]
            elif k == 3 and Lb:
                j = rnd.randrange(len(Lb))
                Lb[j] = Lb[j] + [1.]
            elif k in (4, 5, 6):
                env[at[k - 2]] = 0
            elif k == 7:
                env[at[5]] = rnd.randint(0, 2)
            elif k == 8:
                env[at[6]] = []
            else:
                env[at[10]] = rnd.choice(['mse', 'XX', ''])
            env[at[0]], env[at[1]] = P, Lb
        envs.append(env)
    compare_accept(res, 'problem', 'regression problem', member(M, 'fitness'), s, q, envs, 'the constructor')
