"""The five algorithms: one run of each against its reference definition, and what must hold of every run."""
import math
import time
from r_chrom import *
import r_state

ALGO = {'es4cgp': 1, 'moes4cgp': 2, 'mes4cgp': 1, 'momes4cgp': 2, 'gd4cgp': 1}


def algo_model(ctx):
    m = ctx.memo.get('algo')
    if m is None:
        m = ctx.memo['algo'] = Model(ctx, 'algo')
    m.tier = ctx.tier
    return m


# ------------------------------------------------------------------------------------ an interpretation of the problem
def better(a, b):
    return a < b


def mat(v):
    if isinstance(v, dict) and '#m' in v:
        return v
    raise NoValue('matrix')


def mk_mat(r, c, f):
    return {'#m': (r, c), **{(i, j): f(i, j) for i in range(r) for j in range(c)}}


def lu_pivots(M):
    """diagonal of U of the LU decomposition with full pivoting"""
    n = M['#m'][0]
    A = [[M[(i, j)] for j in range(n)] for i in range(n)]
    d = []
    for k in range(n):
        p = max(((abs(A[i][j]), -i, -j) for i in range(k, n) for j in range(k, n)))
        i, j = -p[1], -p[2]
        A[k], A[i] = A[i], A[k]
        for row in A:
            row[k], row[j] = row[j], row[k]
        d.append(A[k][k])
        if abs(A[k][k]) < 1e-9:
            return d + [0.] * (n - len(d))
        for r in range(k + 1, n):
            q = A[r][k] / A[k][k]
            for c in range(k, n):
                A[r][c] -= q * A[k][c]
    return d


def inverse(M):
    n = M['#m'][0]
    A = [[M[(i, j)] for j in range(n)] + [1. if i == j else 0. for j in range(n)] for i in range(n)]
    for k in range(n):
        p = max(range(k, n), key=lambda r: abs(A[r][k]))
        if abs(A[p][k]) < 1e-12:
            raise Ill()
        A[k], A[p] = A[p], A[k]
        q = A[k][k]
        A[k] = [x / q for x in A[k]]
        for r in range(n):
            if r != k:
                q = A[r][k]
                A[r] = [x - q * y for x, y in zip(A[r], A[k])]
    return mk_mat(n, n, lambda i, j: A[i][n + j])


def problem_apps(env, nobj, e, dim, flat, zero, levels=False, rough=False):
    """an arbitrary but fixed problem: what its members return, as functions of the decision vector"""
    def fitness(V, vs):
        x = vs[-1]
        f = [3. + V.smooth('f0', [x])]
        if rough:                       # short steps and long ones do not agree
            f[0] += 2 * math.sin(17 * sum(x[:e]))
        if levels:
            f[0] = round(f[0])
        for k in range(1, nobj):
            f.append(float(int(8 + 4 * V.smooth('f%d' % k, [x]))))
        return f

    def bfe(V, vs):
        dv = vs[-1]
        if not isinstance(dv, list) or len(dv) % dim:
            raise Ill()
        return [y for i in range(0, len(dv), dim) for y in fitness(V, [dv[i:i + dim]])]

    def gradient(V, vs):
        return [0. if math.sin(3 * V.smooth('gz%d' % j, [vs[-1]]) + 1) > zero else V.smooth('g%d' % j, [vs[-1]]) for j in range(e)]

    def hessians(V, vs):
        h = []
        for j in range(e):
            for k in range(j + 1):
                h.append(V.smooth('h%d.%d' % (j, k), [vs[-1]]) + (flat if j == k else 0.))
        return [h] + [[0.]] * (nobj - 1)

    def less(V, vs):
        return vs[0] < vs[1]

    def greater(V, vs):
        return vs[0] > vs[1]

    def key(f):
        return f[0] if isinstance(f, list) else f

    def best(V, vs):
        return min(range(len(vs[-1])), key=lambda i: key(vs[-1][i]))

    def worst(V, vs):
        return max(range(len(vs[-1])), key=lambda i: key(vs[-1][i]))

    def select_mo(V, vs):
        F, N = vs
        return sorted(range(len(F)), key=lambda i: (F[i][0] + .3 * sum(F[i][1:]), i))[:int(N)]

    def ideal(V, vs):
        return [min(f[k] for f in vs[0]) for k in range(nobj)]

    def all_(V, vs):
        return True

    a = {'fitness': fitness, 'bfe': bfe, 'gradient': gradient, 'hessians': hessians, 'less_than_f': less,
         'greater_than_f': greater, 'best_idx': best, 'worst_idx': worst, 'select_idx': best, 'replace_idx': best,
         'select_best_N_mo': select_mo, 'ideal': ideal,
         'Eigen::DenseBase::Zero': lambda V, vs: mk_mat(int(vs[-2]), int(vs[-1]), lambda i, j: 0.),
         'Eigen::MatrixBase::array': lambda V, vs: vs[0],
         'after Eigen::MatrixBase::array': lambda V, vs: vs[0],
         'Eigen::ArrayBase::isFinite': lambda V, vs: ('finite', vs[0]),
         'after Eigen::FullPivLU::compute': lambda V, vs: {'lu': mat(vs[-1])},
         'Eigen::FullPivLU::matrixLU': lambda V, vs: {'diag': lu_pivots(vs[0]['lu'])},
         'Eigen::MatrixBase::diagonal': lambda V, vs: vs[0]['diag'],
         'Eigen::FullPivLU::isInvertible': lambda V, vs: all(abs(d) > 1e-9 for d in lu_pivots(vs[0]['lu'])),
         'Eigen::FullPivLU::inverse': lambda V, vs: inverse(vs[0]['lu'])}

    def e_all(V, vs):
        v = vs[0]
        if isinstance(v, tuple) and v[0] == 'finite':
            return True
        if isinstance(v, list):
            return all(v)
        raise NoValue('all')

    def e_mul(V, vs):
        A, Bm = mat(vs[0]), mat(vs[1])
        (r, n), (n2, c) = A['#m'], Bm['#m']
        if n != n2:
            raise Ill()
        return mk_mat(r, c, lambda i, j: sum(A[(i, k)] * Bm[(k, j)] for k in range(n)))

    def e_sub(V, vs, s=-1):
        A, Bm = mat(vs[0]), mat(vs[1])
        if A['#m'] != Bm['#m']:
            raise Ill()
        return mk_mat(*A['#m'], lambda i, j: A[(i, j)] + s * Bm[(i, j)])

    def e_coeff(V, vs, f):
        v = vs[0] if isinstance(vs[0], list) else [x for k, x in mat(vs[0]).items() if k != '#m']
        return f(v)
    a['Eigen::DenseBase::minCoeff'] = lambda V, vs: e_coeff(V, vs, min)
    a['Eigen::DenseBase::maxCoeff'] = lambda V, vs: e_coeff(V, vs, max)
    a['Eigen::SolverBase::solve'] = a['Eigen::FullPivLU::solve'] = lambda V, vs: e_mul(V, [inverse(vs[0]['lu']), vs[1]])
    a['eigen+'] = lambda V, vs: e_sub(V, vs, 1)
    a['Eigen::DenseBase::all'] = e_all
    a['eigen*'] = e_mul
    a['eigen-'] = e_sub
    return a


def algo_env(M, f, rnd, at, nobj, gens=(0, 1, 1, 2, 3)):
    """at: role -> parameter position"""
    ts = f.ptypes()
    env = {'salt': rnd.random()}
    if 'lr' in at:
        gens = (1, 2, 3, 4, 5)
    want = 0 if 'learn' in at else 1 if 'lr' in at else rnd.choice([1, 2, 3, 3])
    objs = M.objects(D, 40, 5, 3)
    eph = M.role(D, 'get_eph_val')[0]
    ex, desc = rnd.choice([o for o in objs if len(o[0][eph]) >= want] or objs)
    lb, ub = ex[M.role(D, 'get_lb')[0]], ex[M.role(D, 'get_ub')[0]]
    e = len(ex[M.role(D, 'get_eph_val')[0]])
    dim = e + len(lb)
    NP = rnd.choice([2, 2, 3, 4])
    # levels: many vectors share a fitness; raised: the individuals are worse than what a run finds
    apps = problem_apps(env, nobj, e, dim, rnd.choice([4., 4., .6, .6, 0., -4., -4.]), rnd.choice([2, 2, .3, .3]), rnd.random() < .25, 'lr' in at and rnd.random() < .7)
    raised = rnd.choice([0., 0., 3., 3., 9.])
    env['apps'] = apps
    V = Valuation(Loops(), env)
    X = [vec(rnd, e, -3., 3.) + [float(rnd.randint(a, b)) for a, b in zip(lb, ub)] for _ in range(NP)]
    F = [[y + raised for y in apps['fitness'](V, [x])] for x in X]
    lo = min(y[0] for y in F)
    val = {'gen': rnd.choice(gens), 'max_mut': rnd.randint(1, 3), 'ftol': rnd.choice([0., 0., lo, lo - .4, lo - 1.]), 'learn': rnd.randint(0, 1),
           'seed': rnd.randint(0, 99), 'lr': rnd.choice([.25, 1., 4., 4., 3.]), 'lr_min': rnd.choice([1e-3, .05, .0625, .0625, .2]), 'verb': rnd.randint(0, 3),
           'pop': {'x': X, 'f': F, 'prob': Op('problem')}}
    val['ftol'] = max(0., val['ftol'])
    for role, i in at.items():
        env[M.argterm(i, ts[i])] = val[role]
    P = fld(M.argterm(at['pop'], ts[at['pop']]), 'prob')
    sr = mk('init', mk('obj', 'pointee', mk('app', 'udp', P)))
    cg = M.fields_of_type('dcgp::symbolic_regression', lambda t: t == D)
    env[sr] = {cg[0]: ex} if len(cg) == 1 else {}
    for k in M.fields_of_type('dcgp::symbolic_regression', lambda t: t.startswith('unsigned')):
        env[sr].setdefault(k, e)
    env[mk('app', 'udp', P)] = Op('udp')
    env[mk('app', 'problem::get_ncx')] = e
    env[mk('app', 'problem::get_nobj')] = nobj
    env[mk('app', 'problem::hessians_sparsity')] = [[(j, k) for j in range(e) for k in range(j + 1)]] + [[(0, 0)]] * (nobj - 1)
    return env


AT_ES = dict(gen=0, max_mut=1, ftol=2, learn=3, seed=4, pop=5)
AT_MES = dict(gen=0, max_mut=1, ftol=2, seed=3, pop=4)
AT_GD = dict(gen=0, lr=1, lr_min=2, pop=3)
AT = {'es4cgp': AT_ES, 'moes4cgp': AT_ES, 'mes4cgp': AT_MES, 'momes4cgp': AT_MES, 'gd4cgp': AT_GD}


def run_pair(M, res, rule, alg, inst, rnd, pnm=None, rnm=None, at=None, n=320, what=None, part=None, stored=None):
    pf, rf = M.spec(pnm or 'probe_' + alg), M.spec(rnm or 'ref_' + alg)
    s = M.run(pf, key='p')
    where = M.fn('dcgp::' + alg, 'evolve').where()
    if s.st is None:
        res.bad(rule, inst, where, '%s: no normal return' % inst)
        return None
    # the same definition on the storage the library uses: equality with it proves the run; the sample points are
    # then needed only where that fails (and in the thorough tier, which relates the two spellings of the definition)
    stored = M.run(M.spec(stored), key='p') if stored else None
    q, drawn = None, []

    def envs():
        deep = M.tier == 'thorough'
        t, limit = time.time(), 180 if deep else 100
        for i in range(3 * n if deep else n):
            if len(drawn) <= i:
                drawn.append(algo_env(M, pf, rnd, at or AT[alg], ALGO[alg]))
            yield drawn[i]
            if time.time() - t > limit:
                return
    a = M.value(s)
    for k in part or ('x', 'f'):
        nm = {'x': 'decision vectors', 'f': 'fitness'}[k]
        if stored is not None and equiv.same(fld(a, k), fld(M.value(stored), k), s.ip, stored.ip):
            res.ok(rule, '%s: %s' % (inst, nm), where, 'equal normal forms')
            if M.tier != 'thorough':
                continue
        if q is None:
            q = M.run(rf, key='p')
            b = M.value(q)
        compare(res, rule, '%s: %s' % (inst, nm), where, fld(a, k), fld(b, k), envs, s.ip, q.ip, what or '%s of the returned population (%s)' % (nm, alg))


def evolution(alg):
    def rule(ctx, res):
        M = algo_model(ctx)
        res.rule('run', 'one run of %s returns the population its definition gives' % alg)
        idle(M, res, alg)
        run_pair(M, res, 'run', alg, alg, random.Random(31), stored=None if alg == 'gd4cgp' else 'flat_' + alg)
        if alg in ('es4cgp', 'moes4cgp'):
            run_pair(M, res, 'run', alg, alg + ' in batch', random.Random(33), 'probe_batch_' + alg, 'ref_batch_' + alg, stored='flat_batch_' + alg)
    rule.__name__ = 'evolution of ' + alg
    return rule


# ----------------------------------------------------------------------------------- rejected settings and populations
def from_expression(t):
    return any(str(x).startswith('dcgp::expression') for x in t[3])


class Filtered:
    """a summary without the throws of the expression: those do not occur for populations of the problem"""

    def __init__(self, s):
        self.s = s
        self.throws = [t for t in s.throws if not from_expression(t)]

    def __getattr__(self, k):
        return getattr(self.s, k)


def reject_env(M, f, rnd, at, nobj):
    env = algo_env(M, f, rnd, at, nobj, gens=(0, 0, 1))
    ts = f.ptypes()

    def put_(role, v):
        if role in at:
            env[M.argterm(at[role], ts[at[role]])] = v
    what = rnd.choice((2, 3, 4, 5, 5, 5, 6, 6) if 'lr' in at else (0, 1, 2, 3, 4, 7))
    pop = env[M.argterm(at['pop'], ts[at['pop']])]
    if what == 0:
        put_('max_mut', 0)
    elif what == 1:
        put_('ftol', rnd.choice([-1e-6, -.5, 0.]))
    elif what == 2:
        P = fld(M.argterm(at['pop'], ts[at['pop']]), 'prob')
        env[mk('app', 'udp', P)] = None
    elif what == 3:
        n = rnd.randint(0, 2)
        pop['x'], pop['f'] = pop['x'][:n], pop['f'][:n]
    elif what == 4:
        env[mk('app', 'problem::get_nobj')] = rnd.randint(1, 3)
    elif what == 5:
        put_('lr_min', rnd.choice([0., -.1, .2, .5, .5]))
        put_('lr', rnd.choice([0., .2, .5, .5]))
    elif what == 6:
        n = rnd.randint(0, 2)
        sr = [k for k in env if isinstance(k, T) and k.op == 'init']
        for k in sr:
            if isinstance(env[k], dict):
                for c in list(env[k]):
                    if isinstance(env[k][c], dict):
                        env[k][c] = dict(env[k][c])
                        for r in M.role(D, 'get_eph_val'):
                            env[k][c][r] = [.5 * j for j in range(n)]
    return env


def rejections(ctx, res):
    M = algo_model(ctx)
    rnd = random.Random(77)
    res.rule('rejects', 'an algorithm can be built, and run, on exactly the settings and populations it is made for')
    for alg in ALGO:
        for kind in ('idle_', ''):
            pf, rf = M.spec('probe_%s%s' % (kind, alg)), M.spec('ref_%s%s' % (kind, alg))
            s, q = M.run(pf, key='p'), M.run(rf, key='p')
            at = dict(AT[alg])
            if kind:
                g = at.pop('gen')
                at = {k: i - (i > g) for k, i in at.items()}
            envs = [reject_env(M, pf, rnd, at, ALGO[alg]) for _ in range(60)]
            compare_accept(res, 'rejects', '%s, %s' % (alg, 'no generations' if kind else 'any number of generations'),
                           M.fn('dcgp::' + alg, 'evolve').where(), Filtered(s), Filtered(q), envs, alg)


def idle(M, res, alg):
    res.rule('idle', 'with no generations to run, the population is returned as it is')
    pf = M.spec('probe_idle_' + alg)
    s = M.run(pf, key='p')
    where = M.fn('dcgp::' + alg, 'evolve').where()
    i = AT[alg]['pop'] - 1
    p = M.argterm(i, pf.ptypes()[i])
    for k in ('x', 'f'):
        v = fld(M.value(s), k)
        if v is fld(p, k):
            res.ok('idle', '%s: %s' % (alg, k), where, 'equal normal forms')
        else:
            at = {r: j - (j > AT[alg]['gen']) for r, j in AT[alg].items() if r != 'gen'}
            rnd = random.Random(5)
            compare(res, 'idle', '%s: %s' % (alg, k), where, v, fld(p, k),
                    [algo_env(M, pf, rnd, at, ALGO[alg]) for _ in range(12)], s.ip, s.ip,
                    'the population after no generations of ' + alg)


# ------------------------------------------------------------------------------------------------------------- reports
def counting(p):
    ip = Interp(p)
    ip.count_evals = True
    ip.opaque = set(ip.opaque) | {'dcgp::symbolic_regression::prettier', 'dcgp::symbolic_regression::pretty'}
    return ip


def again(M, alg, built, pf):
    """a run of an algorithm as constructed, except that its log holds anything and its level is that of the last parameter"""
    cls = 'dcgp::' + alg
    log, level = M.role(cls, 'get_log'), M.role(cls, 'get_verbosity')
    if not log or not level or len(log) != 1 or len(level) != 1 or built is None:
        return None
    ts = pf.ptypes()

    def prep(ip, st):
        st.mem[mk('obj', 'self')] = upd(upd(built, log[0], mk('arg', 'old log')), level[0], M.argterm(len(ts) - 1, ts[-1]))
    f = M.fn(cls, 'evolve')
    i = AT[alg]['pop']
    return M.run(f, cls, given={0: ('v', M.argterm(i, ts[i]))}, prep=prep)


def logs(ctx, res):
    M = algo_model(ctx)
    res.rule('log', 'the log has a line every so many generations and one for the end, with what it was there and then')
    for alg in ALGO:
        where = M.fn('dcgp::' + alg, 'evolve').where()
        pf = M.spec('probe_log_' + alg)
        try:
            M.interp = lambda: counting(M.p)
            s, q = M.run(pf, key='log'), M.run(M.spec('flat_log_' + alg), key='log')
            b = M.run(M.spec('probe_built_' + alg), key='log')
            r = again(M, alg, M.value(b), pf)
        finally:
            del M.interp
        rnd = random.Random(41)
        drawn = []

        def envs():
            t = time.time()
            for i in range(240):
                if len(drawn) <= i:
                    env = algo_env(M, pf, rnd, AT[alg], ALGO[alg])
                    put(env, len(pf.params) - 1, rnd.choice([0, 1, 1, 2, 3]))
                    env[mk('arg', 'old log')] = [{'get%d' % j: Op('line', j) for j in range(6)}] * rnd.randint(1, 3)
                    env[mk('init', mk('obj', 'evaluations'))] = {k: rnd.randint(3, 90) for k in 'fgh'}
                    env['apps']['nadir'] = lambda V, vs: [max(f[k] for f in vs[0]) for k in range(len(vs[0][0]))]
                    env['apps']['non_dominated_front_2d'] = front
                    for k in ('pretty', 'prettier'):
                        env['apps']['dcgp::symbolic_regression::' + k] = lambda V, vs, k=k: k + str([round(y, 6) for y in vs[-1]])
                    drawn.append(env)
                yield drawn[i]
                if time.time() - t > 90:
                    return
        compare(res, 'log', alg, where, M.value(s), M.value(q), envs, s.ip, q.ip, 'the log of ' + alg)
        # a run that does anything starts its own log, whatever the log of the algorithm held
        n = M.argterm(AT[alg]['gen'], 'unsigned int')
        some = {eq(n, ZERO): FALSE}
        if r is None or r.st is None:
            res.undecided('log', alg + ' run again', where, 'no normal return')
            continue
        compare(res, 'log', alg + ' run again', where, subst(fld(r.ip.load(r.st, r.this), M.role('dcgp::' + alg, 'get_log')[0]), some),
                subst(M.value(q), some), lambda: (e for e in envs() if e[n]), r.ip, q.ip, 'the log of a second run of ' + alg)


def front(V, vs):
    F = vs[0]
    return [i for i, f in enumerate(F) if not any(all(a <= b for a, b in zip(g, f)) and g != f for g in F)]


# -------------------------------------------------------------------------------------------------- verbosity, seeds
def prints(e):
    if e.kind == 'print':
        return True
    if e.kind == 'stream':
        lv = e.data[0]
        r = lv.args[0] if isinstance(lv, T) and lv.op == 'lv' else None
        return r is not None and r.op == 'glob'
    return False


def verbosity(ctx, res):
    M = algo_model(ctx)
    res.rule('silent', 'at verbosity 0 nothing is printed and nothing is logged')
    res.rule('same', 'the verbosity does not change the population that is returned')
    res.rule('level', 'the level that was set is the level that is returned')
    for alg in ALGO:
        where = M.fn('dcgp::' + alg, 'evolve').where()
        for nm, what in (('probe_' + alg, 'by default'), ('probe_hushed_' + alg, 'when set')):
            s = M.run(M.spec(nm), key='p')
            ev = [e for e in s.events if prints(e)]
            if ev:
                res.bad('silent', '%s %s' % (alg, what), ev[0].where, 'prints at verbosity 0')
            else:
                res.ok('silent', '%s %s' % (alg, what), where, 'no path prints, %d events' % len(s.events))
        pf = M.spec('probe_quietlog_' + alg)
        a, b = M.run(pf, key='p'), M.run(M.spec('ref_quietlog_' + alg), key='p')
        rnd = random.Random(9)
        compare(res, 'silent', '%s: log' % alg, where, M.value(a), M.value(b),
                [algo_env(M, pf, rnd, AT[alg], ALGO[alg]) for _ in range(12)], a.ip, b.ip, 'the log of %s at verbosity 0' % alg)
        pf = M.spec('probe_loud_' + alg)
        a, b = M.run(pf, key='p'), M.run(M.spec('probe_' + alg), key='p')
        n = len(pf.params) - 1
        envs = []
        for i in range(24):
            env = algo_env(M, pf, rnd, AT[alg], ALGO[alg])
            put(env, n, rnd.randint(0, 3))
            envs.append(env)
        silent = {(e.where, e.data[0]) for e in b.events if e.kind == 'draw'}
        extra = [e for e in a.events if e.kind == 'draw' and (e.where, e.data[0]) not in silent]
        if extra:
            res.bad('same', '%s: random numbers' % alg, extra[0].where, 'the random numbers of a run are drawn, skipped or reset when it reports and not when it does not')
        else:
            res.ok('same', '%s: random numbers' % alg, where, '%d draws, the same in both' % len(silent))
        for k in ('x', 'f'):
            compare(res, 'same', '%s: %s' % (alg, k), where, fld(M.value(a), k), fld(M.value(b), k), envs, a.ip, b.ip,
                    'the population %s returns when it reports' % alg)
        s, q = M.run(M.spec('probe_level_' + alg), key='p'), M.run(M.spec('ref_level_' + alg), key='p')
        compare(res, 'level', alg, where, M.value(s), M.value(q), [], s.ip, q.ip, 'verbosity of ' + alg)


def seeded_again(M, res, alg, sf, own):
    """whatever state the algorithm was in, its generator is the one of the seed and nothing but the seed changes"""
    cls = 'dcgp::' + alg
    b = M.run(M.spec('probe_built_' + alg), key='p')
    s = M.run(sf, cls, key='set_seed')
    if s.st is None or len(own) != 1:
        res.undecided('seed', '%s: after any run' % alg, sf.where(), 'no normal return')
        return
    i = [j for j, t in enumerate(M.spec('probe_built_' + alg).ptypes()) if t.startswith('unsigned')][-1]
    j = 0
    want = subst(fld(M.value(b), own[0]), {M.argterm(i, 'unsigned int'): M.argterm(j, 'unsigned int')})
    new = s.ip.load(s.st, s.this)
    rnd = random.Random(8)
    old = mk('init', mk('obj', 'self'))
    envs = []
    for n in range(12):
        r = rnd.randint(1, 5)
        o = {k: Op(k, 1) for k in M.fields_of_type(cls, lambda t: True)}
        for k in M.fields_of_type(cls, lambda t: t.startswith('unsigned')):
            o[k] = r
        env = {old: o}
        put(env, j, r if n % 2 else r + 1)
        envs.append(env)
    compare(res, 'seed', '%s: generator after any run' % alg, sf.where(), fld(new, own[0]), want, envs, s.ip, b.ip,
            'the generator of %s, seeded again after a run,' % alg)


def kept(M, cls):
    """function-local statics of the algorithm that a run changes, or that the first run initialises for all others"""
    out = []
    for f in M.p.fns.values():
        if f.body is None or not f.qual.startswith(cls + '::'):
            continue
        for n in walk(f.body):
            if n.get('k') != 'Decl':
                continue
            for v in n['v']:
                if not v.get('static') or v.get('constexpr'):
                    continue
                t = M.p.ty(v)
                dyn = v.get('init') is not None and any(x.get('k') == 'This' or (x.get('k') == 'Ref' and x.get('rk') in ('param', 'var'))
                                                        for x in walk(v['init']))
                if dyn or (not t.startswith('const ') and any(r_state.is_write_to(x, v['id'], M.p) for x in walk(f.body))):
                    out.append((f.where(n), v['name']))
    return out


def seeds(ctx, res):
    M = algo_model(ctx)
    res.rule('seed', 'seeding again leaves an algorithm as if built with that seed, and that seed is returned')
    res.rule('source', 'every random number of a run comes from the generator of the algorithm or that of its copy of the expression')
    res.rule('history', 'what earlier runs left behind, other than the state of the generator, does not enter the returned population')
    rnd = random.Random(3)
    for alg in ALGO:
        cls = 'dcgp::' + alg
        f = M.fn(cls, 'evolve')
        where = f.where()
        own = M.fields_of_type(cls, lambda t: 'linear_congruential' in t or 'mersenne' in t or 'random_engine' in t)
        if alg != 'gd4cgp':
            sf = M.fn(cls, 'set_seed')
            seeded_again(M, res, alg, sf, own)
            pa, pb = M.spec('probe_reseeded_' + alg), M.spec('probe_built_' + alg)
            a, b = M.run(pa, key='p'), M.run(pb, key='p')
            envs = []
            for i in range(12):
                env = {}
                ts = pa.ptypes()
                for j, t in enumerate(ts):
                    env[M.argterm(j, t)] = rnd.random() if 'double' in t else rnd.randint(1, 9)
                envs.append(env)
            va, vb = M.value(a), M.value(b)
            for k in sorted(x for x, _ in va.args[1]) if va is not None and va.op == 'rec' else []:
                compare(res, 'seed', '%s: %s' % (alg, k), sf.where(), fld(va, k), fld(vb, k), envs, a.ip, b.ip,
                        '%s after seeding again' % alg)
            for nm in ('seed_', 'seed2_'):
                pa = M.spec('probe_%s%s' % (nm, alg))
                a, b = M.run(pa, key='p'), M.run(M.spec('ref_seed_' + alg), key='p')
                compare(res, 'seed', '%s: get_seed (%s)' % (alg, nm[:-1]), sf.where(), M.value(a), M.value(b), envs, a.ip, b.ip,
                        'the seed %s returns' % alg)
        s = M.run(f, cls, key='run')
        bad = n = 0
        for e in s.events:
            if e.kind != 'draw':
                continue
            n += 1
            lv = e.data[1]
            if lv is None:
                res.bad('source', '%s: %s' % (alg, e.data[0]), e.where, 'a run draws from a source that no seed controls (%s)' % e.data[0])
                bad += 1
                continue
            root = lv.args[0] if isinstance(lv, T) and lv.op == 'lv' else None
            if root is None:
                continue
            if root.op == 'glob':
                res.bad('source', '%s: %s' % (alg, e.data[0]), e.where, 'a run draws from a global generator')
                bad += 1
            elif root is mk('obj', 'self') and lv.args[1] and lv.args[1][0][1] not in own:
                res.undecided('source', '%s: %s' % (alg, e.data[0]), e.where, 'draws from %s' % show(lv, 4))
                bad += 1
        if not bad:
            res.ok('source', alg, where, '%d draws' % n)
        v = M.value(s)
        if v is None:
            res.undecided('history', alg, where, 'no value')
            continue
        SELF_ = mk('init', mk('obj', 'self'))
        changed = [k for k in M.fields_of_type(cls, lambda t: True) if fld(s.ip.load(s.st, s.this), k) is not fld(SELF_, k)]
        read = {x.args[1] for k in ('x', 'f') for x in parts(fld(v, k), s.ip) if x.op == 'fld' and x.args[0] is SELF_}
        left = (set(changed) & read) - set(own)
        st = kept(M, cls)
        if st:
            res.bad('history', '%s: %s' % (alg, st[0][1]), st[0][0], 'a run uses %s, which keeps what an earlier run left in it' % st[0][1])
        elif left:
            res.bad('history', alg, where, 'the result depends on %s, which a run changes' % ', '.join(sorted(left)))
        else:
            res.ok('history', alg, where, 'a run changes %s; the result reads %s' % (', '.join(changed) or 'nothing', ', '.join(sorted(read))))


ev_es4cgp, ev_moes4cgp, ev_mes4cgp, ev_momes4cgp, ev_gd4cgp = [evolution(a) for a in ALGO]
