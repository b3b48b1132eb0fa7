"""The data sets of the gym."""
from math import exp
from r_chrom import *

FORMULAS = ['koza_quintic', 'P1', 'P2', 'P3', 'P4', 'P5', 'P6', 'P7', 'kotanchek', 'salutowicz', 'salutowicz2d', 'uball5d',
            'ratpol3d', 'sinecosine', 'ripple', 'ratpol2d']


def gym_model(ctx):
    m = ctx.memo.get('gym')
    if m is None:
        m = ctx.memo['gym'] = Model(ctx, 'gym')
    m.tier = ctx.tier
    return m


def at(M, nm):
    fs = [f for f in M.p.fns.values() if f.qual == 'dcgp::gym::generate_' + nm]
    return fs[0].where() if fs else 'include/dcgp/gym.hpp'


def settings(salt):
    """A valuation in which the vectors passed in hold something already."""
    env = {'salt': salt, 'budget': 20000000}
    put(env, 0, [[1.5], [2.5 + salt]])
    put(env, 1, [[0.5, 7.], [3.]])
    env.update({mk(*k): v for k, v in ((('arg', 'p'), [[1.5], [2.5 + salt]]), (('arg', 'l'), [[0.5, 7.], [3.]]))})
    return env


def source(M, res, nm, s):
    """A generated data set is the same at every call: what it draws comes from a generator of its own with a constant seed."""
    draws = [e for e in s.events if e.kind == 'draw']
    for e in draws:
        eng = e.data[3] if len(e.data) > 3 else None
        inst = '%s, %s' % (nm, e.where)
        if e.data[0] in ('device', 'raw') and e.data[1] is None:
            res.bad('source', inst, e.where, 'the data of %s are drawn from a source that differs from call to call' % nm)
        elif eng is not None and eng.op == 'engine' and all(x.op == 'num' for x in eng.args):
            res.ok('source', inst, e.where, 'own generator seeded with a constant')
        elif eng is not None and (eng.op == 'init' or any(x.op == 'draw' and x.args[0] == 'device' for x in subterms(eng))):
            res.bad('source', inst, e.where, 'the data of %s are drawn from a generator whose state differs from call to call' % nm)
        else:
            res.undecided('source', inst, e.where, 'drawn from %s' % (show(eng, 4) if eng is not None else '?'))


def generated(ctx, res):
    M = gym_model(ctx)
    res.rule('source', 'a generated data set draws from a generator of its own with a constant seed')
    res.rule('set', 'the points and labels of a generated data set are those of its documented formula and range')
    for nm in FORMULAS:
        where = at(M, nm)
        for part in ('points', 'labels'):
            s = M.run(M.spec('probe_%s_%s' % (part, nm)), key='p')
            q = M.run(M.spec('ref_%s_%s' % (part, nm)), key='p')
            envs = [settings(i) for i in range(2)]
            if part == 'points':
                source(M, res, nm, s)
            compare(res, 'set', '%s, %s' % (nm, part), where, M.value(s), M.value(q), envs, s.ip, q.ip, '%s of %s' % (part, nm))


# The statistical reference datasets: their models, certified parameters and certified residual sums of squares.
NIST = {
    'chwirut1': (lambda x, b: exp(-b[0] * x) / (b[1] + b[2] * x), (1.9027818370E-01, 6.1314004477E-03, 1.0530908399E-02),
                 2.3844771393E+03, 214),
    'chwirut2': (lambda x, b: exp(-b[0] * x) / (b[1] + b[2] * x), (1.6657666537E-01, 5.1653291286E-03, 1.2150007096E-02),
                 5.1304802941E+02, 54),
    'daniel_wood': (lambda x, b: b[0] * x ** b[1], (7.6886226176E-01, 3.8604055871E+00), 4.3173084083E-03, 6),
    'gauss1': (lambda x, b: b[0] * exp(-b[1] * x) + b[2] * exp(-(x - b[3]) ** 2 / b[4] ** 2)
               + b[5] * exp(-(x - b[6]) ** 2 / b[7] ** 2),
               (9.8778210871E+01, 1.0497276517E-02, 1.0048990633E+02, 6.7481111276E+01, 2.3129773360E+01,
                7.1994503004E+01, 1.7899805021E+02, 1.8389389025E+01), 1.3158222432E+03, 250),
    'kirby2': (lambda x, b: (b[0] + b[1] * x + b[2] * x * x) / (1 + b[3] * x + b[4] * x * x),
               (1.6745063063E+00, -1.3927397867E-01, 2.5961181191E-03, -1.7241811870E-03, 2.1664802578E-05),
               3.9050739624E+00, 151),
    'lanczos2': (lambda x, b: b[0] * exp(-b[1] * x) + b[2] * exp(-b[3] * x) + b[4] * exp(-b[5] * x),
                 (9.6251029939E-02, 1.0057332849E+00, 8.6424689056E-01, 3.0078283915E+00, 1.5529016879E+00,
                  5.0028798100E+00), 2.2299428125E-11, 24),
    'misra1b': (lambda x, b: b[0] * (1 - (1 + b[1] * x / 2) ** -2), (3.3799746163E+02, 3.9039091287E-04),
                7.5464681533E-02, 14),
    'luca1': (None, None, None, 631),
}


def literal(n):
    """The value a constant initializer denotes; raises when it is not one."""
    k = n['k']
    if k in ('Float', 'Int'):
        return float(n['v'])
    if k in ('Cast', 'StdInitList', 'Temp', 'Paren'):
        return literal(n['e'])
    if k == 'Unary' and n['op'] in '+-':
        v = literal(n['e'])
        return -v if n['op'] == '-' else v
    if k == 'InitList':
        return [literal(x) for x in n['a']]
    if k == 'Construct' and n['a'] and all(x['k'] == 'DefArg' for x in n['a'][1:]):
        return literal(n['a'][0])
    raise AnalysisError('no constant table')


def changed(M, s):
    """Names of the library's own variables that a call changes."""
    out = []
    for root, v in s.st.mem.items():
        if root.op == 'glob' and v is not mk('init', root):
            out += [g['name'] for g in M.p.globals if g['id'] == root.args[0]]
    return sorted(set(out))


def table(M, s):
    """The constant table a summary returns."""
    v = M.value(s)
    if v.op == 'init' and v.args[0].op == 'glob':
        g = [g for g in M.p.globals if g['id'] == v.args[0].args[0]][0]
        return literal(g['init'])
    env = settings(0)
    for g in M.p.globals:
        if mk('init', mk('glob', g['id'])) in subterms(v):
            env[mk('init', mk('glob', g['id']))] = literal(g['init'])
    x = equiv.Valuation(equiv.Loops(s.ip), env).ev(v)
    return [[float(y) for y in r] for r in x]


def tables(ctx, res):
    M = gym_model(ctx)
    res.rule('table', 'the constant tables of a data set have the published length, one number per row, and the residual sum of '
                      'squares certified for them at the certified parameters')
    for nm, (f, b, rss, rows) in NIST.items():
        where, inst = at(M, nm), '%s, points and labels' % nm
        try:
            runs = [M.run(M.spec('probe_%s_%s' % (part, nm)), key='p') for part in ('points', 'labels')]
            p, l = [table(M, s) for s in runs]
        except Exception as e:
            res.undecided('table', inst, where, 'not a constant table (%s)' % e)
            continue
        what = None
        if changed(M, runs[0]):
            what = 'a call changes %s: the next one does not give the same data' % ', '.join(changed(M, runs[0]))
        elif len(p) != rows or len(l) != rows:
            what = '%s gives %d points and %d labels, the published data has %d' % (nm, len(p), len(l), rows)
        elif any(len(r) != 1 for r in p + l):
            what = 'a row of %s does not have exactly one number' % nm
        elif f:
            got = sum((f(x[0], b) - y[0]) ** 2 for x, y in zip(p, l))
            if abs(got - rss) > 1e-7 * rss:
                what = ('the residual sum of squares of %s at the certified parameters is %.10g, the certified one is %.10g: '
                        'the table is not the published one' % (nm, got, rss))
        if what:
            res.bad('table', inst, where, what)
        else:
            res.ok('table', inst, where, '%d rows' % rows)
