"""The function wrapper."""
import random
from r_chrom import *


def fun_model(ctx):
    m = ctx.memo.get('fun')
    if m is None:
        m = ctx.memo['fun'] = Model(ctx, 'fun')
        m.interp = lambda: opened(m)
    m.tier = ctx.tier
    return m


def opened(m):
    ip = Interp(m.p)
    ip.open_function = True
    ip.dynof = {}
    return ip


def wrapper(ctx, res):
    M = fun_model(ctx)
    res.rule('value', 'what a use of the wrapper gives is what the callable stored in it gives')
    res.rule('null', 'calling a wrapper without a callable is rejected')
    probes = sorted(f.name[6:] for f in M.p.fns.values() if f.qual.startswith('vspec::probe_'))
    where = 'include/dcgp/function.hpp'
    for nm in probes:
        s = M.run(M.spec('probe_' + nm), key='p')
        q = M.run(M.spec('ref_' + nm), key='p')
        inst = nm.replace('_', ' ')
        if s.throws and s.value is None:
            t = s.throws[0]
            res.bad('value', inst, at_(M, t), 'a use of the wrapper that must give a value ends in an exception')
            continue
        if s.throws:
            res.undecided('value', inst, where, 'may end in an exception')
            continue
        compare(res, 'value', inst, where, M.value(s), M.value(q), settings(M, s, q), s.ip, q.ip, inst)
    for f in sorted((f for f in M.p.fns.values() if f.qual.startswith('vspec::null_')), key=lambda f: f.name):
        s = M.run(f, key='p')
        inst = f.name.replace('_', ' ')
        if s.value is None and s.throws:
            res.ok('null', inst, where, 'always ends in an exception')
        elif not s.throws and s.value is not None and any(x.op == 'null' for x in subterms(s.value)):
            res.bad('null', inst, where, 'a wrapper without a callable is called and nothing rejects it (%s)' % show(s.value, 5))
        else:
            res.undecided('null', inst, where, 'neither always nor never rejected')


def at_(M, t):
    return t[2].where() if len(t) > 2 and t[2] is not None else 'include/dcgp/function.hpp'


def settings(M, *sums):
    """Valuations of the callables and arguments of a probe."""
    for i in range(3):
        rnd = random.Random(i)
        env = {'salt': i}
        for s in sums:
            for x in set(subterms(M.value(s))):
                if x.op == 'fld' and x.args[0].op == 'arg' or x.op == 'arg':
                    env.setdefault(x, rnd.uniform(-3., 3.))
        yield env
