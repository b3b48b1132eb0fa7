"""What objects print about themselves."""
import random
import equiv
from r_chrom import *


def text_model(ctx):
    m = ctx.memo.get('text')
    if m is None:
        m = ctx.memo['text'] = Model(ctx, 'text')
    m.tier = ctx.tier
    return m


def spaced(t):
    """the text with every run of blanks as one, and none at either end"""
    ps = list(t.args) if t.op == 'strcat' else [t]
    ps = [s_lit(' ' + ' '.join(p.args[0].split()) + ' ' if p.args[0].strip() else ' ') if p.op == 'str' else p for p in ps]
    t = strcat(*ps)
    ps = list(t.args) if t.op == 'strcat' else [t]
    if ps[0].op == 'str':
        ps[0] = s_lit(ps[0].args[0].lstrip())
    if ps[-1].op == 'str':
        ps[-1] = s_lit(ps[-1].args[0].rstrip())
    return strcat(*ps)


def labels(t):
    """the words of a text, as printed between one value and the next; the values"""
    ps = list(t.args) if t.op == 'strcat' else [t]
    words = frozenset(p.args[0].strip() for p in ps if p.op == 'str')
    return words, [p for p in ps if p.op != 'str']


def readings(a, b):
    """random values of everything the two texts are made of"""
    for i in range(8):
        rnd = random.Random(i)
        env = {'salt': i}
        for t in (a, b):
            for x in sorted(subterms(t), key=lambda x: x.id):
                if x.op == 'fld' and x.args[0].op == 'init' or x.op == 'arg':
                    env.setdefault(x, [rnd.randint(1, 99) for _ in range(rnd.randint(2, 9))])
                elif x.op == 'init':
                    env.setdefault(x, [[rnd.random() for _ in range(rnd.randint(1, 9))] for _ in range(rnd.randint(1, 9))]
                                   if i % 2 else [rnd.randint(0, 2) for _ in range(rnd.randint(0, 9))])
        for t in (a, b):
            for x in subterms(t):
                if x.op in ('truth', 'ige') or x.op == 'not' and x.args[0].op == 'eq':
                    for y in subterms(x):
                        if y in env and y.op != 'init':
                            env[y] = rnd.randint(0, 1)
            for x in subterms(t):
                if x.op == 'strcat':
                    for y in x.args:
                        if y in env:
                            env[y] = 'name%d' % rnd.randint(1, 99)
        yield env


def place(s):
    """where the library puts the text together"""
    for e in s.events:
        if e.kind == 'stream' and e.fn is not None and e.fn.qual.startswith('dcgp::'):
            return e.fn.where()
    for e in s.events:
        if e.fn is not None and not e.fn.qual.startswith('vspec::'):
            return e.fn.where()
    return None


def printed(ctx, res):
    M = text_model(ctx)
    res.rule('text', 'what an object prints is its labels and the values its interface gives, each value under its label')
    names = sorted(f.name[6:] for f in M.p.fns.values() if f.qual.startswith('vspec::probe_'))
    ref = {nm: M.run(M.spec('ref_' + nm), key='p') for nm in names}
    known = {w for q in ref.values() for w in labels(spaced(M.value(q)))[0]}
    for nm in names:
        pf = M.spec('probe_' + nm)
        s, q = M.run(pf, key='p'), ref[nm]
        inst = nm.replace('_', ' ')
        where = place(s) or pf.where()
        if M.value(s) is None:
            compare(res, 'text', inst, where, None, M.value(q), [], s.ip, q.ip, 'what %s prints' % inst)
            continue
        a, b = spaced(M.value(s)), spaced(M.value(q))
        wa, va = labels(a)
        if not wa <= known and len(va) == len(labels(b)[1]):
            vb = labels(b)[1]
            if all(equiv.same(x, y, s.ip, q.ip) for x, y in zip(va, vb)):
                res.undecided('text', inst, where, 'the values agree; the wording is not the one known: %s' % sorted(wa - known)[:2])
                continue
        compare(res, 'text', inst, where, a, b, lambda: readings(a, b), s.ip, q.ip, 'what %s prints' % inst)
