"""Kernels: the function each name stands for, its text, and the sets that hold them."""
import ast
import math
import re
from r_chrom import *

TYPES = ['double', 'audi::gdual<double, void>', 'audi::gdual<audi::vectorized<double>, void>']
NAMES = ['sum', 'diff', 'mul', 'div', 'sig', 'tanh', 'ReLu', 'ELU', 'ISRU', 'sin', 'cos', 'log', 'exp', 'gaussian', 'sqrt',
         'psqrt', 'sin_nu', 'cos_nu', 'gaussian_nu', 'inv_sum', 'abs', 'step', 'pdiv']
ANNK = {'tanh', 'sig', 'ReLu', 'ELU', 'ISRU', 'sin_nu', 'cos_nu', 'gaussian_nu', 'sum', 'inv_sum', 'abs', 'step'}
TN = {TYPES[0]: 'numbers', TYPES[1]: 'truncated series', TYPES[2]: 'vectorised series'}


def targ(f):
    return base_type((f.d.get('targs') or '').strip('<>').strip() if (f.d.get('targs') or '').count('<') == 1 else (f.d.get('targs') or '')[1:-1].strip())


def probe(M, name, T_, args=2):
    """the reference function `name` instantiated for value type T_"""
    fs = [f for f in M.p.fns.values() if f.qual == 'vspec::' + name and f.body is not None]
    fs = [f for f in fs if targ(f) == T_]
    if not fs:
        raise AnalysisError('no reference %s<%s>' % (name, T_))
    return fs[0]


def named(M, f, consts, others=()):
    """run f with its leading string parameters bound to constants"""
    st = St()
    given = {}
    for i, c in enumerate(consts):
        q = mk('obj', 'arg', 'a%d' % i)
        st.mem[q] = mk('str', c)
        given[i] = ('r', LV(q))
    for i, v in others:
        given[i] = v
    return M.run(f, None, given=given, st=st)


def points(i, lo, rnd, n=60):
    out = []
    for q in range(n):
        k = rnd.randint(lo, 5)
        v = vec(rnd, k, -3., 3.)
        j = q % 6
        if j == 0:
            v = [round(abs(x) + .1, 3) for x in v]
        elif j == 1 and k > 1:
            v = [float(rnd.randint(-3, 3)) for _ in v]
            v[-1] = -sum(v[:-1])
        elif j == 2:
            v = [0.] * k
        elif j == 3:
            v = [-abs(x) - .1 for x in v]
        elif j == 4:
            v[rnd.randrange(k)] = 0.
        env = {'salt': q}
        put(env, i, v)
        out.append(env)
    return out


def values(ctx, res):
    M = model(ctx)
    res.rule('function', 'the kernel obtained by a name computes the function the name documents, for every number of arguments')
    res.rule('name', 'a kernel answers to the name it was asked by')
    res.rule('unknown', 'unknown names (and the protected division on series) are rejected')
    rnd = random.Random(3)
    for T_ in TYPES:
        pv, pn, rf = probe(M, 'probe_value', T_), probe(M, 'probe_name', T_), probe(M, 'ref_value', T_)
        kc = M.fn('dcgp::kernel_set<%s>' % T_, 'push_back', 'basic_string', nparams=1)
        for nm in NAMES:
            inst = '%s over %s' % (nm, TN[T_])
            s = named(M, pv, [nm])
            if nm == 'pdiv' and T_ != 'double':
                if s.value is None and s.throws:
                    res.ok('unknown', inst, kc.where(), 'rejected')
                elif s.value is not None:
                    res.undecided('unknown', inst, kc.where(), 'accepted')
                continue
            rs = named(M, M.spec('ref_pdiv'), [], ()) if nm == 'pdiv' else named(M, rf, [nm])
            b = M.value(rs)
            if nm == 'pdiv':
                b = subst(b, {mk('init', mk('obj', 'arg', 'a0')): mk('init', mk('obj', 'arg', 'a1'))})
            if s.st is None:
                res.bad('unknown', inst, kc.where(), 'the kernel %s is rejected' % nm)
                continue
            where = kernel_where(M, s) or kc.where()
            compare(res, 'function', inst, where, M.value(s), b, points(1, 1, rnd), s.ip, rs.ip,
                    'the kernel %s' % nm)
            t = named(M, pn, [nm])
            v = M.value(t) if t.st is not None else None
            if v is mk('str', nm):
                res.ok('name', inst, kc.where(), '')
            elif v is not None and v.op == 'str':
                res.bad('name', inst, kc.where(), 'the kernel asked for as %s calls itself %s' % (nm, v.args[0]))
            else:
                res.undecided('name', inst, kc.where(), 'not a constant')
        for bad in ('', 'foo', 'Sum', 'sum ', 'relu', 'cos_', 'sin_n'):
            s = named(M, pv, [bad])
            if s.st is None and s.throws:
                res.ok('unknown', '%r over %s' % (bad, TN[T_]), kc.where(), 'rejected')
            elif s.st is not None and not s.throws and clean(M.value(s), s.ip):
                res.bad('unknown', '%r over %s' % (bad, TN[T_]), kc.where(), 'the unknown kernel name %r is accepted' % bad)
            else:
                res.undecided('unknown', '%r over %s' % (bad, TN[T_]), kc.where(), '')


def kernel_where(M, s):
    """the function object the value came from"""
    for e in reversed(s.events):
        if e.kind == 'call' and e.data[0].name == 'operator()' and e.data[0].cls and '_func' in e.data[0].cls:
            return e.data[0].where()
    return None


# ---------------------------------------------------------------------------------------------- texts
def total(a):
    return sum(a)


FN = {'sin': math.sin, 'cos': math.cos, 'log': math.log, 'exp': math.exp, 'sqrt': math.sqrt, 'abs': abs, 'tanh': math.tanh,
      'sig': lambda x: 1. / (1. + math.exp(-x)), 'ReLu': lambda x: max(x, 0.), 'ELU': lambda x: x if x >= 0 else math.exp(x) - 1.,
      'ISRU': lambda x: x / math.sqrt(1. + x * x), 'step': lambda x: 0. if x < 0. else 1.}
MEAN = {'sum': total, 'diff': lambda a: a[0] - sum(a[1:]), 'mul': math.prod, 'div': lambda a: a[0] / math.prod(a[1:]),
        'pdiv': lambda a: a[0] / math.prod(a[1:]), 'sin': lambda a: math.sin(a[0]), 'cos': lambda a: math.cos(a[0]),
        'log': lambda a: math.log(a[0]), 'exp': lambda a: math.exp(a[0]), 'gaussian': lambda a: math.exp(-a[0] * a[0]),
        'sqrt': lambda a: math.sqrt(a[0]), 'psqrt': lambda a: math.sqrt(abs(a[0])), 'sin_nu': lambda a: math.sin(sum(a)),
        'cos_nu': lambda a: math.cos(sum(a)), 'gaussian_nu': lambda a: math.exp(-sum(a) ** 2), 'inv_sum': lambda a: -sum(a)}
for _n in ('sig', 'tanh', 'ReLu', 'ELU', 'ISRU', 'abs', 'step'):
    MEAN[_n] = (lambda f: lambda a: f(sum(a)))(FN[_n])


class NotAFormula(Exception):
    pass


def meaning(text, val):
    """the number the formula denotes; the usual precedences of arithmetic, ** for powers"""
    try:
        t = ast.parse(text.strip(), mode='eval').body
    except (SyntaxError, ValueError):
        raise NotAFormula(text)

    def ev(x):
        if isinstance(x, ast.BinOp):
            a, b = ev(x.left), ev(x.right)
            o = type(x.op).__name__
            if o == 'Add':
                return a + b
            if o == 'Sub':
                return a - b
            if o == 'Mult':
                return a * b
            if o == 'Div':
                return a / b
            if o == 'Pow':
                return a ** b
            raise NotAFormula(text)
        if isinstance(x, ast.UnaryOp):
            v = ev(x.operand)
            if isinstance(x.op, ast.USub):
                return -v
            if isinstance(x.op, ast.UAdd):
                return v
            raise NotAFormula(text)
        if isinstance(x, ast.Name):
            if x.id in val:
                return val[x.id]
            raise NotAFormula(text)
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)):
            return float(x.value)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in FN and len(x.args) == 1:
            return FN[x.func.id](ev(x.args[0]))
        raise NotAFormula(text)
    return ev(t)


def atoms(nm, k, rnd):
    """arguments of the kinds an expression hands to a kernel: symbols, outputs of kernels, weighted outputs"""
    kinds = ['x%d', '(x%d+y%d)', '-(x%d+y%d)', 'sin(x%d)', '(w%d*-(x%d+y%d))']
    if nm in ANNK:
        kinds += ['w%d*-(x%d+y%d)', 'b%d+w%d*x%d', 'w%d*x%d']
    out = []
    for i in range(k):
        t = rnd.choice(kinds)
        out.append(t % ((i,) * t.count('%d')))
    return out


def texts(ctx, res):
    M = model(ctx)
    res.rule('text', 'the text of a kernel, read with the usual precedences, denotes the function the kernel computes')
    rt = M.spec('ref_text')
    lib = {}
    for nm in NAMES:
        for T_ in TYPES:
            if nm == 'pdiv' and T_ != 'double':
                continue
            s = named(M, probe(M, 'probe_text', T_), [nm])
            if s.st is not None:
                lib[(nm, T_)] = (M.value(s), Loops(s.ip))

    def text(nm, T_, ar):
        """the library's text for these arguments, None when it has no value here"""
        if (nm, T_) not in lib:
            return None
        env = {}
        put(env, 1, ar)
        try:
            got = Valuation(lib[(nm, T_)][1], env).ev(lib[(nm, T_)][0])
        except (NoValue, Ill, ZeroDivisionError, ValueError, OverflowError):
            return None
        return got if isinstance(got, str) else None

    def surroundings(nm, T_, got, ar, val, rnd):
        """texts the text of a kernel may become part of, and the number each has to denote"""
        try:
            v = MEAN[nm]([meaning(z, val) for z in ar])
        except (ZeroDivisionError, ValueError, OverflowError):
            return
        yield '(1.5*%s)' % got, 1.5 * v
        for o in NAMES:
            for k in (1, 2, 3):
                if o == 'pdiv' and T_ != 'double':
                    continue
                j = rnd.randrange(k)
                br = ['x%d' % i for i in range(k)]
                br[j] = got
                t = text(o, T_, br)
                try:
                    w = MEAN[o]([v if i == j else val['x%d' % i] for i in range(k)])
                except (ZeroDivisionError, ValueError, OverflowError):
                    continue
                if t is not None:
                    yield t, w

    for nm in NAMES:
        for T_ in TYPES:
            if nm == 'pdiv' and T_ != 'double':
                continue
            rnd = random.Random(11)
            s = named(M, probe(M, 'probe_text', T_), [nm])
            kc = M.fn('dcgp::kernel_set<%s>' % T_, 'push_back', 'basic_string', nparams=1)
            inst = 'text of %s (%s)' % (nm, TN[T_])
            if s.st is None:
                res.undecided('text', inst, kc.where(), 'no text')
                continue
            a = M.value(s)
            rs = named(M, rt, [nm])
            where = kernel_where(M, s) or kc.where()
            L = Loops(s.ip)
            Lr = Loops(rs.ip)
            known = equiv.same(a, M.value(rs), s.ip, rs.ip)
            n = 0
            bad = None
            for k in range(1, 6):
                for q in range(8):
                    ar = atoms(nm, k, rnd)
                    val = {}
                    for x in set(sum((re.findall(r'[bwxy]\d+', z) for z in ar), [])):
                        val[x] = round(rnd.uniform(.2, 2.), 3)
                    want = meaning_of(nm, ar, val)
                    if want is None:
                        continue
                    env = {}
                    put(env, 1, ar)
                    ref = Valuation(Lr, env).ev(M.value(rs))
                    if not close(meaning(ref, val), want):
                        raise AnalysisError('the reference text of %s is wrong: %s' % (nm, ref))
                    try:
                        got = Valuation(L, env).ev(a)
                    except (NoValue, Ill, ZeroDivisionError, ValueError, OverflowError):
                        continue
                    if not isinstance(got, str):
                        continue
                    n += 1
                    try:
                        m = meaning(got, val)
                    except NotAFormula:
                        bad = 'the arguments %s print as %s, which is no formula' % (ar, got)
                        break
                    except (ZeroDivisionError, ValueError, OverflowError):
                        continue
                    if isinstance(m, complex) or not close(m, want):
                        bad = 'the arguments %s print as %s, which does not denote %s of them' % (ar, got, nm)
                        break
                    if q < 2 and not known:
                        v2 = dict(val, **{'x%d' % i: round(rnd.uniform(.2, 2.), 3) for i in range(6) if 'x%d' % i not in val})
                        for t, w in surroundings(nm, T_, got, ar, v2, rnd):
                            try:
                                m = meaning(t, v2)
                            except NotAFormula:
                                bad = 'the text %s of %s makes the surrounding %s no formula' % (got, nm, t)
                                break
                            except (ZeroDivisionError, ValueError, OverflowError):
                                continue
                            if isinstance(m, complex) or not close(m, w):
                                bad = 'the text %s of %s does not denote %s as a part of %s' % (got, nm, nm, t)
                                break
                        if bad:
                            break
                if bad:
                    break
            if bad:
                res.bad('text', inst, where, bad)
            elif known:
                res.ok('text', inst, where, 'equal to the reference text')
            elif n:
                res.undecided('text', inst, where, 'another text than the reference, same meaning on %d argument lists' % n)
            else:
                res.undecided('text', inst, where, 'no text evaluated')


def meaning_of(nm, ar, val):
    try:
        v = MEAN[nm]([meaning(z, val) for z in ar])
    except (ZeroDivisionError, ValueError, OverflowError):
        return None
    return v


def sets(ctx, res):
    """kernel sets keep their kernels in order"""
    M = model(ctx)
    res.rule('set of kernels', 'a kernel set holds exactly the kernels asked for, in that order, until cleared')
    for T_ in TYPES:
        rnd = random.Random(5)
        rf = probe(M, 'ref_value', T_)
        kc = M.fn('dcgp::kernel_set<%s>' % T_, 'push_back', 'basic_string', nparams=1)
        for a, b in (('mul', 'tanh'), ('sin', 'diff'), ('ReLu', 'ReLu')):
            for i, nm in ((0, a), (1, b)):
                s = named(M, probe(M, 'probe_list', T_), [a, b], [(3, ('v', num(i)))])
                if s.st is None:
                    res.bad('set of kernels', '[%s, %s] over %s' % (a, b, TN[T_]), kc.where(), 'rejected')
                    continue
                rs = named(M, rf, [nm])
                bt = subst(M.value(rs), {mk('init', mk('obj', 'arg', 'a1')): mk('init', mk('obj', 'arg', 'a2'))})
                compare(res, 'set of kernels', 'kernel %d of [%s, %s] over %s' % (i, a, b, TN[T_]), kc.where(), M.value(s), bt,
                        points(2, 1, rnd, 20), s.ip, rs.ip, 'kernel %d' % i)
            s = named(M, probe(M, 'probe_pushed', T_), [a, b])
            rs = named(M, rf, [b])
            bt = subst(M.value(rs), {mk('init', mk('obj', 'arg', 'a1')): mk('init', mk('obj', 'arg', 'a2'))})
            compare(res, 'set of kernels', '%s added to [%s] over %s' % (b, a, TN[T_]), kc.where(),
                    M.value(s) if s.st is not None else None, bt, points(2, 1, rnd, 20), s.ip, rs.ip, 'an added kernel')
            s = named(M, probe(M, 'probe_pushed_name', T_), [a, b])
            v = M.value(s) if s.st is not None else None
            if v is mk('str', b):
                res.ok('set of kernels', 'name of the added kernel over %s' % TN[T_], kc.where(), '')
            elif v is not None and v.op == 'str':
                res.bad('set of kernels', 'name of the added kernel over %s' % TN[T_], kc.where(), 'it is %s' % v.args[0])
        s = named(M, probe(M, 'probe_count', T_), ['sum', 'mul'])
        v = M.value(s) if s.st is not None else None
        if v is num(2):
            res.ok('set of kernels', 'size over ' + TN[T_], kc.where(), '')
        elif v is not None and v.op == 'num':
            res.bad('set of kernels', 'size over ' + TN[T_], kc.where(), 'a set of two kernels reports %s' % show(v, 3))
        else:
            res.undecided('set of kernels', 'size over ' + TN[T_], kc.where(), '')
