"""Check framework: instances analysed, findings, evidence, exit codes."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import facts as F
from facts import AnalysisError

EVID = os.path.join(ROOT, 'evidence')


class Result:
    """what one property's analysis looked at and what it concluded"""

    def __init__(self, pid):
        self.pid = pid
        self.obl = []          # (rule, instance, where, verdict, detail)
        self.viol = []         # (key, rule, where, text)
        self.notes = []
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, inst, where='', detail=''):
        self.obl.append((rule, inst, where, 'holds', detail))

    def undecided(self, rule, inst, where='', detail=''):
        self.obl.append((rule, inst, where, 'undecided', detail))

    def bad(self, rule, inst, where, text, key=None):
        self.obl.append((rule, inst, where, 'violated', text))
        self.viol.append((key or '%s:%s' % (rule, inst), rule, where, text))

    def expect(self, rule, at_least, what):
        """a rule that saw fewer instances than a hand count did has lost its anchor: that is an error of the check"""
        n = len([o for o in self.obl if o[0] == rule])
        if n < at_least:
            raise AnalysisError('%s/%s: %d instances of %s analysed, at least %d expected' % (self.pid, rule, n, what,
                                                                                              at_least))

    def note(self, s):
        self.notes.append(s)


class Ctx:
    def __init__(self):
        self._p = {}
        self.memo = {}

    def need(self, *names):
        miss = [n for n in names if n not in self._p]
        if miss:
            self._p.update(F.load(miss))
        return [self._p[n] for n in names]

    def prog(self, n):
        return self.need(n)[0]


def known():
    """known_findings.json: {"findings":[{"property","key","what"}], "fixed":[...]}; only findings suppress"""
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {(x['property'], x['key']): x['what'] for x in d.get('findings', [])}


def run_property(pid, fns, level, explanation, assumptions, trusted, only=None):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx()
    ctx.tier = tier
    ctx.seed = seed
    res = Result(pid)
    err = None
    lost = []
    for fn in fns:
        # a rule that cannot find or interpret its anchor leaves its instances undecided; it never turns them into alarms
        try:
            fn(ctx, res)
        except AnalysisError as e:
            lost.append('%s: %s' % (fn.__name__, e))
        except Exception:
            lost.append('%s: %s' % (fn.__name__, traceback.format_exc()))
    if only:
        res.obl = [o for o in res.obl if o[0] in only]
        res.viol = [v for v in res.viol if v[1] in only]
        res.rules = {k: v for k, v in res.rules.items() if k in only}
    for x in lost:
        res.obl.append((x.split(':')[0], 'anchor or construct not interpreted', '', 'undecided', x[-300:]))
    if not any(o[3] == 'holds' for o in res.obl):
        err = 'nothing could be decided: ' + '; '.join(lost)
    kn = known()
    fresh = []
    for key, rule, where, text in res.viol:
        if (pid, key) in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, key)]))
        else:
            fresh.append((key, rule, where, text))
    os.makedirs(EVID, exist_ok=True)
    obl = res.obl
    und = [o for o in obl if o[3] == 'undecided']
    cov = {
        'explanation': explanation,
        'rules': res.rules,
        'obligations': len(obl),
        'discharged': len([o for o in obl if o[3] == 'holds']),
        'undecided': len(und),
        'per_rule': {r: {'instances': len([o for o in obl if o[0] == r]),
                         'holds': len([o for o in obl if o[0] == r and o[3] == 'holds'])}
                     for r in sorted({o[0] for o in obl})},
        'checker_cmd': 'python3 check.py %s' % pid,
        'trusted_base': trusted,
        'instances': ['%s | %s | %s | %s%s' % (o[0], o[1], o[2], o[3], (' | ' + str(o[4])[:300]) if o[4] else '')
                      for o in obl][:400],
        'notes': res.notes,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    if lost:
        ev['coverage']['lost_anchors'] = [x[-1500:] for x in lost]
    if err:
        ev['coverage']['error'] = err[-2000:]
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations (%s), %d hold, %d undecided, %d violated; %.1f s' % (
        pid, len(obl), ', '.join('%s:%d' % (r, v['instances']) for r, v in cov['per_rule'].items()),
        cov['discharged'], len(und), len(res.viol), ev['wall_s']))
    for x in lost:
        print('NOT DECIDED ' + (x if os.environ.get('VERBOSE') else x[:200]), file=sys.stderr)
    if os.environ.get('VERBOSE'):
        for o in obl:
            if os.environ['VERBOSE'] == '1' or o[3] != 'holds':
                print('   ', o[3], '|', o[0], '|', o[1], '|', o[2], '|', str(o[4])[:400])
    if fresh:
        rp = os.path.join(EVID, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for key, rule, where, text in fresh:
                f.write('%s\n  rule %s: %s\n  instance %s\n  %s\n' % (where, rule, res.rules.get(rule, ''), key, text))
        for key, rule, where, text in fresh:
            print('%s: [%s] %s (%s)' % (where, rule, text, key))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if err:
        print('ERROR: ' + err, file=sys.stderr)
        return 3
    return 0


# ------------------------------------------------------------------ tree helpers
def kids(n):
    """direct child nodes of a tree node, in evaluation order where it matters"""
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, dict):
                if 'k' in v:
                    yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        yield x
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, dict):
                yield x


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            st.extend(reversed(list(kids(x))))
        elif isinstance(x, list):
            st.extend(reversed(x))


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('Cast', 'DefArg', 'StdInitList') and 'e' in n:
        n = n['e']
    return n
