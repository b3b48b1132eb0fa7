"""Builds the clang plugin when needed, runs it over the driver translation units against /repo's current tree and
loads the resolved program."""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('DCGP_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    pass


def _h(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def _tree(d, exts=None):
    out = []
    for b, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ('.git', '_build', '__pycache__')]
        for f in fs:
            if exts is None or f.endswith(exts):
                out.append(os.path.join(b, f))
    return out


def plugin_start():
    """returns (path, Popen or None)"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'facts_plugin.cpp')
    so = os.path.join(BUILD, 'facts-%s.so' % _h([src]))
    if os.path.exists(so):
        return so, None, None
    tmp = so + '.%d.tmp' % os.getpid()
    cmd = ['clang++', '-O0', '-g0', '-fno-rtti', '-std=c++17', '-fPIC', '-shared', '-w', '-I%s/include' % LLVM,
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE', src,
           '-o', tmp]
    return so, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), tmp


def plugin_finish(so, p, tmp):
    if p is None:
        return
    out = p.communicate()[0]
    if p.returncode != 0:
        raise AnalysisError('the fact extractor does not build: ' + out.decode(errors='replace')[-2000:])
    os.replace(tmp, so)


def gen_config():
    """the build's generated header, regenerated from the repository's template"""
    d = os.path.join(BUILD, 'gen-%d' % os.getpid(), 'dcgp')
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, 'config.hpp.in')).read()
    src = re.sub(r'@dcgp_VERSION_MAJOR@|@\w*MAJOR@', '1', src)
    src = re.sub(r'@dcgp_VERSION_MINOR@|@\w*MINOR@', '0', src)
    src = re.sub(r'@\w*ENABLE\w*@', '', src)
    src = re.sub(r'@\w+@', '1.0.0', src)
    with open(os.path.join(d, 'config.hpp'), 'w') as f:
        f.write(src)
    return os.path.dirname(d)


TUS = {
    'core': 'driver_core.cpp',
    'opt': 'driver_opt.cpp',
    'py': 'driver_py.cpp',
    'spec': 'driver_spec.cpp',
    'sr': 'driver_sr.cpp',
    'algo': 'driver_algo.cpp',
    'gym': 'driver_gym.cpp',
    'fun': 'driver_fun.cpp',
    'text': 'driver_text.cpp',
}


def prune(keep=60):
    """drops the oldest cached facts"""
    try:
        fs = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith('facts-') and '.json' in f),
                    key=os.path.getmtime)
        for f in fs[:-keep]:
            os.remove(f)
    except OSError:
        pass


def load(names):
    """facts for the named translation units: {name: Program}"""
    t0 = time.time()
    srcs = _tree(os.path.join(REPO, 'include')) + [os.path.join(REPO, 'config.hpp.in')]
    if 'py' in names:
        srcs += _tree(os.path.join(REPO, 'dcgpy'), ('.cpp', '.hpp'))
    srcs += _tree(os.path.join(ROOT, 'stubs')) + [os.path.join(HERE, f) for f in os.listdir(HERE)
                                                  if f.endswith(('.cpp', '.hpp'))] + _tree(os.path.join(HERE, 'spec'))
    key = _h(srcs)
    outs = {n: os.path.join(BUILD, 'facts-%s-%s.json' % (n, key)) for n in names}
    todo = [n for n in names if not os.path.exists(outs[n])]
    if todo:
        so, p, tmp = plugin_start()
        plugin_finish(so, p, tmp)
        gen = gen_config()
        ps = []
        for n in todo:
            o = outs[n] + '.%d.tmp' % os.getpid()
            env = dict(os.environ, DCGP_FACTS_OUT=o,
                       DCGP_ROOTS=os.path.join(REPO, 'include') + '/:' + os.path.join(REPO, 'dcgpy') + '/' +
                       (':' + os.path.join(HERE, 'spec') + '/' if n in ('spec', 'sr', 'algo', 'gym', 'fun', 'text') else ''))
            cmd = ['clang++', '-std=c++17', '-fsyntax-only', '-w', '-ferror-limit=0', '-fplugin=' + so,
                   '-I' + gen, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(ROOT, 'stubs'), '-I' + HERE,
                   '-isystem', '/usr/include/eigen3', '-DNDEBUG', '-DBOOST_SERIALIZATION_DYN_LINK', '-DDCGP_REPO_FACTS',
                   '-I' + REPO, os.path.join(HERE, TUS[n])]
            ps.append((n, o, subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for n, o, p in ps:
            log = p.communicate()[0].decode(errors='replace')
            if not os.path.exists(o) or os.path.getsize(o) < 1000:
                raise AnalysisError('no facts for %s: %s' % (n, log[-3000:]))
            with open(outs[n] + '.log', 'w') as f:
                f.write(log)
            os.replace(o, outs[n])
        import shutil
        shutil.rmtree(gen, ignore_errors=True)
        prune()
    res = {}
    for n in names:
        with open(outs[n]) as f:
            d = json.load(f)
        log = ''
        if os.path.exists(outs[n] + '.log'):
            log = open(outs[n] + '.log').read()
        if d['errors']:
            raise AnalysisError('translation unit %s does not compile: %s' % (n, log[-3000:]))
        res[n] = Program(n, d)
    return res


class Fn:
    def __init__(self, prog, d):
        self.p = prog
        self.d = d
        self.id = d['id']
        self.name = d['name']
        self.qual = d['qual']
        self.cls = d.get('cls')
        self.clsname = d.get('clsname')
        self.params = d['params']
        self.body = d['body']
        self.ctor = d.get('ctor', False)
        self.static = d.get('static', False)
        self.const = d.get('const', False)
        self.virtual = d.get('virtual', False)
        self.access = d.get('access')
        self.loc = d['loc']

    @property
    def file(self):
        return self.p.files[self.loc[0]]

    @property
    def line(self):
        return self.loc[1]

    def where(self, node=None):
        f, l = (self.file, self.line) if node is None or 'l' not in node else (self.p.files[node['f']], node['l'])
        return '%s:%d' % (rel(f), l)

    def ptypes(self):
        return [self.p.types[x['t']] for x in self.params]

    def __repr__(self):
        return '<fn %s@%d>' % (self.qual, self.line)


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


class Program:
    def __init__(self, name, d):
        self.name = name
        self.files = d['files']
        self.types = d['types']
        self.decls = {int(k): v for k, v in d['decls'].items()}
        self.raw = d
        self.fns = {}
        for f in d['functions']:
            self.fns[f['id']] = Fn(self, f)
        self.records = {}
        for r in d['records']:
            self.records[r['name']] = r
        self.globals = d['globals']
        self.specs = d['specs']
        self.enums = d['enums']
        self.uninst = d['uninstantiated']
        self.bases = {}
        for r in d['records']:
            self.bases[r['name']] = [self.types[b] for b in r['bases']]
        # overriders
        self.overriders = {}
        for f in self.fns.values():
            for o in f.d.get('overrides', []):
                self.overriders.setdefault(o, []).append(f)

    def ty(self, n):
        return self.types[n['t']] if n is not None and 't' in n else ''

    def find(self, cls=None, name=None, pred=None):
        out = []
        for f in self.fns.values():
            if cls is not None and f.cls != cls:
                continue
            if name is not None and f.name != name:
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        out.sort(key=lambda f: f.line)
        return out

    def derives(self, c, b):
        if c == b:
            return True
        return any(self.derives(x, b) for x in self.bases.get(c, []))

    def dispatch(self, decl_id, dyncls):
        """final overrider of method decl_id for dynamic class dyncls (Fn or None)"""
        f = self.fns.get(decl_id)
        best = f
        seen = set()
        work = [decl_id]
        while work:
            x = work.pop()
            for o in self.overriders.get(x, []):
                if o.id in seen:
                    continue
                seen.add(o.id)
                if o.cls is not None and self.derives(dyncls, o.cls):
                    best = o
                    work.append(o.id)
        return best
