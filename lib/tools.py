"""Shared helpers: building harnesses against /repo, running TLC, reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MIMIC_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    """the check could not give an answer"""


class CompileError(ToolError):
    """a harness does not compile against the library"""


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='mimic-verif-')
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or '1')


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                          errors='replace', **kw)


def tree_hash():
    h = hashlib.sha1()
    for base in (os.path.join(REPO, 'include'), os.path.join(VERIF, 'harness')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def build(out, exe, sources, flags=(), libs=(), includes=(), cxx='clang++', std='c++20', opt='-O0', jobs=None):
    """compile every source against /repo's working tree and link; returns the path of the executable"""
    target = os.path.join(out, exe)
    cache = os.environ.get('MIMIC_BUILD_CACHE')  # development only: reuse by content of the sources
    if cache:
        key = hashlib.sha1(json.dumps([tree_hash(), exe, sources, list(flags), list(libs), cxx, std, opt]).encode()).hexdigest()
        cached = os.path.join(cache, key)
        if os.path.exists(cached):
            shutil.copy(cached, target)
            return target
    inc = ['-I' + os.path.join(REPO, 'include')] + ['-I' + i for i in includes]
    objs = []
    jobs_list = []
    for s in sources:
        o = os.path.join(out, exe + '_' + os.path.basename(s).rsplit('.', 1)[0] + '.o')
        objs.append(o)
        jobs_list.append([cxx, '-std=' + std, opt, '-g0', '-w', *flags, *inc, '-I' + os.path.dirname(s), '-c', s, '-o', o])
    with cf.ThreadPoolExecutor(jobs or CPUS) as ex:
        for cmd, r in zip(jobs_list, ex.map(lambda c: run(c, timeout=800), jobs_list)):
            if r.returncode != 0:
                raise CompileError('build failed: %s\n%s' % (' '.join(cmd), r.stderr[:3000]))
    r = run([cxx, *flags, *objs, '-o', target, *libs], timeout=300)
    if r.returncode != 0:
        raise ToolError('link failed: ' + r.stderr[-3000:])
    if cache:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(target, cached)
    return target


def tlc(module, cfg, env, scratch, workers=1, timeout=800, heap='1500m', args=()):
    """run TLC; returns (returncode, output)"""
    md = tempfile.mkdtemp(dir=scratch)
    e = dict(os.environ)
    e.update(env)
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-cp', JAR, 'tlc2.TLC', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', md, '-config', os.path.join(SPEC, cfg), *args,
           os.path.join(SPEC, module)]
    try:
        r = run(cmd, timeout=timeout, env=e, cwd=md)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)


def tlc_states(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def parse_viols(out):
    """<<"VIOL", property, script, line, reason>>"""
    res = []
    for m in re.finditer(r'<<\s*"VIOL",\s*"([^"]*)",\s*(-?\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out):
        res.append((m.group(1), int(m.group(2)), int(m.group(3)), m.group(4)))
    return res


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid:
                    res.append(d)
    return res


def replay_file(pid, name, text):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.txt' % (pid, name))
    with open(p, 'w') as f:
        f.write(text)
    return p


class Result:
    """outcome of one check"""

    def __init__(self, pid):
        self.pid = pid
        self.violations = []   # (what, replay path)
        self.coverage = {}
        self.level = 'model_checking'
        self.assumptions = []
        self.notes = []
        self.t0 = time.time()

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def finish(self):
        ev = dict(property=self.pid, tier=tier(), seed=seed(), level=self.level, coverage=self.coverage,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for n in self.notes:
            print(n)
        for what, replay in self.violations[:5]:
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            print('  ' + what)
        print('%s %s: %s in %.1fs, %s' % (
            self.pid, tier(), 'VIOLATED' if self.violations else 'held', time.time() - self.t0,
            {k: v for k, v in self.coverage.items() if isinstance(v, (int, float))}))
        sys.stdout.flush()
        return 1 if self.violations else 0
