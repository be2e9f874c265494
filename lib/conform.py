"""Runs scripts on a harness, validates the recorded traces with a TLA+ trace specification, confirms violations.

Every harness takes <scripts> <trace>: scripts are lines, "S <id>" starts one and resets everything; the trace is one
JSON object per line, {"op":"start","id":..} first and {"op":"end"} last."""
import concurrent.futures as cf
import json
import os
import random
import re
import subprocess

import tools
from tools import CPUS, ToolError, VERIF

ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:exitcode=99:detect_leaks=0:halt_on_error=1',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=99', TSAN_OPTIONS='halt_on_error=1:exitcode=99')


def execute(exe, scripts, scratch, tag, timeout=120):
    """run [(id, lines)]; returns (trace path, [(id, how it crashed, stderr)])"""
    trace = os.path.join(scratch, tag + '.ndjson')
    crashed = []
    todo = list(scripts)
    first = True
    while todo:
        sp = os.path.join(scratch, tag + '.txt')
        with open(sp, 'w') as f:
            for i, lines in todo:
                f.write('S %d\n%s\n' % (i, '\n'.join(lines)))
        part = trace + '.part'
        try:
            with open(os.path.join(scratch, tag + '.err'), 'w') as err:
                r = subprocess.run([exe, sp, part], stdout=subprocess.DEVNULL, stderr=err, timeout=timeout, env=ENV)
            how = None if r.returncode == 0 else ('signal %d' % -r.returncode if r.returncode < 0 else 'exit %d' % r.returncode)
            if r.returncode == 3:
                raise ToolError('bad script')
        except subprocess.TimeoutExpired:
            how = 'hang'
        data = open(part, 'rb').read() if os.path.exists(part) else b''
        if how is not None:
            data = data[:data.rfind(b'\n') + 1]
        last = None
        for m in re.finditer(rb'\{"op":"start","id":(\d+)', data):
            last = int(m.group(1))
        with open(trace, 'ab' if not first else 'wb') as f:
            f.write(data)
        first = False
        if os.path.exists(part):
            os.remove(part)
        if how is None:
            break
        if last is None:
            last = todo[0][0]
        msg = open(os.path.join(scratch, tag + '.err'), errors='replace').read()[-1500:]
        crashed.append((last, how, msg))
        k = [i for i, _ in todo].index(last)
        todo = todo[k + 1:]
        if len(crashed) >= 3:
            break
    return trace, crashed


class Batch:
    def __init__(self):
        self.scripts = {}
        self.viols = {}     # script -> set of (property, reason)
        self.crashes = {}   # script -> how
        self.states = 0
        self.events = 0
        self.before = {}    # script -> the scripts that ran before it in the same process


class Suite:
    def __init__(self, name, module, repeat=1, **env):
        """repeat: how often a script is run to confirm a finding (more than once: its outcome depends on timing)"""
        self.name = name
        self.module = module
        self.repeat = repeat
        self.env = env

    def validate(self, trace, scratch, timeout=800):
        rc, out = tools.tlc(self.module + '.tla', self.module + '.cfg', dict(self.env, TRACE=trace), scratch, timeout=timeout)
        if rc != 0:
            raise ToolError('trace validation broke:\n' + out[-3000:])
        return tools.parse_viols(out), tools.tlc_states(out)[1]

    def run_batch(self, exe, scripts, scratch, shard_lines=2500, tag='b', timeout=120):
        """execute and validate scripts in parallel shards"""
        tag = self.name + tag
        b = Batch()
        shards, cur, n = [], [], 0
        for i, lines in scripts:
            b.scripts[i] = lines
            cur.append((i, lines))
            n += len(lines)
            if n >= shard_lines:
                shards.append(cur)
                cur, n = [], 0
        if cur:
            shards.append(cur)

        def one(k):
            trace, crashed = execute(exe, shards[k], scratch, '%s%d' % (tag, k), timeout)
            nev = sum(1 for _ in open(trace, 'rb'))
            v, st = self.validate(trace, scratch)
            os.remove(trace)
            return crashed, nev, v, st

        with cf.ThreadPoolExecutor(CPUS) as ex:
            for k, (crashed, nev, v, st) in enumerate(ex.map(one, range(len(shards)))):
                prev, pos, start = None, 0, 0
                b.states += st
                b.events += nev
                for i, how, msg in crashed:
                    b.crashes[i] = (how, msg)
                fresh = {i for i, _, _ in crashed}
                for i, _ in shards[k]:
                    if prev in fresh:
                        start = pos
                    b.before[i] = (k, start, pos)
                    prev, pos = i, pos + 1
                for p, i, line, why in v:
                    b.viols.setdefault(i, set()).add((p, why))
        b.shards = shards
        return b

    def in_context(self, exe, batch, i, hit, scratch):
        """a finding that does not show when the script runs alone: the shortest tail of the scripts before it (in the same process) with which
        it does, twice; hit(findings, crash) -> what was found or None.  Returns (what, scripts) or None"""
        k, start, pos = batch.before[i]
        n = 1
        while True:
            lo = max(start, pos - n)
            part = batch.shards[k][lo:pos + 1]
            found = []
            for _ in range(2):
                trace, crashed = execute(exe, part, scratch, '%sx%d' % (self.name, i))
                v, _ = self.validate(trace, scratch)
                found.append(hit({(p, why) for p, j, _, why in v if j == i}, next(((how, msg) for j, how, msg in crashed if j == i), None)))
            if all(found):
                return found[0], part
            if lo == start:
                return None
            n *= 4

    def single(self, exe, lines, scratch, tag):
        """run one script alone; returns (set of (property, reason), crash or None, trace text)"""
        trace, crashed = execute(exe, [(k + 1, lines) for k in range(self.repeat)], scratch, self.name + tag, timeout=20 if self.repeat == 1 else 120)
        v, _ = self.validate(trace, scratch)
        text = open(trace, errors='replace').read()
        return {(p, why) for p, _, _, why in v}, (crashed[0][1:] if crashed else None), text

    def judge(self, pid, res, exe, batch, origin, scratch, twin=None):
        """turn raw findings into confirmed violations of this property; origin: script id -> where it came from"""
        others = 0
        for i in sorted(batch.crashes):
            if len(res.violations) >= 3:
                break
            lines = batch.scripts[i]
            again = [self.single(exe, lines, scratch, 'c%d' % i) for _ in range(2)]
            if all(a[1] for a in again):
                path = tools.replay_file(pid, '%s-crash%d' % (self.name, i), 'harness: %s\norigin: %s\nthe library crashes: %s\n%s\n\nscript:\n%s\n\ntrace:\n%s' % (
                    self.name, origin[i], again[0][1][0], again[0][1][1], '\n'.join(lines), again[0][2]))
                res.violation('the library crashes (%s) while running the script' % again[0][1][0], path)
            elif self.repeat > 1:
                res.add('findings_not_reproduced', 1)
            else:
                ctx = self.in_context(exe, batch, i, lambda v, crash: crash, scratch)
                if not ctx:
                    raise ToolError('crash of script %d is not reproducible: %s' % (i, batch.crashes[i]))
                path = tools.replay_file(pid, '%s-crash%d' % (self.name, i), 'harness: %s\norigin: %s\nthe library crashes: %s\n%s\n\nscripts (the last one crashes, but not alone):\n%s' % (
                    self.name, origin[i], ctx[0][0], ctx[0][1], '\n'.join('S %d\n%s' % (j, '\n'.join(ls)) for j, ls in ctx[1])))
                res.violation('the library crashes (%s) while running the script after others' % ctx[0][0], path)
        twins = 0
        for i in sorted(batch.viols):
            if len(res.violations) >= 3:
                break
            lines = batch.scripts[i]
            mine = [w for p, w in batch.viols[i] if p == pid]
            if mine:
                v, crash, trace = self.single(exe, lines, scratch, 'v%d' % i)
                hit = sorted(w for p, w in v if p == pid)
                if not hit and not crash and self.repeat > 1:
                    res.add('findings_not_reproduced', 1)
                    continue
                if not hit:
                    ctx = self.in_context(exe, batch, i, lambda v, crash: sorted(w for p, w in v if p == pid) or crash, scratch)
                    if not ctx:
                        raise ToolError('violation in script %d is not reproducible' % i)
                    path = tools.replay_file(pid, '%s-s%d' % (self.name, i), 'harness: %s\norigin: %s\nviolated: %s: %s\n\nscripts (the last one fails, but not alone):\n%s' % (
                        self.name, origin[i], pid, ctx[0], '\n'.join('S %d\n%s' % (j, '\n'.join(ls)) for j, ls in ctx[1])))
                    res.violation('%s, after other scripts in the same process (%s)' % ('; '.join(map(str, ctx[0])), origin[i]), path)
                    continue
                path = tools.replay_file(pid, '%s-s%d' % (self.name, i), 'harness: %s\norigin: %s\nviolated: %s: %s\nall findings: %s\n\nscript:\n%s\n\ntrace:\n%s' % (
                    self.name, origin[i], pid, '; '.join(hit), sorted(v), '\n'.join(lines), trace))
                res.violation('; '.join(hit) + ' (' + origin[i] + ')', path)
            else:
                others += 1
                if twin and twins < 60:
                    twins += 1
                    fn, text = twin
                    v, crash, trace = self.single(exe, lines, scratch, 't%d' % i)
                    tw = fn(lines, trace)
                    if v and tw and not crash:
                        v2, crash2, _ = self.single(exe, tw, scratch, 'u%d' % i)
                        if not v2 and not crash2:
                            path = tools.replay_file(pid, '%s-t%d' % (self.name, i), 'origin: %s\nthe script violates the specification (%s) but %s\n\nscript:\n%s\n\ntwin:\n%s\n\ntrace:\n%s' % (
                                origin[i], sorted(v), text, '\n'.join(lines), '\n'.join(tw), trace))
                            res.violation('the script diverges, but ' + text, path)
        if others:
            res.coverage['scripts_diverging_on_other_properties'] = res.coverage.get('scripts_diverging_on_other_properties', 0) + others


def known(pid, res, suite, exe, finding, scratch):
    """a script listed as a known finding: it fails in the listed way (how, or any way if that depends on the build or on timing), or it is
    judged like any other script"""
    lines = finding['script']
    v, crash, trace = suite.single(exe, lines, scratch, 'k')
    if (crash and crash[0] == finding['how'] and not v) or (finding['how'] == 'any' and (crash or v)):
        res.notes.append('KNOWN-FINDING: property=%s %s: %s' % (pid, finding['id'], finding['what']))
    elif crash or any(p == pid for p, _ in v):
        path = tools.replay_file(pid, finding['id'], 'harness: %s\nthe script of the known finding %s fails in another way: %s %s\n\nscript:\n%s\n\ntrace:\n%s' % (
            suite.name, finding['id'], crash, sorted(v), '\n'.join(lines), trace))
        res.violation('the script of the known finding %s fails in another way' % finding['id'], path)


def model_scripts(module, cfg, env, scratch, render, workers=1, timeout=800, heap='3g'):
    """model check a specification and collect the scripts it prints; returns (generated, distinct, scripts)"""
    rc, out = tools.tlc(module, cfg, env, scratch, workers=workers, timeout=timeout, heap=heap)
    if rc != 0:
        raise ToolError('the specification %s fails:\n%s' % (module, '\n'.join(
            l for l in out.splitlines() if 'SCRIPT' not in l)[-3000:]))
    gen, dist = tools.tlc_states(out)
    seen = {}
    for m in re.finditer(r'^"SCRIPT (.*)"$', out, re.M):
        lines = render(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))
        seen.setdefault(tuple(lines), None)
    return gen, dist, [list(s) for s in sorted(seen)]


def simulate(module, cfg, env, scratch, render, num, depth, seed, timeout=800):
    """random behaviours of a specification (TLC's simulator); returns (states, states, scripts)"""
    rc, out = tools.tlc(module, cfg, env, scratch, timeout=timeout,
                        args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)])
    if rc != 0:
        raise ToolError('the specification %s fails:\n%s' % (module, '\n'.join(
            l for l in out.splitlines() if 'SCRIPT' not in l)[-3000:]))
    m = re.findall(r'number of states generated: (\d+)', out)
    gen = int(m[-1]) if m else 0
    seen = {}
    for m in re.finditer(r'^"SCRIPT (.*)"$', out, re.M):
        seen.setdefault(tuple(render(json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\')))), None)
    return gen, len(seen), [list(s) for s in seen]


def spread(scripts, n, rng, key=lambda s: s[0]):
    """n scripts, as evenly as possible over the different first lines"""
    if len(scripts) <= n:
        return scripts
    groups = {}
    for s in scripts:
        groups.setdefault(key(s), []).append(s)
    gs = list(groups.values())
    rng.shuffle(gs)
    for g in gs:
        rng.shuffle(g)
    res = []
    while len(res) < n:
        for g in gs:
            if g and len(res) < n:
                res.append(g.pop())
    return res


def usable(scratch):
    """whether the headers compile at all"""
    src = os.path.join(scratch, 'usable.cpp')
    with open(src, 'w') as f:
        f.write('#include "mimic++/mimic++.hpp"\nint main() { mimicpp::Mock<void()> m{}; }\n')
    try:
        tools.build(scratch, 'usable', [src])
        return True
    except ToolError:
        return False


def must_compile(pid, res, suite, error, scratch):
    """the harnesses only use what the documentation offers: when the headers compile, but a harness does not, then the library does not do
    any longer what the property requires of it"""
    if not usable(scratch):
        raise error
    res.violation('a use of the library does not compile', tools.replay_file(pid, suite.name + '-compile', 'harness: %s\n%s' % (suite.name, error)))


def run(pid, res, scratch, suite, build, models, profiles, cap, rule, sanitize=None, shard_lines=2500):
    """the usual check.  build(scratch) -> exe; models: name -> fn(scratch, thorough) -> (gen, dist, scripts);
    profiles: name -> (fn(seed text) -> lines, quick count, thorough count); cap: (quick, thorough) model scripts"""
    thorough = tools.tier() == 'thorough'
    rng = random.Random('%s-%s-%d' % (pid, suite.name, tools.seed()))
    pool = cf.ThreadPoolExecutor(8)
    exe_f = pool.submit(build, scratch)
    asan_f = pool.submit(sanitize, scratch) if thorough and sanitize else None
    fs = [(n, pool.submit(f, scratch, thorough)) for n, f in models.items()]
    scripts, origin = [], {}
    info = {}
    for n, f in fs:
        gen, dist, ss = f.result()
        res.add('states', dist)
        res.add('transitions', gen)
        c = cap[1 if thorough else 0] // max(1, len(models))
        pick = spread(ss, c, rng)
        info[n] = dict(states=dist, transitions=gen, scripts=len(ss), replayed=len(pick))
        for x in pick:
            origin[len(scripts)] = 'model ' + n
            scripts.append((len(scripts), x))
    for n, (fn, q, t) in profiles.items():
        k = t if thorough else q
        info[n] = dict(scripts=k)
        for i in range(k):
            sd = '%s-%d-%d' % (n, tools.seed(), i)
            origin[len(scripts)] = 'profile %s, seed %s' % (n, sd)
            scripts.append((len(scripts), fn(sd)))
    rng.shuffle(scripts)
    try:
        exe = exe_f.result()
    except tools.CompileError as e:
        must_compile(pid, res, suite, e, scratch)
        return None, Batch()
    batch = suite.run_batch(exe, scripts, scratch, shard_lines=shard_lines)
    suite.judge(pid, res, exe, batch, origin, scratch)
    if asan_f and not res.violations:
        aexe = asan_f.result()
        sub = rng.sample(scripts, min(len(scripts), 3000))
        b2 = suite.run_batch(aexe, sub, scratch, tag='a', timeout=600, shard_lines=shard_lines)
        suite.judge(pid, res, aexe, b2, origin, scratch)
        res.add('scripts_under_address_and_undefined_sanitizer', len(sub))
    res.add('traces_validated_against_impl', len(scripts))
    res.add('events_validated', batch.events)
    res.add('trace_states', batch.states)
    res.coverage.setdefault('sources', {})[suite.name] = info
    res.coverage.setdefault('rules', {})[suite.name] = rule
    res.coverage.setdefault('samples', [])
    byid = dict(scripts)
    res.coverage['samples'] += [dict(origin=origin[i], script=byid[i][:40]) for i in rng.sample(sorted(byid), min(2, len(byid)))]
    return exe, batch


def builder(dirname, sources, exe=None, flags=(), **kw):
    """a build function (and its sanitizer variant) for a harness directory"""
    base = os.path.join(VERIF, 'harness', dirname)
    name = exe or dirname
    srcs = [os.path.join(base, s + '.cpp') for s in sources]

    def plain(scratch):
        return tools.build(scratch, name, srcs, flags=list(flags), **kw)

    def san(scratch):
        return tools.build(scratch, name + '_asan', srcs, flags=[*flags, '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'], **kw)
    return plain, san
