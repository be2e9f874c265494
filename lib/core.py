"""Conformance of the expectation engine with spec/Mimic.tla.

Scripts come from the specification's state graph (MCMimic, every transition of a small scope) and from a seeded
random generator (gen_core).  The executor in harness/core runs them on the real library; TraceMimic validates what
was recorded."""
import concurrent.futures as cf
import json
import os
import random
import re

import conform
import gen_core
import tools
from tools import ToolError, VERIF

HARNESS = os.path.join(VERIF, 'harness', 'core')
SUITE = conform.Suite('core', 'TraceMimic')
SOURCES = ['k0_fin', 'k_p', 'k_a', 'k_v', 'k_q', 'k0_seq', 'k0_pol', 'k0_ord', 'k_n', 'main']


def build_exec(scratch, sanitize=False):
    flags = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if sanitize else []
    return tools.build(scratch, 'core_asan' if sanitize else 'core', [os.path.join(HARNESS, s + '.cpp') for s in SOURCES], flags=flags)


# ---- scripts from the state graph of the specification ---------------------------------------------------------
def render(op):
    o = op['op']
    if o == 'exp':
        v = [op['x'], op['m'], op['expr'], op['ar'], op['argk'], op['tk'], op['ta'], op['tb'], op['spell'], op['pol'],
             1 if op['psat'] else 0, op['fin'], 0, len(op['seqs']), *op['seqs'], len(op['aa'])]
        for a in op['aa']:
            v += a[:2]
        v.append(len(op['pa']))
        for a in op['pa']:
            v += a[:2]
        v += [len(op['sfx']), *op['sfx']]
        return 'exp ' + ' '.join(map(str, v))
    if o == 'call':
        return 'call %d %d %d %s' % (op['m'], op['expr'], 0, ' '.join(map(str, op['args'])))
    if o in ('mv', 'mva', 'swap'):
        return '%s %d %d' % (o, op['x'], op['y'])
    if o in ('mvmock', 'mamock', 'swmock'):
        return '%s %d %d' % (o, op['m'], op['m2'])
    if o == 'psat':
        return 'psat %d %d' % (op['x'], op['b'])
    return '%s %d' % (o, op.get('x', op.get('s', op.get('m'))))


# mocks (kinds) and sequences (greedy) of each scope of MCMimic, and whether calls follow as state identification
SCOPES = {
    'plain': ((0,), ()), 'times': ((0,), ()), 'own': ((0, 0), ()), 'lazy': ((0,), (0,)), 'greedy': ((0,), (1,)),
    'multi': ((0,), (0, 1)), 'multi3': ((0,), (0, 0, 1)), 'seqend': ((0, 0), (0, 1)), 'overload1': ((1,), ()), 'timesq': ((0,), (0, 1, 0)), 'pairs': ((0,), (0, 0, 1, 1)),
    'overload2': ((2,), ()), 'overload3': ((7,), ()), 'require': ((0,), ()), 'fin': ((0, 4), ()), 'mocks': ((0, 0), ()), 'blocked': ((0,), (0,)),
}


def explore_scope(scope, depth, scratch, emit=True, workers=2, timeout=800):
    """model check one scope; returns (states generated, distinct states, scripts)"""
    rc, out = tools.tlc('MCMimic.tla', 'MCMimic.cfg', dict(SCOPE=scope, EMIT='1' if emit else '0', DEPTH=str(depth)),
                        scratch, workers=workers, timeout=timeout, heap='3g')
    if rc != 0:
        raise ToolError('the specification fails in scope %s:\n%s' % (scope, '\n'.join(
            l for l in out.splitlines() if 'SCRIPT' not in l)[-3000:]))
    gen, dist = tools.tlc_states(out)
    mocks, seqs = SCOPES[scope]
    head = ['mock %d %d' % (i + 1, k) for i, k in enumerate(mocks)] + ['seq %d %d' % (i + 1, g) for i, g in enumerate(seqs)]
    scripts = []
    calls = {}
    seen = set()
    for m in re.finditer(r'^"SCRIPT (.*)"$', out, re.M):
        ops = json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
        lines = tuple(render(o) for o in ops)
        for l in lines:
            if l.startswith('call'):
                calls[l] = 1
        if lines not in seen:
            seen.add(lines)
            scripts.append(lines)
    ident = sorted(calls)
    tail = ['del %d' % x for x in range(1, 10)] + ['dseq %d' % (i + 1) for i in range(len(seqs))] + \
           ['dmock %d' % m for m in range(1, 4)]
    scripts.sort()
    return gen, dist, [head + list(s) + ident + tail for s in scripts]


def words(line):
    """the operation itself, whatever it happens on or during"""
    w = line.split()
    while w[0] in ('unw', 'thr'):
        w = w[1:]
    return w


# ---- twins: the same script without the operations that must not matter ------------------------------------------
def failed_calls(lines, trace):
    """indices of the call and exp lines that failed, matched by order of top-level events"""
    evs = [json.loads(l) for l in trace.splitlines() if l.strip().startswith('{') and l.strip().endswith('}')]
    tops, depth = [], 0
    for e in evs:
        if e['op'] == 'verdict':
            depth += 1
        elif e['op'] == 'ret':
            depth -= 1
            if depth == 0:
                tops.append(('call', e['k'] not in ('val', 'exc')))
        elif depth == 0 and e['op'] == 'exp':
            tops.append(('exp', e['res'] == 'invalid'))
    res, it = set(), {'call': iter([f for k, f in tops if k == 'call']), 'exp': iter([f for k, f in tops if k == 'exp'])}
    live = {'mock': set()}
    for i, l in enumerate(lines):
        w = words(l)[0]
        if w in it:
            f = next(it[w], None)
            if f:
                res.add(i)
    return res


def twin_failures(lines, trace):
    """C28: the script without its failing calls and rejected expectations"""
    bad = failed_calls(lines, trace)
    return [l for i, l in enumerate(lines) if i not in bad] if bad else None


def twin_mocks(lines, trace):
    """C27: the script without moving and destroying mocks"""
    ren, res, hit = {}, [], False
    fresh = 30
    for l in lines:
        w = words(l)
        if w[0] == 'swmock':
            hit = True
            a, b = int(w[1]), int(w[2])
            ren[a], ren[b] = ren.get(b, b), ren.get(a, a)
            continue
        if w[0] in ('mvmock', 'mamock'):
            hit = True
            a, b = int(w[1]), int(w[2])
            ren[b] = ren.get(a, a)
            ren[a] = None
            continue
        if w[0] == 'dmock':
            hit = True
            ren[int(w[1])] = None
            continue
        if w[0] == 'mock':
            fresh += 1
            ren[int(w[1])] = fresh
            w[1] = str(fresh)
        elif w[0] in ('call', 'burst'):
            t = ren.get(int(w[1]), int(w[1]))
            if t is None:
                continue
            w[1] = str(t)
        elif w[0] == 'exp':
            t = ren.get(int(w[2]), int(w[2]))
            if t is None:
                continue
            w[2] = str(t)
        elif w[0] == 'def':
            return None
        res.append(' '.join(w))
    return res if hit else None


TWINS = {'C28': (twin_failures, 'conforms once the calls that failed and the configurations that were rejected are left out'),
         'C27': (twin_mocks, 'conforms once no mock is moved or destroyed')}


# ---- the check ---------------------------------------------------------------------------------------------------
# property -> (scopes with depth (quick, thorough), random profiles with number of scripts (quick))
PLAN = {
    'C01': ([('plain', 6, 8), ('multi', 5, 6)], [('mixed', 120), ('plain', 80), ('report', 60), ('overload', 40), ('newestlong', 20), ('stratlong', 20)]),
    'C02': ([('times', 6, 8), ('timesq', 6, 8), ('plain', 5, 8)], [('times', 300), ('mixed', 60), ('timesq', 120), ('timesbig', 16)]),
    'C03': ([('plain', 6, 8)], [('newest', 200), ('plain', 80), ('times', 40), ('newestlong', 60)]),
    'C04': ([('own', 6, 8), ('times', 5, 7)], [('retire', 400), ('seqend', 80)]),
    'C05': ([('lazy', 5, 7), ('greedy', 5, 7)], [('seq', 240), ('seqlong', 60), ('deep', 6)]),
    'C06': ([('pairs', 4, 5), ('lazy', 5, 7), ('greedy', 5, 7), ('multi', 4, 6)], [('strategy', 200), ('multi', 40), ('seqlong', 15), ('stratlong', 60), ('deep', 6)]),
    'C07': ([('multi', 5, 6), ('multi3', 5, 7)], [('multi', 300), ('strategy', 30), ('stratlong', 20)]),
    'C08': ([('seqend', 6, 8), ('lazy', 5, 7)], [('seqend', 280), ('seqlong', 20)]),
    'C09': ([('overload1', 5, 6), ('overload2', 6, 8), ('overload3', 6, 8)], [('overload', 300)]),
    'C10': ([('require', 5, 6)], [('require', 400)]),
    'C11': ([('fin', 5, 6)], [('fin', 360), ('side', 60)]),
    'C12': ([('fin', 5, 6)], [('side', 400)]),
    'C14': ([('seqend', 5, 7), ('own', 5, 7)], [('report', 300), ('retire', 80), ('seqend', 80)]),
    'C20': ([('multi', 5, 6), ('times', 5, 7)], [('report', 180), ('multi', 40), ('times', 40), ('overload', 20)]),
    'C26': ([('times', 6, 8)], [('times', 400), ('timesbig', 16)]),
    'C27': ([('mocks', 6, 8), ('own', 5, 7)], [('mocks', 360)]),
    'C28': ([('multi', 5, 6), ('plain', 5, 7), ('times', 4, 6), ('blocked', 7, 8)], [('fail', 220), ('blocked', 150)]),
}
QUICK_SCOPE_SCRIPTS = 700
QUICK_FULL = {'pairs': 3000, 'timesq': 1500, 'blocked': 1500}  # short scripts, all of them
THOROUGH_SCOPE_SCRIPTS = 30000
THOROUGH_FACTOR = 25

RULE = ('scripts are the transitions of the specification in the listed scopes (each followed by every call of the scope '
        'and the retirement of everything) and seeded random scripts of the listed profiles')


def check(pid, res, scratch):
    thorough = tools.tier() == 'thorough'
    rng = random.Random('%s-%d' % (pid, tools.seed()))
    scopes, profiles = PLAN[pid]
    pool = cf.ThreadPoolExecutor(8)
    exe_f = pool.submit(build_exec, scratch)
    asan_f = pool.submit(build_exec, scratch, True) if thorough else None
    scope_f = [(s, (d[1] if thorough else d[0]),
                pool.submit(explore_scope, s, (d[1] if thorough else d[0]), scratch, True, 4 if thorough else 1))
               for s, *d in scopes]
    scripts, origin = [], {}
    per_scope = {}
    cap = (THOROUGH_SCOPE_SCRIPTS if thorough else QUICK_SCOPE_SCRIPTS) // len(scopes)
    for s, d, f in scope_f:
        gen, dist, ss = f.result()
        res.add('states', dist)
        res.add('transitions', gen)
        c = max(cap, QUICK_FULL.get(s, 0))
        pick = ss if len(ss) <= c else rng.sample(ss, c)
        per_scope[s] = dict(depth=d - 1, states=dist, transitions=gen, scripts=len(ss), replayed=len(pick))
        for x in pick:
            origin[len(scripts)] = 'scope ' + s
            scripts.append((len(scripts), x))
    for prof, n in profiles:
        n *= THOROUGH_FACTOR if thorough else 1
        for i in range(n):
            sd = '%s-%d-%d' % (prof, tools.seed(), i)
            origin[len(scripts)] = 'profile %s, seed %s' % (prof, sd)
            scripts.append((len(scripts), gen_core.script(sd, prof)))
    try:
        exe = exe_f.result()
    except tools.CompileError as e:
        conform.must_compile(pid, res, SUITE, e, scratch)
        return
    order = list(scripts)
    rng.shuffle(order)
    batch = SUITE.run_batch(exe, order, scratch)
    SUITE.judge(pid, res, exe, batch, origin, scratch, TWINS.get(pid))
    if asan_f and not res.violations:
        aexe = asan_f.result()
        sub = rng.sample(order, min(len(order), 2500))
        b2 = SUITE.run_batch(aexe, sub, scratch, tag='a', timeout=600)
        SUITE.judge(pid, res, aexe, b2, origin, scratch)
        res.coverage['scripts_under_address_and_undefined_sanitizer'] = len(sub)
    res.coverage['traces_validated_against_impl'] = len(scripts)
    res.coverage['events_validated'] = batch.events
    res.coverage['trace_states'] = batch.states
    res.coverage['scopes'] = per_scope
    res.coverage['profiles'] = {p: n * (THOROUGH_FACTOR if thorough else 1) for p, n in profiles}
    res.coverage['rule'] = RULE
    res.coverage['samples'] = [dict(origin=origin[i], script=batch.scripts[i])
                               for i in rng.sample(range(len(scripts)), min(2, len(scripts)))]
    res.assumptions += [
        'g++/clang++ compile the harness faithfully; TLC evaluates the specification faithfully',
        'bounded: scripts of up to about 70 operations over int arguments and the expectation shapes of harness/core',
    ]
