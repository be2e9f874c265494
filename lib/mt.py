"""One mock used by several threads: harness/registry against spec/Registry.tla."""
import concurrent.futures as cf
import random

import conform
import tools

SUITE = conform.Suite('registry', 'TraceRegistry', repeat=20)
FREE = conform.Suite('registry', 'TraceRegistry', repeat=40)
ASAN, _ = conform.builder('registry', ['main'], exe='registry_asan', flags=['-fsanitize=address', '-pthread'])
TSAN, _ = conform.builder('registry', ['main'], exe='registry_tsan', flags=['-fsanitize=thread', '-pthread'], opt='-O1')


def render(ops):
    return [' '.join(map(str, o)) for o in ops]


def env(fam, threads, ops, emit, sim='0'):
    return dict(FAM=fam, THREADS=str(threads), OPS=str(ops), EMIT=emit, SIM=sim)


def fam(name, threads, ops, emit='sched'):
    def f(scratch, thorough):
        return conform.model_scripts('MCRegistry.tla', 'MCRegistry.cfg', env(name, threads, ops, emit), scratch, render, workers=4 if thorough else 2, timeout=850)
    return f


def sim(name, threads, ops, emit, quick, thor):
    def f(scratch, thorough):
        return conform.simulate('MCRegistry.tla', 'MCRegistry.cfg', env(name, threads, ops, emit, '1'), scratch, render,
                                thor if thorough else quick, 5 * threads * ops + 2, tools.seed() * 10 + threads)
    return f


RULE = ('threads stopped wherever user code runs (matcher, reporter, finalizer): all schedules of two threads with one operation each, sampled ones of two '
        'threads with two calls each and of three threads with three operations each, on which the specified library keeps the property; '
        'free running programs of three threads; all under the address sanitizer')


def race_free(pid, res, scratch, thorough, exe):
    """programs in which, by the specification, no two threads touch the same thing at once: the thread sanitizer must agree"""
    scripts, origin = [], {}
    rng = random.Random('mt-%d' % tools.seed())
    for name in ('one', 'miss'):
        gen, dist, ss = sim(name, 3, 5, 'free', 80, 800)(scratch, thorough)
        for s in ss:
            origin[len(scripts)] = 'model MCRegistry/%s, free running under the thread sanitizer' % name
            scripts.append((len(scripts), s))
    rng.shuffle(scripts)
    b = FREE.run_batch(exe, scripts, scratch, shard_lines=600, tag='t', timeout=300)
    for i in sorted(b.crashes):
        how, msg = b.crashes[i]
        if 'ThreadSanitizer: data race' in msg and len(res.violations) < 3:
            path = tools.replay_file(pid, 'race%d' % i, 'a data race in a program that has none by the specification\n%s\n\nscript:\n%s' % (msg, '\n'.join(b.scripts[i])))
            res.violation('data race', path)
            b.crashes.pop(i)
    FREE.judge(pid, res, exe, b, origin, scratch)
    res.add('programs_under_thread_sanitizer', len(scripts))
    res.add('traces_validated_against_impl', len(scripts))
    res.add('events_validated', b.events)


def check(pid, res, scratch):
    thorough = tools.tier() == 'thorough'
    models = {'MCRegistry/all 2x1': fam('all', 2, 1), 'MCRegistry/calls 2x2': fam('calls', 2, 2, '0'),
              'MCRegistry/calls 2x2 random': sim('calls', 2, 2, 'sched', 400, 6000),
              'MCRegistry/all 3x3 random': sim('all', 3, 3, 'sched', 400, 6000),
              'MCRegistry/own free': sim('own', 3, 5, 'free', 100, 1500), 'MCRegistry/one free': sim('one', 3, 5, 'free', 60, 800),
              'MCRegistry/miss free': sim('miss', 3, 5, 'free', 60, 800)}
    if thorough:
        models['MCRegistry/all 2x2'] = fam('all', 2, 2, '0')
        models['MCRegistry/all 3x1'] = fam('all', 3, 1, '0')
        models['MCRegistry/calls 3x1'] = fam('calls', 3, 1)
        models['MCRegistry/own 3x2'] = fam('own', 3, 2, '0')
    tsan = cf.ThreadPoolExecutor(1).submit(TSAN, scratch)
    exe, batch = conform.run(pid, res, scratch, SUITE, ASAN, models, {}, (6000, 60000), RULE, shard_lines=800)
    if exe and not res.violations:
        race_free(pid, res, scratch, thorough, tsan.result())
    for f in tools.known_findings(pid) if exe else ():
        conform.known(pid, res, SUITE, exe, f, scratch)
