"""Shipped reporters: harness/reporter against spec/Reporter.tla."""
import conform
import tools

SUITE = conform.Suite('reporter', 'TraceReporter')
BUILD, SAN = conform.builder('reporter', ['main'])


def flat(*xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            r += flat(*x)
        else:
            r.append(x)
    return r


def call(c):
    return flat(c['ret'], c['loc'], c['cat'], c['cst'], len(c['args']), c['args'])


def match(m):
    c = m['ctl']
    return flat(m['loc'], m['fin'], c['k'], c['mn'], c['mx'], c['n'], c['nr'], c['nt'], len(m['reqs']), m['reqs'])


def exp(x):
    return flat(x['loc'], x['fin'], x['times'], len(x['reqs']), x['reqs'])


def line(e):
    k = e['k']
    r = [e['rep'], k, e['unw']]
    if k in (1, 2, 3, 6):
        r += call(e['call'])
    if k in (1, 2):
        r += [len(e['ms'])] + flat([match(m) for m in e['ms']])
    if k == 3:
        r += match(e['ms'][0])
    if k in (4, 6):
        r += exp(e['ex'])
    if k == 5:
        r += [e['msg']]
    if k == 6:
        r += [e['exc'], e['msg']]
    return 'E ' + ' '.join(map(str, r))


def render(e):
    return [line(e)]


def fam(name):
    def f(scratch, thorough):
        return conform.model_scripts('MCReporter.tla', 'MCReporter.cfg', dict(FAM=name, WIDE='1' if thorough else '0'), scratch, render)
    return f


def sim(quick, deep):
    def f(scratch, thorough):
        return conform.simulate('MCReporter.tla', 'MCReporter.cfg', dict(FAM='sim', WIDE='0'), scratch, render,
                                deep if thorough else quick, 400, tools.seed() * 10 + 5)
    return f


MODELS = {f: fam(f) for f in ('outcome', 'times', 'reqs', 'calls')}
MODELS['sim'] = sim(6, 100)
RULE = ('every event of the families of MCReporter (each kind of report, reporter and unwinding context; control states; '
        'requirement lists; calls) and random events, as one report each to a shipped reporter')


def check(pid, res, scratch):
    conform.run(pid, res, scratch, SUITE, BUILD, MODELS, {}, (15000, 60000), RULE, sanitize=SAN)
