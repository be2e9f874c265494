"""Function signatures: items enumerated by spec/MCSignature.tla become a program (harness/signature) that records the traits."""
import json
import os
import random
import threading

import conform
import tools

SUITE = conform.Suite('signature', 'TraceSignature')
BASE = os.path.join(tools.VERIF, 'harness', 'signature')
CPP = {'int[3]': 'Arr', 'const T[2]': 'CArr', 'int(int)': 'Fn', 'int(*)(int)': 'Fn*', 'int(&)[3]': 'Arr&'}
REFS = ['', '&', '&&']


def cpp(s):
    ps = [CPP.get(p, p) for p in s['ps']]
    if s['va']:
        ps.append('...')
    return '%s(%s)%s%s%s' % (CPP.get(s['r'], s['r']), ', '.join(ps), ' const' if s['c'] else '', ' ' + REFS[s['ref']] if s['ref'] else '',
                             ' noexcept' if s['nx'] else '')


def literal(x):
    return 'R"~(%s)~"' % json.dumps(x)


def adjusted(p):
    return {'const int': 'int', 'int[3]': 'int*', 'int(int)': 'int(*)(int)', 'int* const': 'int*', 'const T[2]': 'const T*'}.get(p, p)


def item(k, it):
    ss = it['ss']
    if it['fam'] == 'one':
        s = ss[0]
        return 'put(%d, [] { return one<%s, %d>(%s); });' % (k, cpp(s), -1 if s['va'] else len(s['ps']), literal(s))
    lists = []
    if it['fam'] == 'set':
        for s in ss:
            ps = [adjusted(p) for p in s['ps']]
            if ps not in lists:
                lists.append(ps)
    calls = []
    for ps in lists:
        only = sum(len(x) == len(ps) for x in lists) == 1
        calls.append('call<typename decltype(m)::type>(Args<%s>{}, %s)' % (', '.join(['true' if only else 'false', *[CPP.get(p, p) for p in ps]]), literal(ps)))
    body = ' + "," + '.join(calls) if calls else 'std::string{}'
    return 'put(%d, [] { return set<%s>(%s, [](auto m) { return %s; }); });' % (k, ', '.join(map(cpp, ss)), literal(ss), body)


class Items:
    """what this run looks at: computed once, used by the build and by the scripts"""

    def __init__(self, scratch, thorough):
        self.models = {}
        self.items = []
        rng = random.Random('signature-%d' % tools.seed())
        wide = '1' if thorough else '0'

        def js(x):
            return [json.dumps(x, sort_keys=True)]

        def take(name, got, n):
            gen, dist, ss = got
            ss = [s[0] for s in ss]
            pick = ss if len(ss) <= n else rng.sample(ss, n)
            self.models['MCSignature/' + name] = (gen, dist, [['I %d' % (len(self.items) + i)] for i in range(len(pick))])
            self.items += [json.loads(s) for s in pick]

        big = 10 ** 6 if thorough else 0
        got = {}

        def go(name, f):
            try:
                got[name] = f()
            except Exception as e:  # reported by the caller
                got[name] = e
        ts = [threading.Thread(target=go, args=(f, lambda f=f: conform.model_scripts('MCSignature.tla', 'MCSignature.cfg', dict(FAM=f, WIDE=wide), scratch, js)))
              for f in ('one', 'single', 'pair', 'three')]
        ts.append(threading.Thread(target=go, args=('set', lambda: conform.simulate(
            'MCSignature.tla', 'MCSignature.cfg', dict(FAM='set', WIDE=wide), scratch, js, 1000 if thorough else 70, 14, tools.seed() * 10 + 3))))
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for g in got.values():
            if isinstance(g, Exception):
                raise g
        take('one', got['one'], 3000 if thorough else 1000)
        take('single', got['single'], 1500 if thorough else 400)
        take('pair', got['pair'], 4000 if thorough else 700)
        take('three', got['three'], max(big and 3456, 320))
        take('set', got['set'], 1500 if thorough else 150)

    def write(self, out, parts):
        files = []
        for p in range(parts):
            f = os.path.join(out, 'sg%d.cpp' % p)
            with open(f, 'w') as fh:
                fh.write('#include "sg.hpp"\nnamespace sg\n{\n\tvoid part%d()\n\t{\n' % p)
                for k in range(p, len(self.items), parts):
                    fh.write('\t\t%s\n' % item(k, self.items[k]))
                fh.write('\t}\n')
                if p == 0:
                    fh.write('\tstd::vector<Item>& all() { return items(); }\n')
                    fh.write(''.join('\tvoid part%d();\n' % q for q in range(1, parts)))
                    fh.write('\tvoid fill()\n\t{\n%s\t}\n' % ''.join('\t\tpart%d();\n' % q for q in range(parts)))
                fh.write('}\n')
            files.append(f)
        return files


RULE = ('single signatures over 24 combinations of qualifiers and C-variadics, 12 results and 30 parameter lists; pairs with equal, adjusted and different '
        'parameters; mocks of single signatures with all results and parameters; all overload sets of three signatures over two parameter lists; random sets of up to six, half of them valid')


def check(pid, res, scratch):
    items = Items(scratch, tools.tier() == 'thorough')

    def build(out):
        parts = tools.CPUS if tools.tier() == 'quick' else 32
        return tools.build(out, 'signature', [*items.write(out, parts), os.path.join(BASE, 'main.cpp')], includes=[BASE])

    models = {n: (lambda scratch, thorough, m=m: m) for n, m in items.models.items()}
    conform.run(pid, res, scratch, SUITE, build, models, {}, (10 ** 6, 10 ** 6), RULE)
