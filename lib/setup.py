"""Setting up expectations: behaviours of spec/MCBuilder.tla become a program (harness/builder) that sets them up and calls the mock."""
import json
import os
import random
import threading

import conform
import tools

SUITE = conform.Suite('builder', 'TraceBuilder')
BASE = os.path.join(tools.VERIF, 'harness', 'builder')
# spec/Builder.tla: Sigs
SIGS = ['void()', 'int()', 'int(int)', 'str(int, str)', 'int&(int&)', 'Up(Up)', 'void(const str&)', 'void(S)', 'double(double, int, int)',
        'str(S&, str)', 'int(const int&, Up&&)', 'S(const S&)']
POS = {'_': 'any', '1': 'i1', '2': 'i2', '1.0': 'd1', 'stra': 'str', 'eq1': 'eq', 'streq': 'streq', 'S': 'obj', 'null': 'null', 'a': 'a', 'b': 'b'}
FINALIZERS = {'ret7', 'rets', 'reto', 'retx', 'retr', 'retcr', 'res8', 'ress', 'resu', 'resr', 'resc', 'resx', 'arg0', 'arg1', 'arg2', 'app0', 'app1', 'appi',
              'app10', 'appv', 'appa', 'appis', 'appn', 'thr', 'ownf'}


def cpp(it):
    sig = SIGS[it['sig'] - 1]
    head = '%d, %s, Pos<%s>' % (it['sig'], sig, ', '.join('P_' + POS[p] for p in it['pos']))
    if it['fam'] == 'pos':
        return 'pos<%s>()' % head
    complete = sig.startswith('void') or any(n in FINALIZERS for n in it['path'])
    return 'path<%s>()' % ', '.join([head, 'true' if complete else 'false', *('I_' + n for n in it['path'])])


class Items:
    """what this run looks at: computed once, used by the build and by the scripts"""

    def __init__(self, scratch, thorough):
        self.models = {}
        self.items = []
        rng = random.Random('builder-%d' % tools.seed())

        def js(x):
            return [json.dumps(x, sort_keys=True)]

        got = {}

        def go(name, f):
            try:
                got[name] = f()
            except Exception as e:  # reported by the caller
                got[name] = e

        def mc(fam, depth):
            return lambda: conform.model_scripts('MCBuilder.tla', 'MCBuilder.cfg', dict(FAM=fam, DEPTH=depth), scratch, js)

        def sim(num, seed):
            return lambda: conform.simulate('MCBuilder.tla', 'MCBuilder.cfg', dict(FAM='long', DEPTH='7'), scratch, js, num, 9, tools.seed() * 10 + seed)

        jobs = {'pos': mc('pos', '1'), 'one': mc('all', '1'), 'two': mc('all', '2'), 'long': sim(400 if thorough else 60, 7)}
        ts = [threading.Thread(target=go, args=j) for j in jobs.items()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for g in got.values():
            if isinstance(g, Exception):
                raise g

        def take(name, n):
            gen, dist, ss = got[name]
            ss = [s[0] for s in ss]
            if name == 'two':
                ss = [s for s in ss if len(json.loads(s)['path']) == 2]
            pick = ss if len(ss) <= n else rng.sample(ss, n)
            self.models['MCBuilder/' + name] = (gen, dist, [['I %d' % (len(self.items) + i)] for i in range(len(pick))])
            self.items += [json.loads(s) for s in pick]

        take('pos', 10 ** 6 if thorough else 500)
        take('one', 10 ** 6 if thorough else 130)
        take('two', 1200 if thorough else 90)
        take('long', 1200 if thorough else 130)

    def write(self, out, parts):
        files = []
        for p in range(parts):
            f = os.path.join(out, 'bd%d.cpp' % p)
            with open(f, 'w') as fh:
                fh.write('#include "bd.hpp"\nnamespace bd\n{\n\tvoid part%d()\n\t{\n' % p)
                for k in range(p, len(self.items), parts):
                    fh.write('\t\tput(%d, [] { return %s; });\n' % (k, cpp(self.items[k])))
                fh.write('\t}\n')
                if p == 0:
                    fh.write('\tstd::vector<Item>& all() { return items(); }\n\tvoid start() { install_reporter<Reporter>(); }\n')
                    fh.write(''.join('\tvoid part%d();\n' % q for q in range(1, parts)))
                    fh.write('\tvoid fill()\n\t{\n%s\t}\n' % ''.join('\t\tpart%d();\n' % q for q in range(parts)))
                fh.write('}\n')
            files.append(f)
        return files


RULE = ('12 signatures; every list of up to three positional arguments out of 11 (up to one more than there are parameters); expectations of up to two elements out of 84 '
        'after wildcards, and random ones of three to seven after random positional arguments: which further elements they take, and three calls')


def check(pid, res, scratch):
    items = Items(scratch, tools.tier() == 'thorough')

    def build(out):
        parts = tools.CPUS if tools.tier() == 'quick' else 48
        return tools.build(out, 'builder', [*items.write(out, parts), os.path.join(BASE, 'main.cpp')], includes=[BASE])

    models = {n: (lambda scratch, thorough, m=m: m) for n, m in items.models.items()}
    conform.run(pid, res, scratch, SUITE, build, models, {}, (10 ** 6, 10 ** 6), RULE)
