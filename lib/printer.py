"""Printing of values: harness/printer against spec/Printer.tla."""
import os
import random

import conform

SUITE = conform.Suite('printer', 'TracePrinter')
BUILD, SAN = conform.builder('printer', ['p1', 'p2', 'p3', 'p4', 'p5', 'main'])
FMT = conform.Suite('printer-fmt', 'TracePrinter')
FMT_BUILD, FMT_SAN = conform.builder('printer', ['p1', 'p2', 'p3', 'p4', 'p5', 'main'], exe='printer_fmt', libs=('-lfmt',),
                                     flags=('-DMIMICPP_CONFIG_USE_FMT',))
TYPES, WAYS = 100, 6


def line(t, via, v):
    return 'P %d %d %s' % (t, via, ' '.join(map(str, v)))


def model(fam):
    def f(scratch, thorough):
        gen, dist, ss = conform.model_scripts('MCPrinter.tla', 'MCPrinter.cfg', dict(FAM=fam, WIDE='1' if thorough else '0'), scratch,
                                              lambda o: [o[0], *o[1]])
        by = {}
        for s in ss:
            by.setdefault(s[0], []).append(s[1:])
        res = []
        for t, vs in sorted(by.items()):
            rng = random.Random('%s%d' % (fam, t))
            small = len(vs) <= 60
            if not thorough and len(vs) > 240:
                vs = rng.sample(vs, 240)
            lines = [line(t, w, v) for v in vs for w in (range(WAYS) if small or thorough else rng.sample(range(WAYS), 2))]
            rng.shuffle(lines)
            res += [lines[i:i + 40] for i in range(0, len(lines), 40)]
        return gen, dist, res
    return f


def rand(sd):
    rng = random.Random(sd)
    lines = []
    for _ in range(30):
        t = rng.randint(1, TYPES)
        lines.append(line(t, rng.randrange(WAYS), [rng.choice([0, 1, 2, 3, 4, rng.randint(0, 12), rng.randint(0, 300)])
                                                   for _ in range(rng.choice([4, 12, 40, 200]))]))
    return lines


RULE = ('the values of MCPrinter (all values of small size of %d types, in each of six ways of printing) and seeded random values of '
        'the same types' % TYPES)
FAMS = ('strings', 'tuples', 'ranges', 'users', 'more')


def check(pid, res, scratch):
    conform.run(pid, res, scratch, SUITE, BUILD, {'MCPrinter/' + f: model(f) for f in FAMS}, {'random': (rand, 250, 8000)},
                (100000, 100000), RULE, sanitize=SAN, shard_lines=1500)
    # the same with the other formatting backend
    if not os.path.exists('/usr/include/fmt/format.h'):
        return
    conform.run(pid, res, scratch, FMT, FMT_BUILD, {'MCPrinter/' + f: model(f) for f in FAMS}, {'random': (rand, 150, 4000)},
                (1500, 100000), RULE, sanitize=FMT_SAN, shard_lines=1500)


def check_calls(pid, res, scratch):
    """C20: arguments in reports"""
    def calls(sd):
        return [' '.join([*x.split()[:2], '5', *x.split()[3:]]) for x in rand(sd)]
    conform.run(pid, res, scratch, SUITE, BUILD, {}, {'random calls': (calls, 80, 800)}, (0, 0), RULE, shard_lines=1500)
