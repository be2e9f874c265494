"""Arguments and results: harness/flow against spec/Flow.tla."""
import random

import conform

SUITE = conform.Suite('flow', 'TraceFlow')
BUILD, SAN = conform.builder('flow', ['sig%d' % i for i in range(1, 8)] + ['main'])


def render(o):
    x = o['x']
    return ['exp %d %d %d %d %s' % (x['sig'], x['chain'], x['fin'], x['val'], ' '.join(map(str, x['delta'])))] + \
           ['call %s %s' % (' '.join(map(str, v)), ' '.join(map(str, r))) for v, r in o['calls']]


def model(scratch, thorough):
    return conform.model_scripts('MCFlow.tla', 'MCFlow.cfg', dict(WIDE='1' if thorough else '0'), scratch, render,
                                 workers=4 if thorough else 2)


def available(sig, chain, fin):
    if fin >= 10:
        return chain in (0, 3) and (sig != 6 or fin in (11, 13, 14)) and (fin != 15 or sig in (1, 5, 7))
    if chain == 4:
        return fin in (-1 if sig == 6 else 2, 7, 9)
    if fin == 6:
        return chain != 1
    if fin == 7:
        return chain != 2
    if sig == 6:
        return fin in (-1, 9)
    if sig == 5:
        return fin in (2, 3, 9)
    if sig == 7:
        return fin in (0, 2, 9)
    return fin in (0, 2, 3, 9) or (fin == 4 and sig <= 3 and chain != 2) or (fin == 5 and sig in (1, 3) and chain != 1) or \
        (fin == 8 and sig <= 3)


def rand(sd):
    rng = random.Random(sd)
    lines = []
    for _ in range(rng.randint(1, 4)):
        while True:
            sig, chain, fin = rng.randint(1, 7), rng.randint(0, 4), rng.randint(-1, 15)
            if available(sig, chain, fin):
                break
        big = rng.choice([3, 50, 5000])
        lines.append('exp %d %d %d %d %s' % (sig, chain, fin, rng.randint(-big, big), ' '.join(str(rng.randint(-big, big)) for _ in range(12))))
        for _ in range(rng.randint(1, 5)):
            lines.append('call %s %d 0 %d' % (' '.join(str(rng.randint(-big, big)) for _ in range(3)), rng.randint(0, 1), rng.randint(0, 1)))
    return lines


def check(pid, res, scratch):
    conform.run(pid, res, scratch, SUITE, BUILD, {'MCFlow': model}, {'random': (rand, 400, 8000)}, (600, 12000),
                'scripts are complete behaviours of MCFlow (every signature, chain and finalizer, two calls each) and seeded random '
                'ones with other values', sanitize=SAN)
