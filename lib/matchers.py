"""Matchers: harness/matchers against spec/Matchers.tla."""
import itertools
import random

import conform

SUITE = conform.Suite('matchers', 'TraceMatchers')
BUILD, SAN = conform.builder('matchers', ['cmp', 'rng1', 'rng2', 'rng3', 'str1', 'str2', 'str3', 'str4', 'str5', 'str6', 'str7', 'str8', 'cat', 'main'], libs=['-lCatch2'])
NAN = 99999


def lst(v):
    return ' '.join(map(str, [len(v), *v]))


def new(d, src, ct=0):
    k = d['kind']
    if d['fam'] == 'cmp':
        s = 'cmp %s %d %d %s' % (k, d['ty'], src, lst(d['arg']))
        return s + (' %s %s' % (lst(d['eq'] or [0] * 9), lst(d['lt'] or [0] * 9)) if d['ty'] == 2 else '')
    if d['fam'] == 'str':
        return 'str %s %d %d %d %s' % (k, d['ci'], ct, src, lst(d['arg']))
    if d['fam'] == 'rng':
        return 'rng %s %d %s %s' % (k, src, d['cmp'] or '-', lst(d['arg']))
    return 'el %s %s %d' % (k, d['cmp'], d['arg'][0])


def seqs(alpha, n):
    return [list(t) for k in range(n + 1) for t in itertools.product(alpha, repeat=k)]


def values(d, wide):
    """every value of the scope, as in MCMatchers"""
    if d['fam'] == 'str':
        return seqs([0, 65, 97, 98], 3)
    if d['fam'] == 'cmp':
        if d['ty'] == 2:
            return [[x] for x in range(3)]
        if d['ty'] == 3:
            return seqs([97, 98], 3)
        if d['kind'] == 'inst':
            return [[x] for x in range(4)]
        if d['ty'] == 4:
            return [[x] for x in (-1, 0, 1, 2, 3, NAN)]
        return [[x] for x in range(-2, 5)]
    if d['kind'] in ('each2', 'any2'):
        return [sum((i + [-99] for i in s), []) for s in seqs_of(seqs([0, 1], 2), 2)]
    return seqs([0, 1, 2], 4 if wide else 3)


def seqs_of(items, n):
    return [list(t) for k in range(n + 1) for t in itertools.product(items, repeat=k)]


def ts(vs):
    return ['ts %d %s' % (len(c), ' '.join(lst(v) for v in c)) for c in (vs[i:i + 64] for i in range(0, len(vs), 64))]


def rend(wide):
    def render(o):
        d, h = o['d'], o['h']
        rng = random.Random(repr((d, h)))
        src = rng.randint(0, 3)
        if d['fam'] == 'cmp':
            src = rng.randint(0, 6) if d['kind'] == 'own' else rng.randint(0, 3) if d['kind'] == 'pred' or d['kind'] == 'dir' and d['ty'] == 3 else rng.randint(0, 1)
        ct = 6 if d['ty'] == 6 else rng.choice([0, 5] if d['ci'] else [0, 0, 0, 1, 2, 3, 4, 5]) if d['fam'] == 'str' else 0
        vs = values(d, wide)
        lines = [new(d, src, ct)]
        if d['fam'] == 'str' and not wide:
            vs = rng.sample(vs, 40)
        cut = len(vs) // 3
        lines += ts(vs[:cut])  # matching in between must not matter
        lines += ['%s %d %d' % (w, i, m) for w, i, m in h]
        lines += ts(vs)
        return lines
    return render


def model(fam):
    def f(scratch, thorough):
        return conform.model_scripts('MCMatchers.tla', 'MCMatchers.cfg', dict(FAM=fam, WIDE='1' if thorough else '0'), scratch,
                                     rend(thorough), workers=4 if thorough else 2)
    return f


RELS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def history(rng):
    lines, n = [], 1
    for _ in range(rng.randint(0, 4)):
        lines.append('%s %d %d' % (rng.choice(['inv', 'inv', 'dup']), rng.randint(1, n), rng.randint(0, 1)))
        n += 1
    return lines


def base(fam, kind, arg, ty=0, ci=0, cmp='', eq=(), lt=()):
    return dict(fam=fam, kind=kind, ty=ty, ci=ci, arg=arg, eq=list(eq), lt=list(lt), cmp=cmp)


def rand_cmp(sd):
    rng = random.Random(sd)
    lines = []
    for _ in range(4):
        ty = rng.choice([1, 1, 2, 2, 3, 4, 5])
        kind = rng.choice(RELS + ['dir'])
        eq = lt = ()
        if ty == 5 and kind == 'dir':
            ty = 1
        if ty == 2:
            eq = [rng.randint(0, 1) for _ in range(9)]
            lt = [rng.randint(0, 1) for _ in range(9)]
            vs = [[x] for x in range(3)]
            arg = [rng.randint(0, 2)]
        elif ty == 3:
            al = rng.choice([[97, 98], [97, 65, 98, 66, 0, 255, 128], list(range(1, 256))])
            w = [[rng.choice(al) for _ in range(rng.randint(0, 6))] for _ in range(12)]
            arg = rng.choice(w)
            flip = [c ^ 32 if 65 <= c & ~32 <= 90 else c for c in arg]
            vs = w + [arg[:-1], arg + [al[0]], flip]
            if kind == 'dir':
                arg = [c or 1 for c in arg]
                vs = [[c or 1 for c in v] for v in vs]
        elif ty == 4:
            arg = [rng.choice([NAN, 0, rng.randint(-9, 9), rng.randint(-10 ** 6, 10 ** 6)])]
            vs = [[x] for x in (arg[0] - 1 if arg[0] != NAN else 5, arg[0], arg[0] + 1 if arg[0] != NAN else 4, NAN, 0, rng.randint(-9, 9))]
        else:
            arg = [rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randint(-2 ** 31, 2 ** 31 - 1), rng.randint(-5, 5)])]
            vs = [[max(-2 ** 31, min(2 ** 31 - 1, x))] for x in (arg[0], arg[0] - 1, arg[0] + 1, 0, -1, 2 ** 31 - 1, -2 ** 31, rng.randint(-2 ** 31, 2 ** 31 - 1))]
        src = rng.randint(0, 3) if kind == 'dir' and ty == 3 else rng.randint(0, 1)
        lines.append(new(base('cmp', kind, arg, ty=ty, eq=eq, lt=lt), src))
        lines += history(rng) + ts(vs)
    return lines


def rand_str(sd):
    rng = random.Random(sd)
    lines = []
    for _ in range(3):
        ct = rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])
        ci = rng.randint(0, 1) if ct in (0, 5, 6) else 0
        al = rng.choice([[97, 65], [97, 98], [97, 65, 98, 66], [0, 97], list(range(32, 127)),
                         list(range(-128, 128)) if ct in (0, 5) else list(range(0, 256)) if ct == 2 else list(range(0, 60000)),
                         [64, 91, 96, 123, 90, 122, 65, 97]])

        def word(n):
            return [rng.choice(al) for _ in range(n)]

        def flip(w):
            return [c + 32 if 65 <= c <= 90 and rng.random() < .5 else c - 32 if 97 <= c <= 122 and rng.random() < .5 else c for c in w]
        p = word(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 20]))
        if rng.random() < .3:
            p = p * 2
        vs = [p, [], p[1:], p[:-1], p[::-1], p + p, word(len(p)), word(rng.randint(0, 10))]
        for _ in range(8):
            v = rng.choice([word(rng.randint(0, 4)) + p, p + word(rng.randint(0, 4)), word(rng.randint(1, 4)) + p + word(rng.randint(1, 4)),
                            p[:-1] + p, p[:len(p) // 2] + p, p[:-1] + word(1) + p[1:], p + p[1:] + [al[0]], word(2) + p[:-1]])
            if rng.random() < .4:
                v = flip(v)
            if v and rng.random() < .3:
                i = rng.randrange(len(v))
                v = v[:i] + word(1) + v[i + 1:]
            vs.append(v)
        lines.append(new(base('str', rng.choice(['eq', 'starts', 'ends', 'contains']), p, ci=ci), rng.randint(0, 3), ct))
        lines += history(rng) + ts(vs)
    return lines


def rand_rng(sd):
    rng = random.Random(sd)
    lines = []
    for _ in range(3):
        hi = rng.choice([1, 2, 3, 9])

        def rnd(n):
            return [rng.randint(0, hi) for _ in range(n)]
        kind = rng.choice(['eq', 'perm', 'perm', 'sorted', 'empty', 'size', 'each', 'any', 'each2', 'any2'])
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 12, 12, 40, 70] if rng.random() < .3 else [0, 1, 2, 3, 4, 5, 7, 12])
        arg = rnd(n)
        vs = [arg, [], arg[::-1], arg[:-1], arg + rnd(1), sorted(arg), sorted(arg, reverse=True)]
        for _ in range(6):
            v = list(arg)
            rng.shuffle(v)
            vs.append(v)
            if v:
                v = list(v)
                v[rng.randrange(len(v))] = rng.randint(0, hi)
                vs.append(v)
                w = sorted(arg)
                w[rng.choice([0, -1, rng.randrange(len(w))])] = rng.randint(0, hi)
                vs.append(w)
        if kind in ('each', 'any'):
            d = base('el', kind, [rng.randint(0, hi + 1)], cmp=rng.choice(['eq', 'lt', 'ge', 'any', 'pred', 'own', 'hook', 'catch', 'inst']))
            k = d['arg'][0]
            vs += [[k] * m for m in range(1, 5)] + [[k] * m + [k + 1] for m in range(0, 5)] + [[k + 1] + [k] * m for m in range(0, 5)]
        elif kind in ('each2', 'any2'):
            d = base('el', kind, [rng.randint(0, hi)], cmp=rng.choice(['each', 'any', 'noteach']))
            vs = [sum((rnd(rng.randint(0, 3)) + [-99] for _ in range(rng.randint(0, 3))), []) for _ in range(14)]
        elif kind == 'size':
            d = base('rng', kind, [rng.choice([n, n, -1, 0, n + 1, -n, 2 ** 31 - 1])], cmp='-')
        elif kind == 'sorted':
            d = base('rng', kind, [], cmp=rng.choice(['less', 'greater', 'modless']))
        elif kind == 'empty':
            d = base('rng', kind, [], cmp='-')
        else:
            d = base('rng', kind, arg, cmp=rng.choice(['eq', 'mod', 'lt'] if kind == 'eq' else ['eq', 'mod']))
        lines.append(new(d, rng.randint(0, 3)))
        lines += history(rng) + ts(vs)
    return lines


RULE = ('scripts are behaviours of MCMatchers (every definition of the scope, every history of up to two inversions, copies and '
        'moves, every value) and seeded random ones with longer operands')


def check(pid, res, scratch):
    fam, fn = {'C15': ('cmp', rand_cmp), 'C16': ('str', rand_str), 'C17': ('rng', rand_rng)}[pid]
    conform.run(pid, res, scratch, SUITE, BUILD, {'MCMatchers/' + fam: model(fam)}, {'random ' + fam: (fn, 500, 12000)},
                (1500, 20000), RULE, sanitize=SAN, shard_lines=1200)


def check_texts(pid, res, scratch):
    """C20: descriptions of all matchers"""
    conform.run(pid, res, scratch, SUITE, BUILD, {},
                {'random cmp': (rand_cmp, 60, 600), 'random str': (rand_str, 60, 600), 'random rng': (rand_rng, 60, 600)}, (0, 0), RULE, shard_lines=1200)
