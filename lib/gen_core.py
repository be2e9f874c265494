"""Random operation scripts for the core executor (harness/core), by profile.

The generator knows only which slots are in use; every semantic expectation is in spec/Mimic.tla."""
import random

INTMAX = 2147483647

# kind: (overloads [(arity, exprs)], max sequences, policy shapes, finalizers, noexcept)
KINDS = {
    0: dict(ov=[(1, (0, 2))], seq=3, pol=(0, 1, 2, 3, 4), fin=(0, 1, 2, 3, 4, 5)),
    1: dict(ov=[(1, (0, 1, 2, 3))], seq=1, pol=(0,), fin=(0,)),
    2: dict(ov=[(1, (0, 1, 2, 3))], seq=1, pol=(0,), fin=(0,)),
    3: dict(ov=[(1, (0, 2)), (2, (0, 2)), (3, (0, 2))], seq=1, pol=(0,), fin=(0,)),
    4: dict(ov=[(1, (0, 2))], seq=1, pol=(0, 1, 2, 3, 4), fin=(0, 1)),
    5: dict(ov=[(2, (0, 2))], seq=1, pol=(0, 1, 5), fin=(0, 1, 2, 3, 4, 5)),
    6: dict(ov=[(1, (0, 2))], seq=1, pol=(0,), fin=(0,)),
    7: dict(ov=[(1, (0, 1, 2, 3)), (2, (0, 1, 2, 3))], seq=1, pol=(0,), fin=(0,)),
    8: dict(ov=[(1, (0, 1, 2, 3))], seq=0, pol=(0,), fin=(0,), nx={(1, e) for e in range(4)}),
    9: dict(ov=[(1, (0, 1, 2, 3))], seq=0, pol=(0,), fin=(0,), nx={(1, e) for e in range(4)}),
    10: dict(ov=[(1, (0, 1, 2, 3))], seq=1, pol=(0,), fin=(0,)),
    11: dict(ov=[(1, (0, 2)), (2, (0, 2))], seq=0, pol=(0,), fin=(0,), nx={(2, 0)}),
    12: dict(ov=[(0, (0, 2))], seq=1, pol=(0, 1), fin=(0,)),
}
NPOL = {0: 1, 1: 1, 2: 1, 3: 3, 4: 2, 5: 3}
NSFX = {0: 0, 1: 1, 2: 3, 3: 0, 4: 2, 5: 3}

BASE = dict(
    kinds=[0], mocks=(1, 2), seqs=(0, 2), greedy=0.5, ops=(8, 25), slots=8,
    w=dict(exp=6, call=10, dele=2, mv=1, mva=1, swap=0.5, mock=0.3, mvmock=0.3, mamock=0.1, swmock=0.1, dmock=0.1, seq=0.3, dseq=0.3,
           rep=0.2, psat=0.3, burst=0.0),
    initial=(1, 5), p_seq=0.4, p_multi=0.3, p_dup=0.03, p_invalid=0.03, p_any=0.6, p_throw=0.05,
    bursts=(3, 10, 100, 300, 300, 1000), p_pol=0.3, p_fin=0.3, p_order=0.2, p_argk=0.15, p_nested=0.0, p_unsat=0.05, vals=(0, 3), thr=0.3,
    times=dict(default=2, range=4, exact=2, at_least=1, at_most=1, once=1, twice=1, unlimited=1, zero=0.3, big=0.0),
    p_scope=0.5, p_expr=None, p_unw=0.04, p_thr=0.03)


def mix(**kw):
    p = {k: (dict(v) if isinstance(v, dict) else v) for k, v in BASE.items()}
    for k, v in kw.items():
        if isinstance(v, dict):
            p[k].update(v)
        else:
            p[k] = v
    return p


PROFILES = {
    'mixed': mix(kinds=[0, 0, 0, 4, 5, 2], p_nested=0.03),
    'plain': mix(seqs=(0, 0), w=dict(seq=0, dseq=0), ops=(10, 40), initial=(2, 8), p_pol=0.15),
    'times': mix(seqs=(0, 1), w_seq0=0.7, p_seq=0.15, ops=(10, 40), p_invalid=0.08, p_unsat=0.15,
                 w=dict(psat=1.0, burst=0.6, seq=0.03),
                 times=dict(big=1.0, zero=1, unlimited=2)),
    'timesbig': mix(mocks=(1, 1), seqs=(0, 0), w=dict(exp=1, call=2, burst=4, seq=0, dseq=0, mock=0, mvmock=0, mamock=0, swmock=0, dmock=0),
                    initial=(1, 3), ops=(3, 8), p_any=0.9, p_fin=0.1, p_pol=0, p_invalid=0, p_unw=0, p_thr=0,
                    bursts=(1, 2, 126, 255, 32766, 32767, 32769, 65534, 65536), times=dict(big=20)),
    'deep': mix(mocks=(1, 1), seqs=(1, 1), p_seq=1.0, p_multi=0, initial=(270, 400), slots=420, ops=(12, 25), p_any=0.01, vals=(0, 40), p_pol=0,
                p_fin=0, p_order=0, p_argk=0, p_throw=0, p_invalid=0, p_dup=0, p_unw=0, p_thr=0,
                w=dict(exp=0.3, call=30, dele=1, mv=0.2, mva=0.1, swap=0.1, mock=0, mvmock=0, mamock=0, swmock=0, dmock=0, seq=0, dseq=0, rep=0, psat=0),
                times=dict(default=0, range=0, exact=0, at_least=0, at_most=8, once=0, twice=0, unlimited=8, zero=0.1)),
    'timesq': mix(seqs=(2, 4), p_seq=0.8, p_multi=0.7, w=dict(dele=4, seq=0.1, dseq=0.2, psat=0.5), initial=(1, 5), ops=(8, 30), p_any=0.9,
                  p_pol=0.1, p_fin=0.05, times=dict(default=1, exact=4, at_least=3, range=4)),
    'newest': mix(seqs=(0, 0), w=dict(seq=0, dseq=0, dele=3, mv=2, mva=1.5), ops=(12, 45), initial=(3, 9), slots=12,
                  p_any=0.8, times=dict(exact=3, range=3)),
    'retire': mix(w=dict(dele=6, mv=4, mva=3, dmock=0.6, mvmock=0.5, psat=1), ops=(10, 35), thr=0.5, p_unsat=0.15,
                  initial=(2, 7), p_unw=0.2),
    'seq': mix(seqs=(1, 2), p_seq=0.9, p_multi=0.0, w=dict(seq=0.1, dseq=0.2, dele=1), initial=(3, 8), ops=(10, 40),
               slots=12, p_any=0.75, p_pol=0.1, p_fin=0.05),
    'seqlong': mix(seqs=(1, 1), p_seq=1.0, p_multi=0.0, w=dict(seq=0, dseq=0.1, dele=0.3, mv=0.3, mva=0.1),
                   initial=(10, 24), ops=(20, 60), slots=30, p_any=0.85, p_pol=0, p_fin=0, p_throw=0.01,
                   times=dict(default=2, once=2, at_most=3, range=3, zero=0.1)),
    'strategy': mix(seqs=(1, 3), p_seq=0.85, p_multi=0.5, w=dict(seq=0.2, dseq=0.2, dele=1), initial=(4, 10),
                    ops=(12, 40), slots=14, p_any=0.85, p_pol=0.05, p_fin=0.05,
                    times=dict(default=1, at_most=4, range=4, unlimited=2, zero=0.2)),
    'stratlong': mix(mocks=(1, 1), seqs=(1, 3), p_seq=0.95, p_multi=0.3, w=dict(exp=3, call=14, seq=0, dseq=0.05, dele=0.3, mv=0.3, mva=0.1),
                     initial=(14, 26), ops=(20, 50), slots=30, p_any=0.97, p_pol=0.02, p_fin=0.05, p_throw=0.01, p_argk=0.03,
                     times=dict(default=0.15, at_most=7, range=0.3, exact=0.05, once=0.1, twice=0.1, unlimited=12, zero=0.05, at_least=0.3)),
    'newestlong': mix(mocks=(1, 1), seqs=(0, 1), p_seq=0.05, w=dict(exp=3, call=14, seq=0, dseq=0, dele=1.5, mv=1, mva=0.5),
                      initial=(14, 30), ops=(20, 45), slots=34, p_any=0.95, p_pol=0.05, p_argk=0.03, p_throw=0.01,
                      times=dict(exact=3, range=3, unlimited=6)),
    'multi': mix(seqs=(2, 4), p_seq=0.95, p_multi=0.75, p_dup=0.12, w=dict(seq=0.2, dseq=0.2, dele=0.7), initial=(3, 9),
                 ops=(12, 40), slots=12, p_any=0.75, p_pol=0.05, p_fin=0.05),
    'seqend': mix(seqs=(1, 3), p_seq=0.9, p_multi=0.35, w=dict(seq=0.6, dseq=1.0, dele=4, mv=1.5, mva=1.5),
                  initial=(2, 6), ops=(6, 25), thr=0.2, p_any=0.85, p_unw=0.1),
    'overload': mix(kinds=[1, 2, 3, 6, 7, 8, 9, 10, 11, 1, 9], mocks=(1, 2), seqs=(0, 1), p_seq=0.15, p_multi=0, slots=14,
                    initial=(3, 10), ops=(12, 45), p_any=0.7, p_argk=0, p_order=0, times=dict(unlimited=2, range=4)),
    'require': mix(kinds=[0, 0, 5, 4, 3], seqs=(0, 0), w=dict(seq=0, dseq=0), p_any=0.25, p_throw=0.2, p_pol=0.7,
                   p_argk=0.3, initial=(2, 6), vals=(-2, 3), ops=(10, 35)),
    'fin': mix(kinds=[0, 5, 4], seqs=(0, 1), p_seq=0.1, p_fin=0.85, p_pol=0.4, ops=(10, 40), vals=(-3, 5),
               times=dict(unlimited=3, range=3)),
    'side': mix(kinds=[0, 5, 4, 12, 0], seqs=(0, 1), p_seq=0.2, p_multi=0, p_fin=0.4, p_pol=0.9, p_nested=0.25,
                ops=(10, 35), times=dict(unlimited=3, range=3), mocks=(1, 3)),
    'report': mix(kinds=[0, 4, 5, 2, 1, 7, 12], seqs=(0, 3), p_seq=0.5, p_multi=0.4, w=dict(rep=2.0, dseq=0.4), thr=0.5,
                  p_throw=0.12, p_unsat=0.1, ops=(10, 30), p_unw=0.12, p_thr=0.1),
    'mocks': mix(kinds=[0, 2, 1, 3, 4], mocks=(2, 4), w=dict(mock=0.6, mvmock=3, mamock=1.5, swmock=1, dmock=0.8), ops=(12, 40),
                 initial=(2, 8), slots=12),
    'fail': mix(seqs=(0, 3), p_seq=0.6, p_multi=0.3, p_any=0.35, p_throw=0.1, p_dup=0.08, p_invalid=0.08, ops=(15, 45),
                initial=(2, 7), times=dict(default=3, once=2)),
    'blocked': mix(mocks=(1, 1), seqs=(1, 2), p_seq=0.55, p_multi=0.15, p_any=0.15, p_throw=0.03, p_invalid=0.0, p_pol=0.05, p_fin=0.05, p_argk=0,
                   vals=(0, 2), initial=(4, 8), slots=12, ops=(12, 30), w=dict(exp=1.5, call=14, dele=0.3, mv=0.2, mva=0.1, swap=0.1, mock=0,
                   mvmock=0, mamock=0, swmock=0, dmock=0, seq=0, dseq=0.05, rep=0, psat=0.1), times=dict(default=3, range=4, unlimited=2)),
}


class Gen:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = prof
        self.lines = []
        self.mocks = {}   # slot -> kind
        self.shells = {}  # moved-from mocks: slot -> kind
        self.seqs = {}    # slot -> greedy
        self.exps = {}    # slot -> set of reserved flag
        self.reserved = set()
        self.defs = 0
        self.everseq = False

    def emit(self, s):
        if s[:3] in ('del', 'mva', 'dse', 'dmo', 'cal') and self.r.random() < self.p['p_unw']:
            s = 'unw ' + s
        if self.r.random() < self.p['p_thr']:
            s = 'thr ' + s
        self.lines.append(s)

    def val(self):
        lo, hi = self.p['vals']
        return self.r.randint(lo, hi)

    def atom(self):
        r = self.r
        if r.random() < self.p['p_any']:
            return (0, 0)
        if r.random() < self.p['p_throw']:
            return (7, self.val()) if r.random() < 0.7 else (8, 0)
        t = r.choice((1, 1, 2, 3, 4, 5, 6, 9) if r.random() < 0.3 else (1, 1, 1, 2, 3, 6))
        return (t, self.val())

    def times(self):
        r = self.r
        if r.random() < self.p['p_invalid']:
            return r.choice([(1, 2, 1), (1, -1, 3), (1, 0, -1), (2, -1, 0), (3, -1, 0), (4, -1, 0), (1, -3, -2),
                             (1, INTMAX, INTMAX - 1), (1, 5, 4), (1, -INTMAX, INTMAX), (2, -INTMAX, 0)])
        d = self.p['times']
        k = r.choices(list(d), list(d.values()))[0]
        if k == 'default':
            return (0, 0, 0)
        if k == 'range':
            a = r.randint(0, 3)
            return (1, a, a + r.randint(0, 3))
        if k == 'exact':
            return (2, r.randint(1, 4), 0)
        if k == 'at_least':
            return (3, r.randint(0, 3), 0)
        if k == 'at_most':
            return (4, r.randint(0, 3), 0)
        if k == 'once':
            return (5, 0, 0)
        if k == 'twice':
            return (6, 0, 0)
        if k == 'unlimited':
            return (1, 0, INTMAX)
        if k == 'zero':
            return (2, 0, 0)
        if self.p['bursts'][-1] > 60000:
            n = r.choice((127, 128, 129, 255, 256, 32767, 32768, 32769, 65535, 65536, 65537))
            return r.choice([(1, 5, n), (2, n, 0), (3, n, 0), (4, n, 0), (1, n - 1, n + 1)])
        return r.choice([(1, 5, 300), (2, 257, 0), (1, 256, 65536), (4, 256, 0), (3, 300, 0), (1, INTMAX - 1, INTMAX),
                         (2, INTMAX, 0), (1, 0, 70000), (2, 100, 0), (1, 255, 256), (1, 10, 20)])

    def exp_line(self, slot, m=None, expr=None, ar=None, catchall=False, nested=True):
        r, p = self.r, self.p
        live = list(self.mocks)
        if m is None:
            m = r.choice(live)
        kd = KINDS[self.mocks[m]]
        if ar is None:
            ar, exprs = r.choice(kd['ov'])
            expr = r.choice(exprs)
        tk, ta, tb = self.times()
        seqs, spell, argk, pol, fin, order = [], 0, 0, 0, 0, 0
        kind = self.mocks[m]
        maxseq = kd['seq']
        if catchall:
            tk, ta, tb = 1, 0, INTMAX
        else:
            if r.random() < p['p_fin']:
                fin = r.choice(kd['fin'])
            if r.random() < p['p_pol']:
                pol = r.choice(kd['pol'])
            if kind == 0:
                if fin:
                    maxseq = 0
                elif pol:
                    maxseq = 1
            usable = list(self.seqs)
            if usable and maxseq and r.random() < p['p_seq']:
                n = 1
                if maxseq > 1 and r.random() < p['p_multi']:
                    n = r.choice((2, 2, 3))
                n = min(n, maxseq)
                if r.random() < p['p_dup'] and n > 1:
                    s0 = r.choice(usable)
                    seqs = [s0] * 2 + [r.choice(usable) for _ in range(n - 2)]
                    r.shuffle(seqs)
                else:
                    n = min(n, len(usable))
                    seqs = r.sample(usable, n)
                spell = r.randint(0, 3) if len(seqs) == 3 else r.randint(0, 1)
            if kind == 0 and not fin and not pol and len(seqs) <= 2 and r.random() < p['p_order']:
                order = r.choice((1, 2))
            if kind == 0 and not fin and not pol and not seqs and not order and r.random() < p['p_argk']:
                argk = r.randint(1, 4)
        aa = [(0, 0) if catchall else self.atom() for _ in range(ar)]
        pa = [(0, 0) if catchall or r.random() < 0.6 else self.atom() for _ in range(NPOL[pol])]
        psat = 0 if not catchall and r.random() < p['p_unsat'] else 1
        sfx = []
        for _ in range(NSFX[pol]):
            if nested and r.random() < p['p_nested']:
                sfx.append(self.define())
            else:
                sfx.append(-1)
        v = [slot, m, expr, ar, argk, tk, ta, tb, spell, pol, psat, fin, order, len(seqs), *seqs, len(aa)]
        for a in aa:
            v += a
        v.append(len(pa))
        for a in pa:
            v += a
        v += [len(sfx), *sfx]
        return 'exp ' + ' '.join(map(str, v))

    def call_line(self, mocks=None):
        r = self.r
        m = r.choice(list(self.mocks))
        kd = KINDS[self.mocks[m]]
        ar, exprs = r.choice(kd['ov'])
        return 'call %d %d %d %s' % (m, r.choice(exprs), r.randint(0, 7), ' '.join(str(self.val()) for _ in range(ar)))

    def define(self):
        """a nested operation: a call, or the creation of a further expectation in a fresh reserved slot"""
        r = self.r
        self.defs += 1
        k = self.defs
        z = r.random()
        own = [x for x in self.exps if x not in self.reserved]
        if z < 0.12 and own:
            line = 'del %d' % r.choice(own)
        elif z < 0.16 and self.seqs:
            line = 'dseq %d' % r.choice(list(self.seqs))
        elif z < 0.8:
            line = self.call_line()
        else:
            slot = 20 + len([x for x in self.exps if x >= 20])
            if slot > 40:
                line = self.call_line()
            else:
                self.reserved.add(slot)
                self.exps[slot] = 1
                line = self.exp_line(slot, nested=False)
        self.lines.append('def %d %s' % (k, line))
        return k

    def new_exp(self):
        free = [x for x in range(self.p['slots']) if x not in self.exps]
        if not free or not self.mocks:
            return
        x = self.r.choice(free)
        line = self.exp_line(x)
        self.emit(line)
        # whether the creation succeeds is for the specification to say; the slot counts as used either way
        self.exps[x] = 1

    def new_mock(self):
        free = [x for x in range(8) if x not in self.mocks]
        if not free:
            return
        m = self.r.choice(free)
        k = self.r.choice(self.p['kinds'])
        self.mocks[m] = k
        self.shells.pop(m, 0)
        self.emit('mock %d %d' % (m, k))
        nx = KINDS[k].get('nx')
        for (ar, e) in sorted(nx or ()):
            slot = 20 + len([x for x in self.exps if x >= 20])
            self.exps[slot] = 1
            self.reserved.add(slot)
            self.emit(self.exp_line(slot, m, e, ar, catchall=True))

    def run(self):
        r, p = self.r, self.p
        if r.random() < p['thr']:
            self.emit('rep 2 1')
        for _ in range(r.randint(*p['mocks'])):
            self.new_mock()
        for i in range(0 if r.random() < p.get('w_seq0', 0) else r.randint(*p['seqs'])):
            g = int(r.random() < p['greedy'])
            self.seqs[i] = g
            self.everseq = True
            self.emit('seq %d %d' % (i, g))
        for _ in range(r.randint(*p['initial'])):
            self.new_exp()
        w = p['w']
        for _ in range(r.randint(*p['ops'])):
            op = r.choices(list(w), list(w.values()))[0]
            own = [x for x in self.exps if x not in self.reserved]
            if op == 'exp':
                self.new_exp()
            elif op == 'call' and self.mocks:
                self.emit(self.call_line())
            elif op == 'burst' and self.mocks and not self.everseq and p['p_nested'] == 0:
                m = r.choice(list(self.mocks))
                if self.mocks[m] == 0:
                    n = r.choice(p['bursts'])
                    self.emit('burst %d %d %d %d' % (m, 0, n, self.val()))
            elif op == 'dele' and own:
                x = r.choice(own)
                del self.exps[x]
                self.emit('del %d' % x)
            elif op in ('mv', 'mva', 'swap') and own:
                x = r.choice(own)
                keep = r.random() < 0.3
                if op == 'mv':
                    cand = [y for y in range(p['slots']) if y not in self.exps]
                elif op == 'mva' and r.random() < 0.05:
                    self.emit('mva %d %d' % (x, x))
                    continue
                else:
                    cand = [y for y in own if y != x]
                if not cand:
                    continue
                y = r.choice(cand)
                if op == 'swap':
                    self.emit('swap %d %d' % (x, y))
                    continue
                if not keep:
                    del self.exps[x]
                self.exps[y] = 1
                self.emit('%s %d %d %d' % (op, x, y, keep))
            elif op == 'mock':
                self.new_mock()
            elif op == 'mvmock' and self.mocks:
                m = r.choice(list(self.mocks))
                free = [x for x in range(8) if x not in self.mocks]
                if free:
                    m2 = r.choice(free)
                    keep = r.random() < 0.4
                    self.shells.pop(m2, 0)
                    self.mocks[m2] = self.mocks.pop(m)
                    if keep:
                        self.shells[m] = self.mocks[m2]
                    self.emit('mvmock %d %d %d' % (m, m2, keep))
            elif op == 'swmock' and self.mocks:
                m = r.choice(list(self.mocks))
                cand = [x for x in self.mocks if x != m and self.mocks[x] == self.mocks[m]]
                if cand:
                    self.emit('swmock %d %d' % (m, r.choice(cand)))
            elif op == 'mamock' and self.mocks:
                m = r.choice(list(self.mocks))
                cand = [x for k in (self.mocks, self.shells) for x in k if x != m and k[x] == self.mocks[m]]
                if cand:
                    m2 = r.choice(cand)
                    self.shells.pop(m2, 0)
                    self.mocks[m2] = self.mocks.pop(m)
                    self.emit('mamock %d %d' % (m, m2))
            elif op == 'dmock' and len(self.mocks) > 1:
                m = r.choice(list(self.mocks))
                del self.mocks[m]
                self.emit('dmock %d' % m)
            elif op == 'seq':
                free = [x for x in range(6) if x not in self.seqs]
                if free:
                    s = r.choice(free)
                    g = int(r.random() < p['greedy'])
                    self.seqs[s] = g
                    self.everseq = True
                    self.emit('seq %d %d' % (s, g))
            elif op == 'dseq' and self.seqs:
                s = r.choice(list(self.seqs))
                del self.seqs[s]
                self.emit('dseq %d' % s)
            elif op == 'rep':
                self.emit('rep %d %d' % (r.randint(1, 4), int(r.random() < p['thr'])))
            elif op == 'psat' and own:
                self.emit('psat %d %d' % (r.choice(own), r.randint(0, 1)))
        # retire everything, in some order
        rest = [('del %d' % x) for x in self.exps] + [('dseq %d' % s) for s in self.seqs] + \
               [('dmock %d' % m) for m in self.mocks]
        if r.random() < p['p_scope']:
            pass
        else:
            r.shuffle(rest)
        for x in rest:
            self.emit(x)
        return self.lines


def fix(lines):
    """drop operations on slots that the script never filled (the executor ignores them anyway)"""
    return lines


def script(seed, prof):
    g = Gen(random.Random(seed), PROFILES[prof] if isinstance(prof, str) else prof)
    return g.run()


if __name__ == '__main__':
    import sys
    n = int(sys.argv[2])
    for i in range(n):
        print('S %d' % i)
        print('\n'.join(script('%s-%d' % (sys.argv[1], i), sys.argv[1])))
