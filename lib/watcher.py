"""Watched objects: harness/watcher against spec/Watcher.tla."""
import conform
import tools

SUITE = conform.Suite('watcher', 'TraceWatcher')
BUILD, SAN = conform.builder('watcher', ['main'])


def render(ops):
    return ['%s %d %d %d %d %d %d %d %d %d %s' % (o['op'], o['a'], o['b'], o['x'], o['mn'], o['mx'], o['fin'], o['kind'], o['val'],
                                                  o['unw'], ' '.join(map(str, o['q']))) for o in ops]


def scope(name, quick, deep):
    def f(scratch, thorough):
        return conform.model_scripts('MCWatcher.tla', 'MCWatcher.cfg', dict(SCOPE=name, SIM='0', DEPTH=str(deep if thorough else quick)),
                                     scratch, render, workers=2)
    return f


def sim(k, quick, deep):
    def f(scratch, thorough):
        return conform.simulate('MCWatcher.tla', 'MCWatcher.cfg', dict(SCOPE='all', SIM='1', DEPTH='25'), scratch, render,
                                deep if thorough else quick, 120, tools.seed() * 10 + k)
    return f


MODELS = {'life': scope('life', 6, 7), 'reloc': scope('reloc', 5, 6), 'both': scope('both', 5, 6), 'virt': scope('virt', 5, 6),
          'nolife': scope('nolife', 5, 7), 'noreloc': scope('noreloc', 5, 6), 'noboth': scope('noboth', 4, 5), 'sim0': sim(0, 150, 4000), 'sim1': sim(1, 150, 4000)}


def check(pid, res, scratch):
    models = dict(MODELS)
    for m in ('reloc', 'noreloc') if pid == 'C18' else ('life', 'nolife'):
        del models[m]
    conform.run(pid, res, scratch, SUITE, BUILD, models, {}, (3000, 40000),
                'every transition of the state graph of MCWatcher (two objects, two expectations) as the shortest script that ends '
                'with it, and random behaviours of Watcher (four objects of all kinds, seven expectations, sequences, exceptions, '
                'operations during stack unwinding)', sanitize=SAN)
