"""Interface mocks: harness/iface against spec/Interface.tla."""
import conform
import tools

SUITE = conform.Suite('iface', 'TraceInterface')
BUILD, SAN = conform.builder('iface', ['t1', 't2', 't3', 'main'])


def render(ops):
    return [' '.join(map(str, o)) for o in ops]


def fam(name):
    def f(scratch, thorough):
        return conform.model_scripts('MCInterface.tla', 'MCInterface.cfg', dict(FAM=name, WIDE='1' if thorough else '0'), scratch, render)
    return f


def sim(scratch, thorough):
    return conform.simulate('MCInterface.tla', 'MCInterface.cfg', dict(FAM='sim', WIDE='0'), scratch, render, 8000 if thorough else 300, 26, tools.seed() * 10 + 7)


RULE = ('a mocked interface of 39 overloads of 14 methods from three interfaces: every pair of overloads with an expectation each and calls '
        'of both, every pair with an expectation of one and a call of the other, every behaviour of up to 3 (thorough: 4) steps of one '
        'overload, random behaviours of 24 steps')


def check(pid, res, scratch):
    conform.run(pid, res, scratch, SUITE, BUILD, {**{'MCInterface/' + f: fam(f) for f in ('pairs', 'miss', 'deep')}, 'MCInterface/sim': sim}, {},
                (10800, 60000), RULE, sanitize=SAN)
