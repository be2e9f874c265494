"""Test cases under the test frameworks and under the reporters of the library: harness/adapters against
spec/TestCase.tla."""
import conform
import tools

FLAGS = ['-O0']
LIBS = dict(gtest=['-lgtest', '-lpthread'], catch2=['-lCatch2'])
FRAMEWORKS = ('gtest', 'catch2', 'doctest', 'boost')


def render(ops):
    return [' '.join(map(str, o)) for o in ops]


def fam(name, fw):
    def f(scratch, thorough):
        return conform.model_scripts('MCTestCase.tla', 'MCTestCase.cfg', dict(FAM=name, FW=fw, WIDE='1' if thorough else '0'), scratch, render)
    return f


def sim(fw, quick, deep):
    def f(scratch, thorough):
        return conform.simulate('MCTestCase.tla', 'MCTestCase.cfg', dict(FAM='sim', FW=fw, WIDE='0'), scratch, render,
                                deep if thorough else quick, 16, tools.seed() * 10 + 6)
    return f


class Memo:
    """the scripts do not depend on the framework"""
    def __init__(self, fn):
        self.fn = fn
        self.val = None

    def __call__(self, scratch, thorough):
        if self.val is None:
            self.val = self.fn(scratch, thorough)
            return self.val
        return 0, 0, self.val[2]


RULE = ('every test case of up to 4 (thorough: 5) steps of the families of MCTestCase and random ones of up to 14 steps, each as one '
        'test case of the framework')


def suite(fw):
    b, s = conform.builder('adapters', [fw], exe='ad_' + fw, flags=FLAGS, libs=LIBS.get(fw, []))
    return conform.Suite('ad_' + fw, 'TraceTestCase', FW=fw), b, s


def check(pid, res, scratch):
    """under the frameworks"""
    ms = {f: Memo(fam(f, 'any')) for f in ('verdict', 'seq', 'user')}
    ms['sim'] = Memo(sim('any', 300, 6000))
    for fw in FRAMEWORKS:
        if res.violations:
            break
        s, b, san = suite(fw)
        conform.run(pid, res, scratch, s, b, ms, {}, (2400, 16000), RULE)


def check_plain(pid, res, scratch):
    ms = {f: fam(f, 'plain') for f in ('verdict', 'seq', 'user', 'install')}
    ms['sim'] = sim('plain', 300, 8000)
    s, b, san = suite('plain')
    exe, _ = conform.run(pid, res, scratch, s, b, ms, {}, (4000, 30000), RULE, sanitize=san)
    for k in tools.known_findings(pid):
        if exe and k.get('harness') == 'adapters/plain':
            conform.known(pid, res, s, exe, k, scratch)
