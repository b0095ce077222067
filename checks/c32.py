"""C32: the pytest plugin runs launch tests and leaves everything else to pytest."""
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time

import pytest
import launch
import launch_testing  # noqa: F401  (imported before forking)
import launch_testing.actions  # noqa: F401
import launch_testing.markers  # noqa: F401
from launch_testing.pytest import hooks

CASES = {'quick': 260, 'thorough': 9000}
WALL = {'quick': 150, 'thorough': 800}
TIMEOUT = 90
HANG = 60
NEED = {'plain_reports': 300, 'collect_reports': 250, 'broken_modules': 30, 'self_skipped': 10,
        'launch_items': 90, 'launch_passed': 25, 'launch_failed': 20, 'launch_skipped': 10,
        'launch_xfailed': 8, 'launch_xpassed': 8, 'failures_named': 35, 'arguments': 30,
        'importlib': 18, 'same_names': 8, 'reruns': 8, 'invalid': 4, 'several_marks': 18, 'deselected': 12,
        'selected': 18}
RULE = ('a case is a random tree of ordinary, broken and launch test modules, run by pytest with and '
        'without the plugin; everything but launch tests must be reported the same, each launch test once '
        'with the outcome of its tests; non-trivial: at least one launch test and one other module')
ASSUMPTIONS = ['ordinary pytest (without the plugin) tells how ordinary modules are to be reported']

PLAIN = {
    'pass': 'def test_a(): pass\ndef test_b(): pass\n',
    'fail': 'def test_a(): assert False\ndef test_b(): pass\n',
    'skip-module': 'import pytest\npytest.skip("no", allow_module_level=True)\ndef test_a(): pass\n',
    'importorskip': 'import pytest\nx = pytest.importorskip("verif_not_there")\ndef test_a(): pass\n',
    'import-error': 'import verif_not_there\ndef test_a(): pass\n',
    'raise': 'raise ValueError("verif")\ndef test_a(): pass\n',
    'syntax': 'def test_a(:\n',
    'fail-module': 'import pytest\npytest.fail("verif")\n',
    'empty': '',
    'unittest': 'import unittest\nclass TestU(unittest.TestCase):\n'
                '    def test_a(self): pass\n    def test_b(self): self.fail()\n'
                '    @unittest.skip("no")\n    def test_c(self): pass\n',
    'unmarked': 'import unittest\ndef generate_test_description(): raise ValueError()\n'
                'class TestU(unittest.TestCase):\n    def test_a(self): pass\n',
    'other-mark': 'import pytest\n@pytest.mark.skip\ndef generate_test_description(): pass\n'
                  'def test_a(): pass\n',
    'params': 'import pytest\n@pytest.mark.parametrize("x", [1, 2, 3])\ndef test_a(x): assert x != 2\n',
    'class': 'class TestK:\n    def test_a(self, tmp_path): assert tmp_path.exists()\n'
             '    def test_b(self): assert 0\n',
    'fixture-error': 'import pytest\n@pytest.fixture\ndef f(): raise ValueError()\ndef test_a(f): pass\n',
    'pytestmark': 'import pytest\npytestmark = pytest.mark.xfail\ndef test_a(): assert 0\ndef test_b(): pass\n',
    'value': 'generate_test_description = 3\ndef test_a(): pass\n',
    'imported-once': 'import verif_counter\nverif_counter.n += 1\n'
                     'def test_a(): assert verif_counter.n == 1\n',
    'relative': 'import os, sys\ndef test_a(): assert __name__ in sys.modules\n'
                'def test_b(): print(__name__); assert os.path.exists(__file__)\n',
}

LAUNCH = '''
import sys, unittest
import launch, launch_testing, launch_testing.actions, launch_testing.markers
import pytest
import verif_counter

{marks}
def generate_test_description({params}):
    {fault}
    verif_counter.log('describe', {number}, sys.argv[:0])
    return launch.LaunchDescription([
        launch.actions.DeclareLaunchArgument('verif', default_value='none'),
        launch.actions.OpaqueFunction(function=lambda context: verif_counter.log(
            'argument', {number}, context.launch_configurations['verif'])),
        {entities}
        launch_testing.actions.ReadyToTest(),
    ])
'''


def gen_module(rng, number):
    if rng.random() < .6:
        return {'kind': rng.choice(list(PLAIN)), 'number': number}
    classes = []
    decent = rng.random() < .5
    for c in range(rng.choice([1, 1, 2])):
        classes.append({'name': 'Test%s' % 'ABC'[c], 'post': rng.random() < .4, 'tests': [
            [name, rng.choice(['pass', 'pass', 'skip'] if decent else
                              ['pass', 'pass', 'fail', 'error', 'skip', 'xfail', 'xpass'])]
            for name in rng.sample(['test_a', 'test_b', 'test_c'], rng.randint(1, 3))]})
    return {'kind': 'launch', 'number': number, 'classes': classes,
            'params': rng.choice([None, None, None, 2, 3]),
            'only': rng.choice([None, None, 0, 1]),
            'mark': rng.choice([None] * 6 + ['skip', 'skipif', 'xfail', 'xfail', 'strict', 'custom',
                                             'skipif-pair', 'skipif-pair', 'skipif-off', 'xfail-pair', 'xfail-off']),
            'above': rng.random() < .5, 'keep': rng.random() < .6,
            'fault': rng.choice([None] * 18 + ['describe', 'action', 'validate', 'validate'])}


def gen(rng, i, tier):
    folders = []
    number = 0
    names = ['test_m%d.py' % n for n in range(13)]
    rng.shuffle(names)
    for f in range(rng.choice([1, 1, 2, 3])):
        modules = []
        for n in range(rng.randint(1, 4)):
            modules.append(gen_module(rng, number))
            modules[-1]['file'] = names[number % len(names)]
            number += 1
        folders.append({'name': ['.', 'sub', 'sub/deep'][f], 'package': f > 0 and rng.random() < .4,
                        'modules': modules, 'decoys': rng.random() < .3})
    importlib = rng.random() < .3
    style = rng.choice(['folder', 'folder', 'files'])
    if all(m['kind'] == 'launch' for folder in folders for m in folder['modules']):
        style = 'folder'
    if len(folders) > 1 and rng.random() < .5 and (importlib or folders[1]['package']):
        folders[1]['modules'][0]['file'] = folders[0]['modules'][0]['file']
    return {'folders': folders, 'importlib': importlib, 'go_on': rng.random() < .75,
            'stop': rng.random() < .06, 'pytest': rng.random() < .2,
            'args': rng.choice([[], [], ['verif:=x'], ['verif:=a b', 'other:=1'], ['verif:=1', '--launch-args', 'other:=2'], ['other:=3', '--launch-args', 'verif:=1', 'more:=2']]),
            'verbose': rng.random() < .2, 'style': style,
            'python_files': rng.random() < .1, 'again': rng.random() < .15,
            'select': rng.choice([None] * 7 + ['launch_test', 'not launch_test', 'skipif or xfail'])}


def source(m):
    if m['kind'] != 'launch':
        return PLAIN[m['kind']].replace('verif_counter.n', 'verif_counter.n%d' % m['number'])
    marks = ['@pytest.mark.launch_test']
    extra = {'skip': '@pytest.mark.skip(reason="x")', 'skipif': '@pytest.mark.skipif(True, reason="x")',
             'xfail': '@pytest.mark.xfail', 'strict': '@pytest.mark.xfail(strict=True)',
             'custom': '@pytest.mark.filterwarnings("ignore")',
             'skipif-pair': ['@pytest.mark.skipif(%s, reason="%d")' % (n == m['number'] % 2, n) for n in (0, 1)],
             'skipif-off': ['@pytest.mark.skipif(False, reason="x")'] * 2,
             'xfail-pair': ['@pytest.mark.xfail(%s, reason="%d")' % (n == m['number'] % 2, n) for n in (0, 1)],
             'xfail-off': '@pytest.mark.xfail(False, reason="x")'}.get(m['mark'])
    if extra:
        extra = [extra] if isinstance(extra, str) else extra
        marks[0 if m['above'] else 1:0 if m['above'] else 1] = extra
    if m['keep']:
        marks.append('@launch_testing.markers.keep_alive')
    if m['params']:
        marks.append('@launch_testing.parametrize("arg", %r)' % list(range(m['params'])))
    entities = '' if m['keep'] else "launch.actions.ExecuteProcess(cmd=['sleep', '100'], output='log'),"
    if m['fault'] == 'action':
        entities += 'launch.actions.OpaqueFunction(function=lambda context: 1 / 0),'
    text = LAUNCH.format(marks='\n'.join(marks), params=', '.join((['arg'] if m['params'] else []) +
                                                              (['verif_unknown'] if m['fault'] == 'validate' else [])), number=m['number'],
                         fault='raise ValueError("verif")' if m['fault'] == 'describe' else 'pass',
                         entities=entities)
    for cls in m['classes']:
        text += '\n\n'
        if cls['post']:
            text += '@launch_testing.post_shutdown_test()\n'
        text += 'class %s(unittest.TestCase):\n' % cls['name']
        for name, body in cls['tests']:
            if body in ('xfail', 'xpass'):
                text += '    @unittest.expectedFailure\n'
            only = '' if not m['params'] or m['only'] is None else 'if arg == %d: ' % m['only']
            text += '    def %s(self%s):\n' % (name, ', arg' if only else '')
            text += '        verif_counter.log("test", %d, "%s.%s")\n' % (m['number'], cls['name'], name)
            text += '        %s%s\n' % (only, {
                'pass': 'pass', 'xpass': 'pass', 'fail': 'self.fail("no")', 'xfail': 'self.fail("no")',
                'error': 'raise ValueError("bad")', 'skip': 'self.skipTest("not now")'}[body])
    return text


COUNTER = '''
import json, os
n = 0
def log(what, number, value):
    with open(os.environ['VERIF_LOG'], 'a') as f:
        f.write(json.dumps([what, number, value]) + '\\n')
def __getattr__(name):
    return 0
'''


class Again:
    """Run each launch test once more before it counts, as plugins which run failed tests again do."""

    def __init__(self, files):
        self.files = files

    @pytest.hookimpl(tryfirst=True)
    def pytest_runtest_protocol(self, item):
        if item.nodeid.partition('::')[0] in self.files:
            from _pytest.runner import runtestprotocol
            runtestprotocol(item, log=False)


def launch_modules(case):
    return {os.path.normpath(os.path.join(folder['name'], m['file'])): m
            for folder in case['folders'] for m in folder['modules'] if m['kind'] == 'launch'}


class Reporter:
    def __init__(self):
        self.collects, self.reports, self.items = [], [], []

    def pytest_collectreport(self, report):
        self.collects.append([report.nodeid, report.outcome])

    def pytest_itemcollected(self, item):
        self.items.append(item.nodeid)

    def pytest_runtest_logreport(self, report):
        self.reports.append([report.nodeid, report.when, report.outcome, hasattr(report, 'wasxfail'),
                             str(report.longrepr) if report.failed else ''])


def build(case, base):
    for folder in case['folders']:
        path = os.path.join(base, folder['name'])
        os.makedirs(path, exist_ok=True)
        if folder['package']:
            with open(os.path.join(path, '__init__.py'), 'w') as f:
                f.write('')
        if folder['decoys']:
            with open(os.path.join(path, 'helper.py'), 'w') as f:
                f.write('raise RuntimeError("never imported")\n' if not case['python_files'] else '')
            with open(os.path.join(path, 'test_data.txt'), 'w') as f:
                f.write('no')
        for m in folder['modules']:
            with open(os.path.join(path, m['file']), 'w') as f:
                f.write(source(m))


def pytest_run(case, base, plugin, extra=()):
    """Run pytest in a child; return its exit code, what was reported, its output and the journal."""
    result, output = os.path.join(base, '.result'), os.path.join(base, '.output')
    journal = os.path.join(base, '.journal')
    for path in (result, output, journal):
        with open(path, 'w'):
            pass
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            out = os.open(output, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            for fd in (1, 2):
                os.dup2(out, fd)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
            os.environ.update(ROS_LOG_DIR=os.path.join(base, '.roslog'), VERIF_LOG=journal,
                              PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
            os.environ.pop('PYTEST_ADDOPTS', None)
            import types
            counter = types.ModuleType('verif_counter')
            exec(COUNTER, counter.__dict__)
            sys.modules['verif_counter'] = counter
            os.chdir(base)
            reporter = Reporter()
            plugins = [reporter]
            if plugin:
                plugins.append(hooks)
                if case['again']:
                    plugins.append(Again(launch_modules(case)))
                if case['pytest']:
                    from launch_pytest import plugin as launch_plugin
                    plugins.append(launch_plugin)
            args = ['-p', 'no:cacheprovider', '--rootdir', base, '-c', os.path.join(base, 'pytest.ini')]
            args += ['-v'] if case['verbose'] else ['-q']
            if case['importlib']:
                args += ['--import-mode=importlib']
            if case['go_on']:
                args += ['--continue-on-collection-errors']
            if case['stop']:
                args += ['-x']
            if case['style'] == 'files':
                args += [os.path.join(folder['name'], m['file'])
                         for folder in case['folders'] for m in folder['modules']
                         if plugin or m['kind'] != 'launch']
            else:
                args += ['.']
                if not plugin:
                    args += ['--ignore=' + os.path.join(folder['name'], m['file'])
                             for folder in case['folders'] for m in folder['modules']
                             if m['kind'] == 'launch']
            if case['select']:
                args += ['-m', case['select']]
            if plugin and case['args']:
                args += ['--launch-args'] + case['args']
            code = int(pytest.main(args, plugins=plugins))
            with open(result, 'w') as f:
                json.dump([code, reporter.collects, reporter.items, reporter.reports], f)
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(0)
    limit = time.monotonic() + HANG
    hang = False
    while os.waitpid(pid, os.WNOHANG)[0] == 0:
        if time.monotonic() > limit:
            hang = True
            break
        time.sleep(.01)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if hang:
        os.waitpid(pid, 0)
    while True:
        try:
            if os.waitpid(-1, os.WNOHANG)[0] == 0:
                break
        except ChildProcessError:
            break
    with open(output, errors='replace') as f:
        text = f.read()
    with open(journal) as f:
        log = [json.loads(line) for line in f]
    with open(result) as f:
        content = f.read()
    return hang, json.loads(content) if content else None, text, log


def expected_failures(m, number):
    """Names of the tests of a launch test which fail in a run, None if it is the launch that does."""
    bad = []
    for cls in m['classes']:
        for name, body in cls['tests']:
            active = not m['params'] or m['only'] is None or m['only'] == number
            if body in ('fail', 'error') and active or body == 'xpass' or body == 'xfail' and not active:
                bad.append((cls['name'], name))
    return bad


def run(case, obs):
    base = os.path.realpath(tempfile.mkdtemp(prefix='c32-'))
    try:
        build(case, base)
        with open(os.path.join(base, 'pytest.ini'), 'w') as f:
            f.write('[pytest]\n' + ('python_files = *.py\n' if case['python_files'] else ''))
        reference = pytest_run(case, base, False)
        actual = pytest_run(case, base, True)
        judge(case, obs, reference, actual)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def judge(case, obs, reference, actual):
    for name, (hang, result, text, log) in (('without', reference), ('with', actual)):
        if name == 'without' and result is None:
            raise RuntimeError('pytest does not work: %s' % text[-2000:])
        if hang:
            obs.fail('hang', 'pytest did not end in %d s: %s' % (HANG, text[-2000:]))
            return
        if result is None:
            obs.fail('crash', 'pytest crashed: %s' % text[-2500:])
            return
    text, log = actual[2:]
    tail = '\n' + text[-1800:]
    launches = launch_modules(case)
    times = 2 if case['again'] else 1

    def of_launch(nodeid):
        return nodeid.partition('::')[0] in launches
    code0, collects0, items0, reports0 = reference[1]
    code, collects, items, reports = actual[1]
    stopped = case['stop'] and any(r[2] == 'failed' for r in reports) or \
        case['stop'] and any(c[1] == 'failed' for c in collects)
    broken = sum(c[1] == 'failed' for c in collects0)
    obs.count('broken_modules', broken)
    obs.count('self_skipped', sum(c[1] == 'skipped' for c in collects0))
    obs.count('importlib', case['importlib'])
    files = [m['file'] for folder in case['folders'] for m in folder['modules']]
    obs.count('same_names', len(set(files)) < len(files))
    # what is not a launch test is not touched
    if not stopped:
        def others(records):
            return sorted([r for r in records if not of_launch(r[0])])
        plain = [m for folder in case['folders'] for m in folder['modules'] if m['kind'] != 'launch']
        folders = set()
        if not plain or case['style'] == 'folder':
            # there may be nothing left in a folder when the launch tests are ignored
            folders = {''} | {os.path.normpath(f['name']) for f in case['folders']} | {'.'}

        def real(records):
            return [r for r in others(records) if r[0] not in folders]
        obs.equal(real(collects0), real(collects), 'collected', 'the modules collected' + tail)
        obs.count('collect_reports', len(others(collects)))
        for nodeid, outcome in collects:
            if nodeid in folders:
                obs.expect(outcome == 'passed', 'folder', 'collecting %r %s%s' % (nodeid, outcome, tail))
        obs.equal([i for i in items0 if not of_launch(i)], [i for i in items if not of_launch(i)], 'items',
                  'the items collected' + tail)
        interrupted = not case['go_on'] and any(c[1] == 'failed' for c in collects0)
        if not interrupted:
            obs.equal([r[:4] for r in others(reports0)], [r[:4] for r in others(reports)], 'reports',
                      'the reports of other tests' + tail)
        obs.count('plain_reports', len(others(reports)))
    else:
        interrupted = any(c[1] == 'failed' for c in collects)
    # each launch test is one item
    expected_code = code0 not in (0, 5)
    for path, m in launches.items():
        mine = [i for i in items if i.partition('::')[0] == path]
        if case['stop'] and any(c[1] == 'failed' for c in collects):
            continue        # collection may have been stopped before it
        if not obs.expect(len(mine) == 1, 'one-item', '%s has the items %r%s' % (path, mine, tail)):
            continue
        obs.count('launch_items')
        mine_reports = [r for r in reports if r[0] == mine[0]]
        journal = [e for e in log if e[1] == m['number']]
        if interrupted:
            obs.expect(not mine_reports, 'interrupted', 'run in spite of errors: %r%s' % (mine_reports, tail))
            continue
        if stopped and not mine_reports:
            continue
        marks = {'launch_test': True, 'not launch_test': False,
                 'skipif or xfail': (m['mark'] or '').startswith(('skipif', 'xfail', 'strict'))}
        if not marks.get(case['select'], True):
            obs.count('deselected')
            obs.expect(not mine_reports and not journal, 'deselected',
                       'run though it is not selected by -m: %r, %r%s' % (mine_reports, journal, tail))
            continue
        obs.count('selected', bool(case['select']))
        runs = m['params'] or 1
        bad = [name for n in range(runs) for name in expected_failures(m, n)]
        good = not bad and not m['fault']
        if m['mark'] in ('skip', 'skipif', 'skipif-pair'):
            obs.count('several_marks', m['mark'] == 'skipif-pair')
            obs.count('launch_skipped')
            obs.expect([r[1:4] for r in mine_reports][:1] == [['setup', 'skipped', False]] and not journal,
                       'skip', 'a launch test which is to be skipped: %r, %r%s' % (mine_reports, journal, tail))
            continue
        calls = [r for r in mine_reports if r[1] == 'call']
        if not obs.expect(len(calls) == 1, 'one-call', '%s was called %d times%s' % (path, len(calls), tail)):
            continue
        outcome, xfail, longrepr = calls[0][2:]
        if m['mark'] in ('xfail', 'strict', 'xfail-pair'):
            obs.count('several_marks', m['mark'] == 'xfail-pair')
            if good:
                obs.count('launch_xpassed')
                wanted = ('failed', False) if m['mark'] == 'strict' else ('passed', True)
            else:
                obs.count('launch_xfailed')
                wanted = ('skipped', True)
        else:
            obs.count('launch_passed' if good else 'launch_failed')
            wanted = ('passed' if good else 'failed', False)
        obs.expect((outcome, xfail) == wanted, 'outcome', '%s is reported as %r, expected %r, bad tests: %r%s' % (
            path, (outcome, xfail), wanted, bad, tail))
        expected_code |= wanted[0] == 'failed'
        if wanted[0] == 'failed' and not good and not m['fault']:
            for cls, name in bad:
                obs.count('failures_named')
                obs.expect(re.search(r'FAIL: \S*\b%s\.%s\b' % (cls, name), longrepr), 'named',
                           '%s.%s is not named: %s' % (cls, name, longrepr[-800:]))
            good_tests = {(c['name'], t[0]) for c in m['classes'] for t in c['tests']} - set(bad)
            for cls, name in good_tests:
                obs.expect(not re.search(r'FAIL: \S*\b%s\.%s\b' % (cls, name), longrepr), 'named',
                           '%s.%s is reported as failure: %s' % (cls, name, longrepr[-800:]))
        obs.count('reruns', case['again'])
        if m['fault'] == 'validate':
            obs.count('invalid')
            obs.expect(not journal, 'validate', 'a launch test which cannot work was started: %r%s' % (journal, tail))
            obs.expect('verif_unknown' in longrepr or outcome != 'failed', 'validate',
                       'the argument of %s which nothing is passed for is not named%s' % (path, tail))
        # it was run as launch_test does
        if not m['fault']:
            given = dict(a.split(':=', 1) for a in case['args'] if ':=' in a).get('verif', 'none')
            obs.count('arguments', given != 'none')
            values = [e[2] for e in journal if e[0] == 'argument']
            obs.equal([given] * runs * times, values, 'arguments', 'launch arguments' + tail)
            executed = sorted(e[2] for e in journal if e[0] == 'test')
            every = sorted('%s.%s' % (c['name'], t[0]) for c in m['classes'] for t in c['tests']) * runs * times
            obs.equal(sorted(every), executed, 'executed', 'tests executed' + tail)
    if not stopped and not interrupted:
        nothing = not reports
        obs.expect((code in (0, 5)) != bool(expected_code), 'exit-code', 'exit code %r, without launch tests %r%s' % (
            code, code0, tail))
        obs.expect(nothing or code != 5, 'exit-code', 'exit code %r with %r%s' % (code, items, tail))
    if launches and len(files) > len(launches):
        obs.sig([[m['kind'] for f in case['folders'] for m in f['modules']], sorted(r[:4] for r in reports)])
