"""C29: launch_pytest runs each part of a test in the right state of its own launch."""
import json
import os
import shutil
import signal
import sys
import tempfile
import time

from launch_pytest import plugin as launch_plugin
import pytest

from vf import lpmod

CASES = {'quick': 330, 'thorough': 16000}
WALL = {'quick': 150, 'thorough': 800}
TIMEOUT = 90
HANG = 60
NEED = {'pre': 300, 'post': 300, 'instances': 250, 'alive': 300, 'setup_failed': 80,
        'launch_failed': 60, 'failed_reports': 150, 'plain': 40, 'shared': 60, 'in_loop': 200,
        'in_thread': 150, 'post_skipped': 15, 'xfailed': 15, 'skipped': 30, 'fixture_ends': 40,
        'self_ended': 40, 'parametrized': 60, 'class_scope': 30, 'stopped_early': 8}
RULE = ('a case is a random pytest module or two (launch fixtures of any scope, parameters, readiness, '
        'processes, tests of every form and outcome, failing launches) run by pytest with the plugin; '
        'the log written by fixtures, launches, processes and tests and what pytest reported are '
        'compared with a model; non-trivial: at least two parts of tests were executed')
ASSUMPTIONS = ['the processes under test are real, a few short shell scripts',
               'one scope of launch fixtures in each module, not larger than module']

BODIES = ['pass'] * 12 + ['fail', 'raise', 'exit', 'skip', 'xfail', 'pytest-fail', 'stop']
FAILING = ('fail', 'raise', 'exit', 'pytest-fail', 'stop')
SETUP = ('raises', 'type', 'empty', 'two', 'early', 'never')
LASTING = ('long', 'slow', 'stubborn')


def gen_fixture(rng, scope):
    f = {'scope': scope, 'bad': None, 'ends': None, 'auto': True, 'idle': True,
         'params': None, 'style': rng.choice(['return', 'return', 'yield']),
         'returns': rng.choice(['plain', 'tuple', 'tuple', 'list']), 'bare': rng.random() < .5,
         'processes': [rng.choice(['long', 'long', 'slow', 'short', 'failing'] +
                                  ['stubborn'] * (rng.random() < .3))
                       for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]}
    if rng.random() < .35:
        f['params'] = rng.choice([[0], ['a', 'b'], [1, 2]])
    if rng.random() < .35:
        f['bad'] = rng.choice(SETUP + ('late', 'late', 'at_once', 'at_once', 'down', 'down'))
    if f['bad'] in ('late', 'at_once', 'down') and scope != 'function' and f['params']:
        # or else the failure is found by pytest when the next launch is set up
        f['params'] = f['params'][:1]
    ready = ['none', 'end', 'first', 'group', 'timer']
    if f['bad'] is None and f['processes']:
        ready += ['start', 'io', 'start', 'io']
        if f['processes'][0] in ('short', 'failing'):
            ready += ['exit'] * 3
    if f['bad'] in ('two', 'at_once', 'early'):
        ready = ['end', 'group']
    f['ready'] = rng.choice(ready)
    if f['bad'] == 'never':
        f['processes'] = [rng.choice(['short', 'failing']) for _ in f['processes']]
        f['ready'] = 'end'
    elif rng.random() < .3:
        f['idle'] = False
    lasting = any(p in LASTING for p in f['processes']) or not f['idle']
    if f['bad'] is None:
        if rng.random() < .2:
            # not before it is ready
            f['ends'] = rng.choice([.15, .4]) if f['ready'] in ('none', 'end', 'first', 'group') else 5.
            if f['ends'] == 5.:
                f['ends'] = None
        if (f['ends'] or not lasting) and rng.random() < .6:
            f['auto'] = False
    return f


def gen_test(rng, module, scope):
    n = len(module['fixtures'])
    t = {'f': rng.randrange(n), 'form': rng.choice(['fn', 'co', 'gen', 'agen']), 'shutdown': False,
         'pre': rng.choice(BODIES), 'post': rng.choice(BODIES), 'x': None, 'cls': None, 'mark': None,
         'wait': rng.choice([0, 0, 0, .02, .1]), 'yields': 1, 'nofixture': False,
         'args': [a for a in ('launch_service', 'launch_context', 'event_loop', 'fx', 'other')
                  if rng.random() < .5]}
    if scope == 'class':
        t['cls'] = rng.choice(['TestA', 'TestB', 'TestA', 'TestB', None])
    elif rng.random() < .25:
        t['cls'] = rng.choice(['TestA', 'TestB'])
    kind = rng.random()
    if kind < .12:
        t.update(f=None, form='fn', args=['other'] * (rng.random() < .5))
    elif kind < .15:
        t['nofixture'] = True
    if t['form'] in ('fn', 'co'):
        t['shutdown'] = rng.random() < .45 and t['f'] is not None
    else:
        t['shutdown'] = rng.random() < .04
        t['yields'] = rng.choice([1] * 12 + [0, 2])
    if rng.random() < .15:
        t['x'] = rng.choice([[1, 2], ['u'], [3, 4]])
    if rng.random() < .12:
        t['mark'] = rng.choice(['skip', 'xfail', 'xfail'])
    if t['f'] is not None:
        bad = module['fixtures'][t['f']]['bad']
        if bad in ('late', 'at_once', 'down'):
            t.update(pre='pass', post='pass', mark=None, yields=1, nofixture=False)
            if bad == 'late':
                t['wait'] = 'boom'
                if scope == 'function' or t['cls'] is None and scope == 'class':
                    t['shutdown'] = False
    return t


def gen(rng, i, tier):
    case = {'modules': [], 'stop': rng.random() < .06}
    for _ in range(rng.choice([1, 1, 1, 2])):
        scope = rng.choice(['function', 'module', 'class'])
        module = {'scope': scope, 'tests': [], 'fixtures': [
            gen_fixture(rng, scope) for _ in range(rng.choice([1, 1, 2]) if scope == 'function' else 1)]}
        module['tests'] = [gen_test(rng, module, scope) for _ in range(rng.randint(1, 5))]
        case['modules'].append(module)
    return case


def source(m, module):
    lines = ['import launch_pytest', 'import pytest', 'from vf import lpmod as k', '', '',
             '@pytest.fixture', 'def other():', '    return 1', '']
    for f, spec in enumerate(module['fixtures']):
        args = []
        if spec['scope'] != 'function' or not spec['bare']:
            args.append('scope=%r' % spec['scope'])
        if spec['params']:
            args.append('params=%r' % spec['params'])
        if not spec['auto'] or not spec['bare']:
            args.append('auto_shutdown=%r' % spec['auto'])
        if not spec['idle'] or not spec['bare']:
            args.append('shutdown_when_idle=%r' % spec['idle'])
        lines += ['', '@launch_pytest.fixture' + ('(%s)' % ', '.join(args) if args else '')]
        param = "getattr(request, 'param', None)"
        if spec['style'] == 'return':
            lines += ['def fx%d(request):' % f, '    return k.describe(%d, %d, %s)' % (m, f, param)]
        else:
            lines += ['def fx%d(request, launch_service):' % f,
                      '    yield k.describe(%d, %d, %s)' % (m, f, param),
                      '    k.over(%d, %d, %s, launch_service)' % (m, f, param)]
        lines.append('')
    for cls in (None, 'TestA', 'TestB'):
        members = [(t, test) for t, test in enumerate(module['tests']) if test['cls'] == cls]
        if not members:
            continue
        pad = ''
        if cls:
            lines += ['', 'class %s:' % cls]
            pad = '    '
        for t, test in members:
            lines.append('')
            if test['f'] is not None:
                args = [] if test['nofixture'] else ['fixture=fx%d' % test['f']]
                if test['shutdown']:
                    args.append('shutdown=True')
                lines.append(pad + '@pytest.mark.launch(%s)' % ', '.join(args))
            if test['x']:
                lines.append(pad + '@pytest.mark.parametrize("x", %r)' % test['x'])
            if test['mark']:
                lines.append(pad + '@pytest.mark.%s' % test['mark'])
            args = ['self'] * bool(cls)
            args += ['fx%d' % test['f'] if a == 'fx' else a for a in test['args']
                     if not (test['nofixture'] and a == 'fx')] + ['x'] * bool(test['x'])
            is_async = test['form'] in ('co', 'agen')
            lines.append(pad + '%sdef test_%d(%s):' % ('async ' * is_async, t, ', '.join(args)))
            call = '%s(%d, %d, %%r, dict(locals(), cls=%r))' % (
                'await k.astage' if is_async else 'k.stage', m, t, cls)
            if test['form'] in ('gen', 'agen'):
                lines.append(pad + '    ' + call % 'pre')
                if test['yields'] == 0:
                    lines.append(pad + '    if test_%d is not None:' % t if not cls else
                                 pad + '    if self is not None:')
                    lines.append(pad + '        return')
                lines.append(pad + '    yield')
                lines.append(pad + '    ' + call % 'post')
                if test['yields'] == 2:
                    lines.append(pad + '    yield')
            else:
                lines.append(pad + '    ' + call % ('post' if test['shutdown'] else 'pre'))
            lines.append('')
    return '\n'.join(lines) + '\n'


def perform(case):
    """Run pytest in a child; return (events of the log, exit code, output)."""
    base = tempfile.mkdtemp(prefix='c29-')
    files = []
    for m, module in enumerate(case['modules']):
        files.append(os.path.join(base, 'test_m%d.py' % m))
        with open(files[-1], 'w') as f:
            f.write(source(m, module))
    path, output = os.path.join(base, 'log'), os.path.join(base, 'out')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            out = os.open(output, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            for fd in (1, 2):
                os.dup2(out, fd)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
            os.environ.update(ROS_LOG_DIR=os.path.join(base, 'roslog'),
                              PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
            os.environ.pop('PYTEST_ADDOPTS', None)
            os.chdir(base)
            lpmod.setup(case, path)
            code = int(pytest.main(
                files + ['-p', 'no:cacheprovider', '-c', '/dev/null', '--rootdir', base, '-q'] +
                ['-x'] * case['stop'], plugins=[launch_plugin, lpmod.Reporter()]))
            lpmod.log('done', code=code)
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(99)
    limit = time.monotonic() + HANG
    code = None
    while code is None:
        done, status = os.waitpid(pid, os.WNOHANG)
        if done:
            code = os.waitstatus_to_exitcode(status)
        elif time.monotonic() > limit:
            code = 'hang'
        else:
            time.sleep(.01)
    events = []
    if os.path.exists(path):
        with open(path) as f:
            events = [json.loads(line) for line in f.read().splitlines()]
    # a process which was signalled may take its time to be gone
    left = [e for e in events if e['e'] == 'start' and lpmod.alive(e['pid'])]
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if code == 'hang':
        os.waitpid(pid, 0)
    while True:
        try:
            if os.waitpid(-1, os.WNOHANG)[0] == 0:
                break
        except ChildProcessError:
            break
    with open(output, errors='replace') as f:
        text = f.read()
    shutil.rmtree(base, ignore_errors=True)
    return events, code, text, left


def call_outcome(body, mark):
    if body == 'skip':
        return 'skipped'
    if body == 'xfail':
        return 'xfailed'
    if body in FAILING:
        return 'xfailed' if mark == 'xfail' else 'failed'
    return 'xpassed' if mark == 'xfail' else 'passed'


class Judge:

    def __init__(self, case, events, obs, text):
        self.case, self.events, self.obs, self.text = case, events, obs, text
        self.groups, self.instances = {}, {}
        self.wanted, self.blamed = [], set()

    def expect(self, ok, key, what):
        self.obs.expect(ok, key, what if ok else '%s\n%s' % (what, self.text[-1500:]))

    def fixture(self, m, t):
        test = self.case['modules'][m]['tests'][t]
        if test['f'] is None or test['nofixture']:
            return None
        return self.case['modules'][m]['fixtures'][test['f']]

    def keys(self):
        """Return the items that must be run: (m, t, parameter of the fixture, x)."""
        for m, module in enumerate(self.case['modules']):
            for t, test in enumerate(module['tests']):
                fixture = self.fixture(m, t)
                params = [None] if fixture is None or not fixture['params'] else fixture['params']
                if test['nofixture']:
                    # a single item, which is not run
                    yield m, t, None, None
                    continue
                for param in params:
                    for x in test['x'] or [None]:
                        yield m, t, param, x

    def scope(self, m, t):
        module = self.case['modules'][m]
        if module['scope'] == 'class' and module['tests'][t]['cls'] is None:
            return 'function'
        return module['scope']

    def group(self, key, turn):
        m, t, param, x = key
        scope = self.scope(m, t)
        if scope == 'function':
            return key
        return (m, param, self.case['modules'][m]['tests'][t]['cls'] if scope == 'class' else None)

    def judge(self):
        obs, case = self.obs, self.case
        current, item, order = {}, None, []
        items = {}            # key -> list of turns: {'reports', 'stages', 'instance'}
        todo = []             # stages and events since the last report
        for n, e in enumerate(self.events):
            e['n'] = n
            if e['e'] == 'fixture':
                current[e['m'], e['f'], json.dumps(e['param'])] = e['i']
                self.instances[e['i']] = dict(e, shutdown=None, ready=[], starts={}, fixture_end=[])
            elif e['e'] in ('ready', 'shutdown', 'boom'):
                if e['e'] == 'shutdown':
                    # the handlers of a launch stay with the service, which fixture parameters share
                    again = self.instances[e['i']]['shutdown'] is not None
                    self.expect(again or e['i'] == max(self.instances), 'others', 'launch %d was shut down when %d was '
                                'running' % (e['i'], max(self.instances)))
                if e['e'] == 'ready':
                    self.instances[e['i']]['ready'].append(n)
                elif self.instances[e['i']].get(e['e']) is None:
                    self.instances[e['i']][e['e']] = n
            elif e['e'] == 'start':
                starts = self.instances[e['i']]['starts']
                starts[e['p']] = starts.get(e['p'], 0) + 1
                obs.count('processes')
                self.expect(starts[e['p']] == 1, 'started-again',
                            'process %d of launch %d was started again' % (e['p'], e['i']))
            elif e['e'] in ('stage', 'stage-end'):
                todo.append(e)
            elif e['e'] == 'fixture-end':
                i = current.get((e['m'], e['f'], json.dumps(e['param'])))
                self.instances[i]['fixture_end'].append(n)
                obs.count('fixture_ends')
                self.expect(not e['loop'] and not [r for r in e['running'] if r[0] == i],
                            'fixture-end', 'launch %d still ran when its fixture was torn down: %r' % (i, e))
            elif e['e'] == 'report':
                t = int(e['name'].split('_')[1].split('[')[0])
                key = (e['m'], t, e['param'], e['x'])
                if e['when'] == 'setup':
                    test = case['modules'][e['m']]['tests'][t]
                    item = {'reports': [], 'stages': [], 'key': key, 'instance': None, 'n': n}
                    if self.fixture(e['m'], t) is not None:
                        item['instance'] = current.get((e['m'], test['f'], json.dumps(e['param'])))
                    items.setdefault(key, []).append(item)
                    order.append(item)
                self.expect(item is not None and item['key'] == key, 'reports', 'reports are mixed up: %r' % e)
                item['reports'].append(e)
                item['stages'] += todo
                todo = []
        self.items, self.order = items, order
        if case['stop']:
            return
        expected = list(self.keys())
        for key in items:
            self.expect(key in expected, 'surplus', 'a test was made up: %r' % (key,))
        for key in expected:
            m, t, param, x = key
            test = case['modules'][m]['tests'][t]
            two = test['form'] in ('gen', 'agen') and self.fixture(m, t) is not None and \
                self.scope(m, t) != 'function'
            want = 2 if two else 1
            self.expect(len(items.get(key, ())) == want, 'missing', 'test %r of %r was reported %d times' % (
                key, test, len(items.get(key, ()))))
        groups = {}
        for item in order:
            if self.fixture(*item['key'][:2]) is not None:
                groups.setdefault(self.group(item['key'], None), []).append(item)
            else:
                self.plain(item)
        for group, members in groups.items():
            self.judge_group(group, members)
        for item, want, key, what in self.wanted:
            got = [(r['when'], r['outcome']) for r in item['reports']]
            if item['n'] in self.blamed:
                want = want[:-1] + [('teardown', 'failed')]
            self.expect(got == want, key, '%s: %r, expected %r' % (what, got, want))

    def last_of_launch(self, item):
        """Return the item with which the launch of an item is torn down."""
        scope = self.scope(*item['key'][:2])
        if scope == 'function':
            return item
        cls = self.case['modules'][item['key'][0]]['tests'][item['key'][1]]['cls']
        for other in self.order:
            test = self.case['modules'][other['key'][0]]['tests'][other['key'][1]]
            if other['key'][0] == item['key'][0] and (scope == 'module' or test['cls'] == cls):
                item = other
        return item

    def plain(self, item):
        """Judge a test which has nothing to do with a launch."""
        m, t, _, _ = item['key']
        test = self.case['modules'][m]['tests'][t]
        if test['nofixture']:
            self.expect(not item['stages'], 'no-fixture', 'run without a fixture')
            self.wanted.append((item, [('setup', 'skipped'), ('teardown', 'passed')], 'no-fixture',
                                'without a fixture'))
            self.obs.count('skipped')
            return
        self.obs.count('plain')
        if test['mark'] == 'skip':
            want = [('setup', 'skipped'), ('teardown', 'passed')]
            self.expect(not item['stages'], 'skip-run', 'a skipped test was run')
        else:
            want = [('setup', 'passed'), ('call', call_outcome(test['pre'], test['mark'])),
                    ('teardown', 'passed')]
            self.expect([s['part'] for s in item['stages']] == ['pre', 'pre'], 'plain-run', 'stages %r' % item['stages'])
        self.wanted.append((item, want, 'outcome', 'plain test %r' % test))

    def judge_group(self, group, members):
        """Judge the tests that share a launch."""
        case, obs = self.case, self.obs
        m = members[0]['key'][0]
        active = []
        for item in members:
            test = case['modules'][m]['tests'][item['key'][1]]
            if test['mark'] == 'skip':
                self.expect(not item['stages'], 'skip-run', 'run, but marked to be skipped')
                self.wanted.append((item, [('setup', 'skipped'), ('teardown', 'passed')], 'skip-run',
                                    'marked to be skipped'))
                obs.count('skipped')
            else:
                active.append(item)
        if not active:
            return
        fixture = self.fixture(*active[0]['key'][:2])
        bad = fixture['bad']
        if fixture['params']:
            obs.count('parametrized')
        if bad in SETUP:
            for item in active:
                test = case['modules'][m]['tests'][item['key'][1]]
                got = [(r['when'], r['outcome']) for r in item['reports']]
                want = [('setup', 'xfailed' if test['mark'] == 'xfail' else 'failed'),
                        ('teardown', 'passed')]
                self.expect(got == want and not item['stages'], 'setup', 'the launch (%s) could not be set '
                            'up: %r, expected %r; %r' % (bad, got, want, item['stages']))
                obs.count('setup_failed')
            return
        numbers = {item['instance'] for item in active}
        self.expect(len(numbers) == 1 and None not in numbers, 'instances',
                    'the tests of %r (scope %s) were run with launches %r' % (
                        group, self.scope(*active[0]['key'][:2]), numbers))
        number = numbers.pop()
        if number is None:
            return
        made = [i for i, e in self.instances.items() if i in self.groups]
        self.expect(number not in made, 'shared', 'launch %r is shared by %r and %r' % (
            number, group, self.groups.get(number)))
        self.groups[number] = group
        info = self.instances[number]
        obs.count('instances')
        obs.count('shared', len(active) > 1)
        obs.count('class_scope', self.scope(*active[0]['key'][:2]) == 'class')
        test = case['modules'][m]['tests'][active[0]['key'][1]]
        self.expect(info['f'] == test['f'] and info['m'] == m and info['param'] == active[0]['key'][2],
                    'instances', 'launch %r was used for %r' % (info, active[0]['key']))
        lasting = bad in (None, 'down') and fixture['ends'] is None and (
            not fixture['idle'] or any(p in LASTING for p in fixture['processes']))
        obs.count('self_ended', not lasting)
        # ---- parts of the tests
        ready = info['ready'][:1]
        self.expect(len(info['ready']) == 1 and ready[0] < active[0]['n'], 'ready',
                    'launch %d was ready at %r, but the first test was set up at %r' % (
                        number, info['ready'], active[0]['n']))
        seen_post = False
        for item in active:
            for stage in item['stages']:
                self.judge_stage(stage, item, number, info, lasting, fixture)
            parts = {s['part'] for s in item['stages']}
            if 'pre' in parts:
                self.expect(not seen_post, 'order', '%r was run after the end of its launch' % (item['key'],))
            seen_post = seen_post or 'post' in parts
        if fixture['style'] == 'yield':
            self.expect(len(info['fixture_end']) == 1, 'fixture-end', 'the fixture of launch %d was torn down '
                        '%d times' % (number, len(info['fixture_end'])))
        # ---- reports
        fails = bad in ('late', 'at_once', 'down')
        if bad == 'late' and info.get('boom') is None:
            obs.count('unjudged')
            return
        last = self.last_of_launch(active[-1])
        told = [(item['key'], r['when']) for item in active + [last] * (last not in active)
                for r in item['reports'] if r['launch_failed']]
        self.expect(len(told) == fails, 'launch-failure', 'the failed launch %d was reported by %r' % (
            number, told) if fails else 'the launch %d did not fail, but: %r' % (number, told))
        obs.count('launch_failed', fails)
        blamed = False
        for n, item in enumerate(active):
            key = item['key']
            test = case['modules'][m]['tests'][key[1]]
            two = test['form'] in ('gen', 'agen')
            scope = self.scope(*key[:2])
            first = not two or scope == 'function' or not any(i['key'] == key for i in active[:n])
            call, parts = self.call(test, two, scope, first, fails and not blamed, item, active)
            if call == 'launch':
                blamed = True
                call = 'failed'
            want = [('setup', 'passed'), ('call', call), ('teardown', 'passed')]
            self.wanted.append((item, want, 'outcome', 'test %r, item %d of %r' % (test, n, key)))
            ran = [s['part'] for s in item['stages'] if s['e'] == 'stage']
            self.expect(ran == parts, 'parts', 'parts %r of %r were run, expected %r' % (ran, test, parts))
            obs.count('xfailed', call == 'xfailed')
            obs.count('skipped', call == 'skipped')
        if fails and not blamed:
            self.blamed.add(last['n'])

    def call(self, test, two, scope, first, fails, item, active):
        """Return the outcome of the item (or launch) and the parts which are run."""
        mark = test['mark']
        xfail = mark == 'xfail'
        if not two:
            if test['shutdown']:
                if fails:
                    return 'launch', []
                return call_outcome(test['post'], mark), ['post']
            return call_outcome(test['pre'], mark), ['pre']
        if test['shutdown']:
            # which is not allowed, for either item
            return 'xfailed' if xfail else 'failed', []
        good = test['pre'] == 'pass' and test['yields'] > 0
        if scope != 'function':
            if first:
                out = call_outcome(test['pre'], mark)
                if test['pre'] == 'pass' and not good:
                    out = 'xfailed' if xfail else 'failed'
                return out, ['pre']
            if not good:
                self.obs.count('post_skipped')
                return 'skipped', []
            if fails:
                return 'launch', []
        else:
            if test['pre'] != 'pass':
                return call_outcome(test['pre'], mark), ['pre']
            if not good:
                return 'xfailed' if xfail else 'failed', ['pre']
            if fails:
                return 'launch', ['pre']
        out = call_outcome(test['post'], mark)
        if test['post'] == 'pass' and test['yields'] == 2:
            out = 'xfailed' if xfail else 'failed'
        return out, ['pre', 'post'] if scope == 'function' else ['post']

    def judge_stage(self, s, item, number, info, lasting, fixture):
        obs = self.obs
        test = self.case['modules'][s['m']]['tests'][s['t']]
        self.expect((s['m'], s['t']) == item['key'][:2], 'parts', 'part %r was run in %r' % (s, item['key']))
        mine = [r for r in s['running'] if r[0] == number]
        self.expect(len(mine) == len(s['running']), 'others', 'processes of other launches were running: %r, '
                    'launch %d' % (s['running'], number))
        if s['e'] == 'stage':
            obs.count(s['part'])
            self.expect(s['x'] == item['key'][3] and s['cls'] == test['cls'], 'arguments', 'x is %r in %r' % (
                s['x'], item['key']))
            if fixture['returns'] != 'plain' and 'fx' in test['args']:
                self.expect(s['given'] == number, 'arguments', 'the value of the fixture is that of launch %r, '
                            'not %r' % (s['given'], number))
            if test['form'] in ('co', 'agen'):
                obs.count('in_loop')
                self.expect(s['main'] and s['inloop'] and s['same_loop'], 'loop',
                            'a coroutine was not run by the loop of the launch: %r' % s)
            elif s['part'] == 'pre':
                obs.count('in_thread')
                self.expect(not s['main'] and not s['inloop'], 'thread', 'a function was run in the main thread')
                self.expect(s.get('driven', True), 'driven', 'the loop of the launch was not running')
            self.expect(s.get('context', True), 'arguments', 'another launch_context')
        if s['part'] == 'pre':
            if lasting:
                down = info['shutdown']
                obs.count('alive')
                self.expect(down is None or down > s['n'], 'early-shutdown', 'launch %d was shut down at %r, '
                            'the test ran at %d' % (number, down, s['n']))
                self.expect(not s['known'] or s['loop'], 'not-running', 'launch %d was over: %r' % (number, s))
                if s['e'] == 'stage' and fixture['ready'] in ('start', 'io') and \
                        fixture['processes'][0] in LASTING and fixture['ready'] == 'io':
                    self.expect([number, 0] in mine, 'not-alive', 'the process was not running: %r' % s)
                for p, kind in enumerate(fixture['processes']):
                    gone = [e for e in self.events[:s['n']] if e['e'] == 'exit' and e['i'] == number and
                            e['p'] == p and kind in LASTING]
                    self.expect(not gone, 'not-alive', 'process %d of launch %d was gone: %r' % (p, number, s))
        else:
            self.expect(not mine, 'still-running', 'processes %r were running after the end of the launch' % mine)
            self.expect(not s['loop'], 'still-running', 'launch %d had not ended: %r' % (number, s))
            self.expect(info['shutdown'] is not None and info['shutdown'] < s['n'], 'no-shutdown',
                        'launch %d was shut down at %r, but the part after was run at %d' % (
                            number, info['shutdown'], s['n']))


def run(case, obs):
    events, code, text, left = perform(case)
    if code == 'hang':
        obs.fail('hang', 'pytest did not end within %d s: %r\n%s' % (HANG, events[-8:], text[-2500:]))
        return
    if not any(e['e'] == 'done' for e in events):
        obs.fail('crash', 'pytest ended with %r: %s' % (code, text[-2500:]))
        return
    obs.expect(not left, 'left-running', 'processes were left running: %r\n%s' % (left, text[-1500:]))
    failed = [e for e in events if e['e'] == 'report' and e['outcome'] == 'failed']
    obs.count('failed_reports', len(failed))
    judge = Judge(case, events, obs, text)
    judge.judge()
    any_items = any(e['e'] == 'report' for e in events)
    obs.expect(code == (1 if failed else 0) and any_items, 'exit-code', 'exit code %r with failures %r\n%s' % (
        code, failed[:2], text[-1500:]))
    if case['stop']:
        obs.count('stopped_early', bool(failed))
        keys = {(e['m'], e['name'], e['param'], e['x']) for e in failed}
        obs.expect(len(keys) <= 1, 'stop', 'failures after the first: %r' % keys)
    if sum(e['e'] == 'stage' for e in events) >= 2:
        obs.sig([[e[k] for k in ('e', 'part', 't', 'i', 'p', 'when', 'outcome') if k in e] for e in events])
