"""C26: launch_test reports every test exactly once and never hides a failure."""
import argparse
import contextlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import xml.etree.ElementTree as ET

import launch
from launch_testing import launch_test
from vf.worker import REPO

CASES = {'quick': 640, 'thorough': 24000}
WALL = {'quick': 150, 'thorough': 800}
TIMEOUT = 90
HANG = 60
NEED = {'pre_tests': 500, 'post_tests': 220, 'alive': 350, 'arguments': 1000, 'fixtures': 550,
        'processes': 330, 'parametrized': 120, 'partly_successful': 5, 'successful': 80,
        'unsuccessful': 120, 'mode_die': 20, 'mode_shutdown': 10, 'mode_raise': 10, 'mode_unready': 8,
        'mode_late': 8, 'mode_skip': 6, 'mode_describe': 7, 'retried': 10, 'xml_tests': 900,
        'failures': 350, 'errors': 100, 'skipped': 180, 'xml_holders': 30, 'messages': 30,
        'launch_arguments': 100, 'via_cli': 8, 'shown': 40, 'via_pytest': 15, 'pytest_failures': 10}
RULE = ('a case is a random launch test (processes, readiness, tests, fixtures, parameters, decorators, '
        'faults), which is run by launch_test; the journal of its tests and processes, the outcome and '
        'the JUnit XML are compared with a model; non-trivial: at least two tests were executed')
ASSUMPTIONS = ['the processes under test are real, a few short scripts']

PYTHON = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VALUES = [1, 'a', 'a.b', '[x]', 'ü', '', 'a b', None, 2.5, True, 'a, b', '[', ']', '(x)', ' ', '<&"', 'a\x1bb']
TOKENS = ['msg1', 'ü', '<&">', '\x00', '\x1b[31m', '\ufffe', '😀', '\n', '\r', '\t', '\ud800', ']]>', ' ']
FILE = """import os
from vf.ltmod import build
build(globals(), os.path.dirname(os.path.abspath(__file__)))
"""
INVALID = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def gen_test(rng, name, post, params, mode, simple, decent):
    wants = ['proc_info', 'proc_output', 'test_args']
    if not post:
        wants.append('launch_service')
    test = {'name': name, 'wants': [w for w in wants if rng.random() < .3], 'sleep': 0}
    for p in params:
        if rng.random() < .5:
            test['wants'].append(p)
    if mode != 'normal':
        test['body'] = 'pass'
        return test
    bodies = ['pass'] * 6 + ['fail', 'error', 'skip', 'sub', 'exit', 'cleanup']
    if simple:
        bodies += ['sub', 'sub+fail', 'isolated', 'xfail', 'xpass', 'retry', 'retry', 'skipped']
    if decent:
        bodies = ['pass'] * 9 + ['fail'] * 3 + ['skip']
        if simple:
            bodies += ['isolated', 'xfail', 'skipped', 'sub']
    body = rng.choice(bodies)
    if body == 'pass':
        body = rng.choice(['pass', 'post' if post else 'wait'])
        if body in ('post', 'wait'):
            test['wants'] = sorted(set(test['wants']) | {'proc_info', 'proc_output'})
        if rng.random() < .2:
            test['sleep'] = rng.choice([.05, .2])
    elif body in ('fail', 'error'):
        test['message'] = ''.join(rng.choice(TOKENS) for _ in range(rng.randint(1, 5)))
        if decent or rng.random() < .5:
            test['only'] = rng.choice([0, 0, 1, 2])
    elif body in ('sub', 'sub+fail'):
        test['subs'] = [rng.choice(['pass', 'skip'] if decent else ['pass', 'pass', 'fail', 'error', 'skip'])
                        for _ in range(rng.randint(1, 4))]
    elif body == 'retry':
        test.update(times=rng.choice([1, 2, 3]), fails=rng.choice([0, 1, 1, 2, 3]),
                    delay=rng.choice([None, .02]), how=rng.choice(['assert', 'assert', 'sub', 'error']))
    test['body'] = body
    return test


def gen(rng, i, tier):
    mode = rng.choice(['normal'] * 13 + ['die', 'die', 'shutdown', 'raise', 'unready', 'late', 'skip',
                                         'describe'])
    if i % 40 == 7:
        mode = 'die'
    params = None
    if rng.random() < .45:
        names = rng.choice([['arg'], ['arg'], ['arg_a', 'arg_b']])
        params = {'names': names, 'inner': rng.random() < .5,
                  'values': [[rng.choice(VALUES) for _ in names] for _ in range(rng.choice([1, 2, 2, 3]))]}
    keep = rng.random() < .3
    procs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        kind = rng.choice(['stay', 'stay', 'stay', 'exit', 'exit', 'stubborn'])
        procs.append({'mode': kind, 'out': rng.choice(['', 'token%d\\n', 'x\\ntoken%d y\\n', 'token%d'])
                      .replace('%d', str(len(procs))),
                      'after': rng.choice([0, 0, .05, .15]), 'code': rng.choice([0, 0, 1, 77])})
    where = rng.choice(['direct', 'direct', 'timer', 'group', 'util', 'on_start', 'on_exit'])
    if where in ('on_start', 'on_exit') and not procs:
        where = 'timer'
    if where == 'on_exit':
        procs[0].update(mode='exit')
    timeout = rng.choice([None, None, 10, 20])
    ready = {'where': where, 'delay': rng.choice([.05, .2]), 'first': rng.random() < .3}
    when = round(rng.uniform(.05, .3), 2)
    if mode == 'die':
        keep = False
        procs = procs or [{'mode': 'exit', 'out': '', 'after': .1, 'code': 0}]
        for p in procs:
            p['mode'] = 'exit'
            if i % 40 == 7 or rng.random() < .1:
                p['out'] = '\\0377\\0303'
                p['code'] = 1
    elif mode in ('unready', 'late'):
        timeout = rng.choice([.2, .4])
        ready = {'where': 'never' if mode == 'unready' else 'timer', 'delay': timeout + 1.5,
                 'first': rng.random() < .3}
        if not procs or rng.random() < .5:
            keep = True
    if mode not in ('die', 'unready', 'late') and not keep and all(p['mode'] == 'exit' for p in procs):
        if rng.random() < .6 or not procs:
            keep = True
        else:
            procs.append({'mode': 'stay', 'out': '', 'after': 0, 'code': 0})
    if mode in ('die', 'shutdown', 'raise') and ready['where'] == 'on_exit':
        ready['where'] = 'direct'
    if mode in ('shutdown', 'raise'):
        timeout = 2
    classes = []
    decent = rng.random() < .5
    letters = list('ABCDEF')
    rng.shuffle(letters)
    for n in range(rng.choice([1, 2, 2, 3])):
        post = rng.random() < .4
        fixtures = {}
        if mode == 'normal':
            for name in ('setUp', 'tearDown', 'setUpClass', 'tearDownClass'):
                if rng.random() < .3:
                    fixtures[name] = None if decent else rng.choice([None] * 6 + ['error', 'fail', 'skip'])
                    if fixtures[name] == 'skip' and name.startswith('tear'):
                        fixtures[name] = 'error'
        simple = not any(fixtures.values())
        names = rng.sample(['test_1', 'test_2', 'test_a_b', 'test_ü', 'test_x'], rng.choice([0, 1, 2, 3, 4]))
        classes.append({
            'name': letters[n] + rng.choice(['Test', 'x']), 'post': post, 'fixtures': fixtures,
            'skip': mode == 'normal' and rng.random() < .06,
            'tests': [gen_test(rng, name, post, params['names'] if params else [], mode, simple, decent)
                      for name in names]})
    if mode in ('die', 'shutdown', 'raise'):
        classes.append({'name': 'Linger', 'post': False, 'fixtures': {}, 'skip': False,
                        'tests': [{'name': 'test_it', 'body': 'linger', 'wants': [], 'sleep': 0}]})
    arguments = [rng.choice(['mode:=x', 'mode:=a b', 'other:=1', 'mode:=ü:=x'])
                 for _ in range(rng.choice([0, 0, 1, 2]))]
    how = 'cli' if i % 24 == 1 else 'pytest' if i % 12 == 5 else 'run'
    return {'mode': mode, 'how': how, 'spec': {
        'params': params, 'keep_alive': keep, 'timeout': timeout, 'pytest': how == 'pytest',
        'arguments': arguments, 'context': rng.random() < .4, 'procs': procs, 'ready': ready,
        'fault': mode if mode in ('shutdown', 'raise', 'skip', 'describe') else None, 'when': when,
        'slow': rng.random() < .3,
        'classes': classes}}


def model(cls, test, number):
    """Tell how often the test is executed and what is reported."""
    fixtures = cls['fixtures']
    out = {'failure': 0, 'error': 0, 'skipped': 0}
    body = test['body']
    if cls['skip'] or body == 'skipped':
        out['skipped'] = 1
        return 0, out
    tags = {'fail': 'failure', 'error': 'error', 'skip': 'skipped'}
    if fixtures.get('setUp'):
        out[tags[fixtures['setUp']]] += 1
        return 0, out
    if fixtures.get('tearDown'):
        out[tags[fixtures['tearDown']]] += 1
    times = 1
    if 'only' in test and test['only'] != number:
        pass
    elif body in tags:
        out[tags[body]] += 1
    elif body == 'exit':
        out['error'] += 1
    elif body in ('sub', 'sub+fail'):
        for sub in test['subs']:
            if sub in tags:
                out[tags[sub]] += 1
        out['failure'] += body == 'sub+fail'
    elif body in ('xpass', 'cleanup'):
        out['failure'] += 1
    elif body == 'retry':
        if test['how'] == 'error':
            out['error'] += test['fails'] > 0
        else:
            times = min(test['fails'] + 1, test['times'])
            if test['fails'] >= test['times']:
                out['failure'] += 2 if test['how'] == 'sub' else 1
    return times, out


def expected_run(spec, number):
    """What is expected of a run that ends normally: {(class, test): (times, outcomes)}, fixtures."""
    tests, holders = {}, {}
    for cls in spec['classes']:
        if not cls['tests']:
            continue
        fault = cls['fixtures'].get('setUpClass')
        if not cls['skip'] and fault:
            holders['setUpClass', cls['name']] = 'skipped' if fault == 'skip' else 'error'
            continue
        for test in cls['tests']:
            tests[cls['name'], test['name']] = model(cls, test, number)
        if not cls['skip'] and cls['fixtures'].get('tearDownClass'):
            holders['tearDownClass', cls['name']] = 'error'
    return tests, holders


def show_arguments(parser, path, folder, obs):
    """Showing the arguments runs nothing."""
    out = io.StringIO()
    args = parser.parse_args([path, '--show-args'])
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        code = launch_test.run(parser, args)
    obs.count('shown')
    obs.expect(not code and 'rguments' in out.getvalue(), 'show-args', '--show-args: %r, %s' % (code, out.getvalue()))
    if os.path.exists(os.path.join(folder, 'log')):
        with open(os.path.join(folder, 'log')) as f:
            log = f.read()
        obs.expect(not re.search('"(launch|started|ready|begin)"', log), 'show-args', '--show-args ran %s' % log)
        os.remove(os.path.join(folder, 'log'))


def execute(case, folder, obs):
    spec = case['spec']
    name = 'test_it.py' if case['how'] == 'pytest' else 'x_launch_test.py'
    path = os.path.join(folder, name)
    with open(path, 'w') as f:
        f.write(FILE)
    with open(os.path.join(folder, 'spec.json'), 'w') as f:
        json.dump(spec, f)
    xml = os.path.join(folder, 'out.xml')
    if case['how'] == 'run':
        parser = argparse.ArgumentParser()
        launch_test.add_arguments(parser)
        args = parser.parse_args([path] + spec['arguments'] + [
            '--package-name', 'pkg', '--junit-xml', xml])
        out = io.StringIO()
        if case['mode'] not in ('describe', 'skip') and len(spec['procs']) != 1:
            show_arguments(parser, path, folder, obs)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                try:
                    code = launch_test.run(parser, args)
                except Exception as exc:
                    code = repr(exc)
                for thread in threading.enumerate():
                    if thread.name == 'test_runner_thread':
                        thread.join(30)
        finally:
            for name in ('run', 'shutdown'):
                method = getattr(launch.LaunchService, name)
                setattr(launch.LaunchService, name, getattr(method, 'original', method))
        return code, out.getvalue(), xml
    env = dict(os.environ, PYTHONPATH=':'.join(
        [os.path.join(REPO, p) for p in ('launch', 'launch_testing', 'launch_xml', 'launch_yaml')] +
        [os.path.join(VERIF, 'lib', 'stubs'), os.path.join(VERIF, 'lib')]),
        PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONDONTWRITEBYTECODE='1', ROS_LOG_DIR=folder,
        PYTHONIOENCODING='utf-8')
    if case['how'] == 'cli':
        cmd = [PYTHON, '-m', 'launch_testing.launch_test', path] + spec['arguments'] + [
            '--package-name', 'pkg', '--junit-xml', xml]
    else:
        with open(os.path.join(folder, 'pytest.ini'), 'w') as f:
            f.write('[pytest]\n')
        cmd = [PYTHON, '-m', 'pytest', '-p', 'launch_testing.pytest.hooks', '-p', 'no:cacheprovider', '-q',
               path]
        if spec['arguments']:
            cmd += ['--launch-args'] + spec['arguments']
    done = subprocess.run(cmd, cwd=folder, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=80)
    return done.returncode, done.stdout.decode(errors='replace'), xml


def run(case, obs):
    folder = tempfile.mkdtemp(prefix='lt-')
    try:
        code, out, xml = execute(case, folder, obs)
        log = []
        if os.path.exists(os.path.join(folder, 'log')):
            with open(os.path.join(folder, 'log')) as f:
                log = [json.loads(line) for line in f]
        if judge(case, code, out, log, obs) and case['how'] != 'pytest' and case['mode'] != 'describe':
            judge_xml(case, xml, out, obs)
    finally:
        shutil.rmtree(folder)


def bad_tests(spec, number):
    tests, holders = expected_run(spec, number)
    return [k for k, (_, o) in tests.items() if o['failure'] or o['error']] + \
        [k for k, o in holders.items() if o == 'error']


def judge(case, code, out, log, obs):
    spec, mode = case['spec'], case['mode']
    obs.count('via_' + case['how'])
    obs.count('mode_' + mode)
    n = len(spec['params']['values']) if spec['params'] else 1
    died = mode in ('die', 'shutdown', 'raise', 'unready', 'late')
    good = not died and (mode == 'skip' or not any(bad_tests(spec, k) for k in range(n)))
    tail = '\n' + out[-1500:]
    if mode == 'die' and any(p['out'].startswith('\\0') and p['code'] for p in spec['procs']) and \
            re.search("UnicodeDecodeError|codec can.t decode", out + str(code)):
        obs.count('died_non_ascii')
        obs.fail('died-non-ascii', 'no report on a launch that died: exit code %r%s' % (code, tail))
        return False
    if mode == 'describe':
        obs.expect(code not in (0, None), 'describe-hidden', 'a failing description: %r%s' % (code, tail))
    elif case['how'] != 'pytest':
        obs.expect(code == (0 if good else 1), 'exit-code', 'exit code %r, expected %s%s' % (
            code, 0 if good else 1, tail))
    else:
        obs.expect(code == (0 if good else 1), 'pytest-exit-code', 'exit code %r, expected %s%s' % (
            code, 0 if good else 1, tail))
        if not good and not died:
            items = [item for k in range(n) for item in expected_run(spec, k)[0].items()]
            for (cls, test), (_, outcome) in items:
                if outcome['failure'] + outcome['error'] and test.isascii():
                    obs.count('pytest_failures')
                    obs.expect(re.search(r'FAIL: [\w.]*%s\.%s' % (cls, test), out), 'pytest-report',
                               '%s.%s is not reported%s' % (cls, test, tail))
            for name, cls in {k for j in range(n) for k, o in expected_run(spec, j)[1].items() if o == 'error'}:
                obs.expect(re.search(r'FAIL: %s \([\w.]*%s\)' % (name, cls), out), 'pytest-report',
                           '%s of %s is not reported%s' % (name, cls, tail))
    if mode == 'normal' and any(bad_tests(spec, k) for k in range(n)) and not all(
            bad_tests(spec, k) for k in range(n)):
        obs.count('partly_successful')
    obs.count('successful' if good else 'unsuccessful')
    # the journal
    runs = []
    for record in log:
        if record['kind'] == 'describe':
            runs.append([])
        if runs:
            runs[-1].append(record)
    total = 0 if mode == 'skip' else 1 if died or mode == 'describe' else n
    if not obs.expect(len(runs) == total, 'runs', '%d runs, expected %d%s' % (len(runs), total, tail)):
        return True
    for number, records in enumerate(runs):
        judge_run(case, number, records, obs, tail)
    return True


def judge_run(case, number, records, obs, tail):
    spec, mode = case['spec'], case['mode']
    kinds = [r['kind'] for r in records]
    params = {}
    if spec['params']:
        params = dict(zip(spec['params']['names'], spec['params']['values'][number]))
        obs.count('parametrized')
    obs.equal(records[0]['params'], params, 'parameters', 'parameters of run %d' % number)
    if mode == 'describe':
        obs.expect(kinds == ['describe'], 'after-describe', 'went on: %s' % kinds)
        return
    if not obs.expect(kinds.count('launch') == 1 and kinds.count('returned') == 1, 'launches',
                      'run %d: %s%s' % (number, kinds, tail)):
        return
    returned = kinds.index('returned')
    end = records[returned]['time']
    begins = [r for r in records if r['kind'] == 'begin']
    expected, holders = expected_run(spec, number)
    kind_of = {'%s.%s' % (c['name'], t['name']): (c, t) for c in spec['classes'] for t in c['tests']}
    exited = {r['name']: r for r in records if r['kind'] == 'exited'}
    started = {r['name']: r for r in records if r['kind'] == 'started'}
    modes = {'p%d' % i: p['mode'] for i, p in enumerate(spec['procs'])}
    mode_of = {name: modes[name.rpartition('-')[0]] for name in started}
    # all that started has ended when the launch is over
    for name, r in started.items():
        obs.count('processes')
        obs.expect(name in exited and exited[name]['time'] <= end, 'left-behind', '%s has not exited%s' % (
            name, tail))
    # readiness
    ready = [r['time'] for r in records if r['kind'] == 'ready']
    if mode in ('unready', 'late'):
        obs.expect(not begins, 'tests-before-ready', 'tests were executed without readiness: %s' % begins)
        begun = records[kinds.index('launch')]['time']
        if spec['keep_alive'] or any(p['mode'] != 'exit' for p in spec['procs']) or mode == 'late':
            obs.count('waited')
            obs.expect(end - begun > spec['timeout'] - .05, 'impatient', 'ended after %.3f s instead of %s' % (
                end - begun, spec['timeout']))
        obs.expect(end - begun < 10, 'timeout', 'timed out after %.1f s instead of %s' % (
            end - begun, spec['timeout']))
        return
    shutdown = [r['time'] for r in records if r['kind'] == 'shutdown']
    ends = [r for r in records if r['kind'] == 'end']
    if begins and not obs.expect(ready, 'tests-before-ready', 'tests without readiness%s' % tail):
        return
    died = mode in ('die', 'shutdown', 'raise')
    pre_end = None
    for r in begins + ends:
        cls, test = kind_of[r['test']]
        if cls['post']:
            obs.count('post_tests' if r['kind'] == 'begin' else 'ends')
            obs.expect(r['time'] > end, 'post-early', '%s was executed before the end of the launch' % r['test'])
            obs.expect(not any(r['alive'].values()), 'post-alive', '%s was executed while processes were '
                       'running: %s' % (r['test'], r['alive']))
            obs.expect(len(r['alive']) == len(spec['procs']), 'not-started', '%s of %d processes' % (
                r['alive'], len(spec['procs'])))
        else:
            obs.count('pre_tests' if r['kind'] == 'begin' else 'ends')
            obs.expect(r['time'] > ready[0], 'tests-before-ready', '%s was executed before the system was '
                       'ready' % r['test'])
            if died:
                continue
            pre_end = max(r['time'], pre_end or 0)
            obs.expect(not shutdown or r['time'] < shutdown[0], 'pre-late',
                       '%s %ss after the shutdown' % (r['test'], r['kind']))
            for name, alive in r['alive'].items():
                if mode_of[name] != 'exit':
                    obs.count('alive')
                    obs.expect(alive, 'pre-dead', '%s was executed when %s was dead already' % (
                        r['test'], name))
        if r['kind'] == 'begin':
            judge_given(spec, cls, test, r, params, obs)
    # each test was executed as often as it should be
    counts = {}
    for r in begins:
        counts[r['test']] = counts.get(r['test'], 0) + 1
    for cls in spec['classes']:
        for test in cls['tests']:
            name = '%s.%s' % (cls['name'], test['name'])
            times = expected.get((cls['name'], test['name']), (0, None))[0]
            if died and cls['post']:
                times = 0
            if died and not cls['post'] and cls['name'] != 'Linger':
                continue
            if mode in ('shutdown', 'raise') and (not ready or shutdown[0] - ready[0] < .2):
                times = min(1, counts.get(name, 0))  # maybe it was over too early
            obs.equal(counts.get(name, 0), times, 'executions', 'executions of %s (%s) in run %d%s' % (
                name, test['body'], number, tail))
            if test['body'] == 'retry' and times > 1:
                obs.count('retried')
    # fixtures got their arguments
    for r in records:
        if r['kind'] in ('setUp', 'tearDown', 'setUpClass', 'tearDownClass'):
            cls = [c for c in spec['classes'] if c['name'] == r['cls']][0]
            obs.count('fixtures')
            obs.equal(r['given'], ['ProcInfoHandler', 'IoHandler'] if cls['post'] else
                      ['ActiveProcInfoHandler', 'ActiveIoHandler'], 'fixture-arguments', '%s of %s' % (
                          r['kind'], r['cls']))
    if not died:
        obs.expect(shutdown, 'no-shutdown', 'no shutdown')
    # the launch argument
    if spec['arguments']:
        values = [a.partition(':=')[2] for a in spec['arguments'] if a.startswith('mode:=')]
        obs.equal([r['value'] for r in records if r['kind'] == 'argument'], values[-1:] or ['none'],
                  'launch-argument', 'values of the launch argument for %s' % spec['arguments'])
        obs.count('launch_arguments')
    if len(begins) > 1:
        obs.sig([[r['kind'], r.get('test'), r.get('name', '')[:2]] for r in records])


def judge_given(spec, cls, test, record, params, obs):
    expected = {}
    for name in test['wants']:
        if name in params:
            expected[name] = repr(params[name])
        elif name == 'test_args':
            expected[name] = repr(dict(a.partition(':=')[::2] for a in spec['arguments']))
        else:
            expected[name] = {'proc_info': 'ProcInfoHandler', 'proc_output': 'IoHandler',
                              'launch_service': 'LaunchService'}[name]
            if not cls['post'] and name != 'launch_service':
                expected[name] = 'Active' + expected[name]
    obs.count('arguments', len(expected))
    obs.equal(record['given'], expected, 'arguments', 'arguments of %s' % record['test'])


def clean(text):
    return INVALID.sub(lambda m: m.group().encode('unicode_escape').decode(), text)


def judge_xml(case, path, out, obs):
    spec, mode = case['spec'], case['mode']
    tail = '\n' + out[-3000:]
    try:
        root = ET.parse(path).getroot()
    except (ET.ParseError, OSError) as exc:
        obs.fail('xml', 'no valid XML: %r' % exc)
        return
    died = mode in ('die', 'shutdown', 'raise', 'unready', 'late')
    suffixes = ['']
    if spec['params']:
        suffixes = ['[%s]' % ', '.join(str(v) for v in values) for values in spec['params']['values']]
    if died:
        suffixes = suffixes[:1]
    suites = list(root)
    obs.equal([s.get('name') for s in suites], [
        clean('pkg.x_launch_test.launch_tests' + suffix) for suffix in suffixes], 'suites', 'test suites')
    totals = {'tests': 0, 'failures': 0, 'errors': 0}
    for number, (suite, suffix) in enumerate(zip(suites, suffixes)):
        if died or mode == 'skip':
            tests = {(c['name'], t['name']): (0, {
                'failure': int(died), 'error': 0, 'skipped': int(not died)})
                for c in spec['classes'] for t in c['tests']}
            holders = {}
        else:
            tests, holders = expected_run(spec, number)
        observed, holders_seen = [], {}
        tags = {'failure': 0, 'error': 0, 'skipped': 0}
        for element in suite:
            outcome = {'failure': 0, 'error': 0, 'skipped': 0}
            for child in element:
                outcome[child.tag] += 1
                tags[child.tag] += 1
            kind = re.match(r'(setUpClass|tearDownClass) \(pkg\.(\w+)\)$', element.get('name'))
            if kind:
                obs.count('xml_holders')
                holders_seen[kind.group(1), kind.group(2)] = [k for k, v in outcome.items() if v]
            else:
                obs.count('xml_tests')
                observed.append(((element.get('classname'), element.get('name')), outcome))
                obs.expect(float(element.get('time')) >= 0, 'xml-time', element.get('time'))
        expected = sorted((('pkg.' + cls, clean(test + suffix)), outcome)
                          for (cls, test), (_, outcome) in tests.items())
        obs.equal(sorted(observed, key=lambda o: o[0]), sorted(expected, key=lambda o: o[0]),
                  'xml-tests', 'tests of %s%s' % (suite.get('name'), tail))
        obs.equal(holders_seen, {k: [v] for k, v in holders.items()}, 'xml-fixtures',
                  'failures of fixtures in %s%s' % (suite.get('name'), tail))
        counts = {k: int(suite.get(k)) for k in ('tests', 'failures', 'errors', 'skipped')}
        obs.equal(counts, {'tests': len(expected), 'failures': tags['failure'], 'errors': tags['error'],
                           'skipped': tags['skipped']}, 'xml-counts', 'counts of %s' % suite.get('name'))
        for key in totals:
            totals[key] += counts[key]
        obs.count('failures', tags['failure'])
        obs.count('errors', tags['error'])
        obs.count('skipped', tags['skipped'])
        if mode == 'normal':
            judge_messages(spec, number, suite, suffix, obs)
    obs.equal({k: int(root.get(k)) for k in totals}, totals, 'xml-totals', 'totals')


def judge_messages(spec, number, suite, suffix, obs):
    messages = {(e.get('classname'), e.get('name')): [c.get('message') for c in e] for e in suite}
    for cls in spec['classes']:
        if cls['skip'] or cls['fixtures'].get('setUp') or cls['fixtures'].get('setUpClass'):
            continue
        for test in cls['tests']:
            if test.get('message') and test.get('only', number) == number:
                got = messages.get(('pkg.' + cls['name'], clean(test['name'] + suffix)), [])
                pieces = INVALID.split(test['message'])
                obs.count('messages')
                obs.expect(any(all(p.strip() in m for p in pieces) for m in got), 'xml-message',
                           '%r does not contain the message %r' % (got, test['message']))
