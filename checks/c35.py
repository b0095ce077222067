"""C35: a misconfigured launch test is refused before anything is launched."""
import contextlib
import io
import json
import logging
import os
import shutil
import signal
import sys
import tempfile
import threading
import time

import launch_testing
import launch_testing.actions
import launch_testing.markers
from launch_testing import launch_test
from launch_testing.ready_aggregator import ReadyAggregator
from launch_testing.tools import ProcessProxy

CASES = {'quick': 800, 'thorough': 20000}
WALL = {'quick': 120, 'thorough': 800}
TIMEOUT = 60
HANG = 45
NEED = {'refused': 115, 'accepted': 50, 'tests_run': 180, 'launches': 70, 'shown': 38, 'shown_arguments': 58,
        'verbose': 17, 'aggregated': 200, 'threads': 600, 'repeated': 13, 'direct': 95, 'failing': 9,
        'later_run': 3, 'kept_alive': 9}
RULE = ('a case is a launch test file, well-formed in one of many ways or with one fault, which is given '
        'to the command line; the exit code, the messages, and the journal of what was described, '
        'launched and tested are compared with what the file and the arguments mean; non-trivial: the '
        'file was refused or some test was run')
ASSUMPTIONS = ['a launch may take some seconds on a loaded machine']

FAULTS = ['no-file', 'folder', 'syntax', 'import', 'raise', 'no-function', 'not-callable', 'extra', 'extra-default',
          'extra-kw', 'ready-fn', 'missing', 'few-values', 'many-values', 'no-ready', 'none', 'list', 'triple',
          'describe', 'malformed', 'malformed', 'malformed', 'later-run', 'required', 'option']
BAD_ARGUMENTS = ['abc', ':=x', 'a:=', 'a=b', 'a: =b', '', ' ', 'a==b', ':=', ':=:=', 'ü', '=:b']
HEAD = '''import functools
import json
import os
import unittest
import launch
import launch.actions
import launch.conditions
import launch_testing
import launch_testing.actions
import launch_testing.markers
import launch_testing.util
import pytest

JOURNAL = {journal!r}


def note(*entry):
    with open(JOURNAL, 'a') as f:
        f.write(json.dumps(entry) + chr(10))


def wrapping(function):
    @functools.wraps(function)
    def wrapper(*args, **kwargs):
        note('wrapped')
        return function(*args, **kwargs)
    return wrapper


note('loaded')
'''
VALUES = ['1', "'x'", "'a b'", 'None', "'ü'", '2.5']
TEXTS = ['x', 'a b', 'a:=b', 'k=v', 'ü', ':=', "it's", '1', 'true', 'ends:=', '-x', '{}', '$(x)']


def gen(rng, i, tier):
    r = rng.random()
    if r < .12:
        return {'kind': 'aggregate', 'rounds': [{
            'n': rng.choice([1, 1, 2, 3, 5, 8]), 'threads': rng.choice([1, 2, 3, 6]), 'each': rng.choice([1, 2, 3]),
            'again': rng.random() < .3, 'fails': rng.random() < .15, 'order': rng.random()} for _ in range(6)]}
    if r < .2:
        return {'kind': 'direct', 'which': rng.sample(range(8), 4), 'value': rng.choice(['none', 'int', 'text', 'list'])}
    declared = []
    for n in range(rng.choice([0, 1, 1, 2, 3])):
        declared.append({'name': rng.choice(['mode', 'speed', 'name_%d', 'x.%d', 'ü%d']).replace('%d', str(n)) + '_' * n,
                         'default': rng.choice(TEXTS + ['']), 'description': rng.choice(['', 'what it does', 'ü (%s)', "'q'"]),
                         'choices': False, 'conditional': rng.random() < .25})
    given = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        name = rng.choice([d['name'] for d in declared] + ['other', 'more'])
        given.append([name, rng.choice(TEXTS)])
    params = None
    if rng.random() < .4:
        names = rng.choice([['p'], ['p'], ['p', 'q']])
        params = {'names': names, 'values': [[rng.choice(VALUES) for _ in names] for _ in range(rng.choice([1, 2, 2]))],
                  'tuples': rng.random() < .5, 'spaces': rng.random() < .5}
    case = {'kind': 'file', 'declared': declared, 'given': given, 'params': params,
            'fault': rng.choice(FAULTS) if rng.random() < .55 else None, 'bad': rng.choice(BAD_ARGUMENTS),
            'at': rng.random(), 'show': rng.random() < .35, 'verbose': rng.random() < .3,
            'show_form': rng.choice(['-s', '--show-args', '--show-arguments']),
            'name': rng.choice(['x_launch_test.py', 'test.py', 'with space.py', 'a.b.py', 'ü.py']),
            'relative': rng.random() < .4, 'package': rng.choice([None, None, 'pkg', 'my.pkg', 'launch']),
            'xml': rng.random() < .3, 'context': rng.random() < .3, 'wrapped': rng.choice([None, None, None, 'inner', 'outer']),
            'keyword': rng.random() < .3, 'lambda': rng.random() < .1, 'mark': rng.random() < .2,
            'ready': rng.choice(['direct', 'direct', 'timer', 'group', 'nested', 'included']),
            'alive': rng.choice(['stay', 'stay', 'util', 'marker']), 'tests': rng.choice([1, 2, 3]),
            'post': rng.choice([0, 1]), 'fails': rng.random() < .12, 'pause': rng.choice([0, .05, .2])}
    if case['fault'] in ('few-values', 'many-values', 'later-run', 'missing') and not params:
        case['params'] = {'names': ['p', 'q'], 'values': [['1', '2'], ["'x'", "'y'"]], 'tuples': True,
                          'spaces': False}
    if case['fault'] in ('many-values', 'few-values') or case['params'] and len(case['params']['names']) > 1:
        case['params']['tuples'] = True
    if case['fault'] == 'later-run':
        case['params']['values'] = case['params']['values'][:1] * 2
        case['show'] = False
    if case['fault'] == 'few-values' and len(case['params']['names']) < 2:
        case['fault'] = 'many-values'
    if case['fault'] in ('malformed', 'describe', 'option', 'triple'):
        # showing the arguments doesn't need them
        case['show'] = False
    if case['fault'] == 'required':
        case['show'] = False
        case['declared'].append({'name': 'needed', 'default': None, 'description': '', 'conditional': False})
    if case['fault'] or case['params']:
        case['lambda'] = False
    if case['lambda']:
        case['wrapped'] = None
        case['context'] = False
    return case


def source(case, journal):
    fault, params = case['fault'], case['params']
    out = HEAD.format(journal=journal)
    if fault == 'syntax':
        out += 'def broken(:\n'
    elif fault == 'import':
        out += 'import verif_not_there\n'
    elif fault == 'raise':
        out += 'raise ValueError("verif-broken")\n'
    names = list(params['names']) if params else []
    arguments = list(names)
    if fault == 'missing':
        arguments.pop()
    elif fault == 'extra':
        arguments.append('surplus')
    elif fault == 'extra-default':
        arguments.append('surplus=1')
    elif fault == 'ready-fn':
        arguments.append('ready_fn')
    if case['keyword'] and arguments:
        arguments.insert(0, '*')
    if fault == 'extra-kw':
        arguments += ['surplus'] if '*' in arguments else ['*', 'surplus']
    entities = []
    for d in case['declared']:
        more = '' if d['default'] is None else ', default_value=%r' % d['default']
        if d['description']:
            more += ', description=%r' % d['description']
        declare = 'launch.actions.DeclareLaunchArgument(%r%s)' % (d['name'], more)
        if d['conditional']:
            declare = "launch.actions.GroupAction([%s], scoped=False, condition=launch.conditions.IfCondition('true'))" % declare
        entities.append(declare)
    entities.append("launch.actions.OpaqueFunction(function=lambda context: note('launched', "
                    'dict(context.launch_configurations)))')
    if case['alive'] == 'stay':
        entities.append("launch.actions.ExecuteProcess(cmd=['/bin/sh', '-c', 'exec sleep 100'], output='log')")
    else:
        entities.append("launch.actions.ExecuteProcess(cmd=['/bin/sh', '-c', 'exit 0'], output='log')")
        if case['alive'] == 'util':
            entities.append('launch_testing.util.KeepAliveProc()')
    ready = 'launch_testing.actions.ReadyToTest()'
    ready = {'direct': ready, 'timer': 'launch.actions.TimerAction(period=.05, actions=[%s])' % ready,
             'group': 'launch.actions.GroupAction([%s])' % ready,
             'nested': 'launch.actions.GroupAction([launch.actions.TimerAction(period=0., actions=['
                       'launch.actions.GroupAction([%s])])])' % ready,
             'included': 'launch.LaunchDescription([launch.LaunchDescription([%s])])' % ready}[case['ready']]
    if fault != 'no-ready':
        entities.append('*([] if later() else [%s])' % ready if fault == 'later-run' else ready)
    description = 'launch.LaunchDescription([\n        %s,\n    ])' % ',\n        '.join(entities)
    if fault == 'list':
        description = '[\n        %s,\n    ]' % ',\n        '.join(entities)
    elif fault == 'none':
        description = 'None'
    elif fault == 'triple':
        description = '(%s, {}, {})' % description
    elif case['context']:
        description = "(%s, {'extra': [1, 2]})" % description
    out += '\n\nDESCRIBED = []\n\n\ndef later():\n    DESCRIBED.append(1)\n    return len(DESCRIBED) > 1\n\n\n'
    decorators = []
    if case['alive'] == 'marker':
        decorators.append('@launch_testing.markers.keep_alive')
    if fault == 'required':
        decorators.append('@launch_testing.ready_to_test_action_timeout(2)')
    if case['mark']:
        decorators.append('@pytest.mark.launch_test')
    if case['wrapped'] == 'inner':
        decorators.append('@wrapping')
    if params:
        rows = [list(v) for v in params['values']]
        if fault == 'few-values':
            rows[-1].pop()
        elif fault == 'many-values':
            rows[-1].append("'surplus'")
        rows = ['(%s,)' % ', '.join(row) if len(row) > 1 or params['tuples'] else row[0] for row in rows]
        text = (', ' if params['spaces'] else ',').join(names) + (',' if params['spaces'] else '')
        decorators.insert(0 if case['wrapped'] != 'inner' else -1, '@launch_testing.parametrize(%r, [%s])' % (
            text, ', '.join(rows)))
    if case['wrapped'] == 'outer' and not params:
        decorators.insert(0, '@wrapping')
    body = "    note('described', {%s})\n" % ', '.join('%r: repr(%s)' % (n, n) for n in names
                                                       if n in arguments)
    if fault == 'describe':
        body += '    raise ValueError("verif-describe")\n'
    if fault == 'no-function':
        pass
    elif fault == 'not-callable':
        out += 'generate_test_description = 3\n'
    elif case['lambda']:
        out += 'generate_test_description = lambda: %s\n' % description
        if case['alive'] == 'marker':
            out += 'launch_testing.markers.keep_alive(generate_test_description)\n'
    else:
        out += '%s\ndef generate_test_description(%s):\n%s    return %s\n' % (
            '\n'.join(decorators), ', '.join(arguments), body, description)
    wants = ', '.join(['self', 'test_args'] + (['extra'] if case['context'] else []) + names)
    out += '\n\nclass TestIt(unittest.TestCase):\n'
    for n in range(case['tests']):
        out += '    def test_%d(%s):\n        import time\n        time.sleep(%s)\n        note(%r, dict(test_args))\n' % (
            n, wants, case['pause'], 'test')
        if case['fails'] and n == 0:
            out += '        self.fail("verif-failed")\n'
    if case['post']:
        out += '\n\n@launch_testing.post_shutdown_test()\nclass TestAfter(unittest.TestCase):\n' \
               "    def test_after(%s):\n        note('post', dict(test_args))\n" % wants
    return out


def command_line(argv, folder):
    """Run main() of launch_test."""
    out = io.StringIO()
    logger = logging.getLogger('launch_testing.launch_test')
    before, level, cwd = sys.argv, logger.level, os.getcwd()
    handlers = {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGQUIT)}
    sys.argv = ['launch_test'] + argv
    code = 'no exit'
    try:
        os.chdir(folder)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                launch_test.main()
            except SystemExit as exc:
                code = 0 if exc.code is None else exc.code
            except BaseException as exc:
                code = repr(exc)
            for thread in threading.enumerate():
                if thread.name == 'test_runner_thread':
                    thread.join(30)
    finally:
        os.chdir(cwd)
        sys.argv = before
        logger.setLevel(level)
        for number, handler in handlers.items():
            signal.signal(number, handler)
    return code, out.getvalue()


def shown(declared):
    """What --show-args is to print."""
    lines = ["Arguments (pass arguments as '<name>:=<value>'):"]
    for d in declared:
        lines += ['', "    '%s':%s" % (d['name'], '*' if d['conditional'] else ''),
                  '        ' + (d['description'] or 'no description given')]
        if d['default'] is not None:
            lines.append("        (default: '%s')" % d['default'])
    return lines


def words(case):
    """One of these has to be in the message on the fault."""
    return {'no-file': ['not_there'], 'folder': ['does not exist', 'irectory'], 'syntax': ['invalid syntax', 'SyntaxError', 'line '],
            'import': ['verif_not_there'], 'raise': ['verif-broken'], 'no-function': ['generate_test_description'],
            'not-callable': ['callable', 'int'], 'extra': ['surplus'], 'extra-default': ['surplus'], 'extra-kw': ['surplus'],
            'ready-fn': ['ready_fn'], 'missing': [case['params'] and case['params']['names'][-1]],
            'few-values': ['q', 'values'], 'many-values': ['values', 'surplus'], 'no-ready': ['ReadyToTest'],
            'later-run': ['ReadyToTest'], 'describe': ['verif-describe'], 'malformed': [case['bad']],
            'option': ['--verif-unknown']}.get(case['fault'], [''])


def run_file(case, obs):
    base = tempfile.mkdtemp(prefix='c35-', dir=os.getcwd())
    try:
        judge_file(case, obs, base)
    finally:
        shutil.rmtree(base)


def judge_file(case, obs, base):
    fault = case['fault']
    folder = os.path.join(base, 'a folder')
    os.mkdir(folder)
    journal = os.path.join(base, 'journal')
    path = os.path.join(folder, case['name'])
    with open(path, 'w', encoding='utf-8') as f:
        f.write(source(case, journal))
    given = path
    if fault == 'no-file':
        given = os.path.join(folder, 'not_there.py')
    elif fault == 'folder':
        given = folder
    if case['relative']:
        given = os.path.join('a folder', os.path.relpath(given, folder)) if given != folder else 'a folder'
    arguments = ['%s:=%s' % tuple(g) for g in case['given']]
    if fault == 'malformed':
        arguments.insert(int(case['at'] * (len(arguments) + 1)), case['bad'])
    options = []
    if case['verbose']:
        options.append('--verbose' if case['at'] < .5 else '-v')
    if case['package']:
        options += ['--package-name', case['package']]
    if case['show']:
        options.append(case['show_form'])
    xml = os.path.join(base, 'out.xml')
    if case['xml']:
        options += ['--junit-xml', xml]
    if fault == 'option':
        options.append('--verif-unknown')
    if any(a.startswith('-') for a in arguments) or case['at'] < .5:
        argv = options + ['--', given] + arguments
    else:
        argv = [given] + arguments + options
    begun = time.monotonic()
    code, out = command_line(argv, base)
    took = time.monotonic() - begun
    entries = []
    if os.path.exists(journal):
        with open(journal) as f:
            entries = [json.loads(line) for line in f]
    kinds = [e[0] for e in entries]
    tail = '; %r %r exit code %r, journal %s\n%s' % (fault, argv, code, entries, out[-1500:])
    runs = len(case['params']['values']) if case['params'] else 1
    tests = case['tests']
    if fault:
        obs.count('refused')
        obs.sig((fault, bool(case['params']), case['show']))
        obs.expect(code != 0 and isinstance(code, int), 'accepted-' + fault, 'the fault was not told by the exit code' + tail)
        obs.expect(any(w in out for w in words(case)), 'message-' + fault, 'no message on the fault' + tail)
        if fault == 'later-run':
            obs.count('later_run')
            obs.equal((kinds.count('launched'), kinds.count('test')), (1, tests), 'later-run', 'launches, tests' + tail)
        else:
            obs.expect('test' not in kinds and 'post' not in kinds and ('launched' not in kinds),
                       'launched-' + fault, 'something was launched or tested' + tail)
        obs.expect(took < 40, 'slow-refusal', 'refused after %.1f s%s' % (took, tail))
        obs.count('nontrivial')
        return
    if case['show']:
        obs.count('shown')
        obs.sig(('shown', len(case['declared'])))
        obs.expect(code == 0, 'show-code', 'showing the arguments' + tail)
        obs.expect(not {'launched', 'test', 'post'} & set(kinds), 'show-launched', 'showing launched' + tail)
        lines = out.split('\n')
        expected = shown(case['declared'])
        if not case['declared']:
            expected += ['', '  No arguments.']
        elif any(d['conditional'] for d in case['declared']):
            expected += ['', '* argument(s) which are only used if specific conditions occur']
        start = lines.index(expected[0]) if expected[0] in lines else 0
        obs.equal([line.rstrip() for line in lines[start:start + len(expected)]], [line.rstrip() for line in expected], 'shown', 'shown arguments' + tail)
        for d in case['declared']:
            obs.count('shown_arguments')
        obs.count('nontrivial')
        return
    obs.count('accepted')
    obs.count('failing', case['fails'])
    obs.count('verbose', case['verbose'])
    obs.count('kept_alive', case['alive'] == 'util')
    obs.sig(('run', runs, tests, case['alive'], case['ready'], case['wrapped']))
    obs.expect(code == (1 if case['fails'] else 0), 'exit-code', 'exit code' + tail)
    obs.equal((kinds.count('loaded'), kinds.count('launched'), kinds.count('test'), kinds.count('post')),
              (1, runs, runs * tests, runs * case['post']), 'executed', 'loads, launches, tests, later tests' + tail)
    if not case['lambda']:
        described = [e[1] for e in entries if e[0] == 'described']
        wanted = [dict(zip(case['params']['names'], [repr(eval(v)) for v in row])) for row in case['params']['values']] \
            if case['params'] else [{}]
        obs.equal(described, wanted, 'described', 'descriptions' + tail)
    obs.count('launches', runs)
    last = dict(case['given'])
    configurations = {d['name']: last.get(d['name'], d['default']) for d in case['declared']}
    configurations.update(last)
    for e in entries:
        if e[0] == 'launched':
            obs.equal(e[1], configurations, 'configurations', 'launch configurations' + tail)
        elif e[0] in ('test', 'post'):
            obs.count('tests_run')
            obs.equal(e[1], last, 'test-args', 'test_args' + tail)
    obs.count('repeated', len(last) < len(case['given']))
    obs.equal(os.path.exists(xml), case['xml'], 'report', 'a report is written' + tail)
    obs.count('nontrivial')


def run_aggregate(case, obs):
    for spec in case['rounds']:
        calls, lock, done = [], threading.Lock(), [0]

        def parent():
            with lock:
                calls.append(done[0])
            if spec['again']:
                aggregator.ready_fn()
            if spec['fails']:
                raise ValueError('verif')
        aggregator = ReadyAggregator(parent, spec['n'])
        failures = []

        def work():
            for _ in range(spec['each']):
                with lock:
                    done[0] += 1
                try:
                    aggregator.ready_fn()
                except ValueError:
                    failures.append(1)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            threads = [threading.Thread(target=work, daemon=True) for _ in range(spec['threads'])]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join(20)
        finally:
            sys.setswitchinterval(old)
        obs.expect(not any(t.is_alive() for t in threads), 'aggregate-hang', 'ready_fn blocks: %s' % spec)
        total = spec['threads'] * spec['each']
        what = '%s calls of %s' % (total, spec)
        obs.equal(len(calls), 1 if total >= spec['n'] else 0, 'aggregate', what)
        obs.expect(all(d >= spec['n'] for d in calls), 'aggregate-early', '%s: after %s' % (what, calls))
        obs.equal(len(failures), len(calls) if spec['fails'] else 0, 'aggregate-error', what)
        obs.count('threads', spec['threads'])
        obs.count('aggregated')
    obs.count('nontrivial')


def refusal(function, *types):
    try:
        result = function()
    except types:
        return None
    except BaseException as exc:
        return 'raised %r' % exc
    return 'returned %r' % (result,)


def run_direct(case, obs):
    value = {'none': None, 'int': 3, 'text': 'x', 'list': []}[case['value']]

    def plain():
        pass
    from launch.actions import ExecuteProcess
    from launch_testing.io_handler import ActiveIoHandler
    from launch_testing.proc_info_handler import ActiveProcInfoHandler
    process, info, io_ = ExecuteProcess(cmd=['true']), ActiveProcInfoHandler(), ActiveIoHandler()
    proxy = ProcessProxy(process, info, io_)
    attempts = [
        ('post-shutdown', lambda: launch_testing.post_shutdown_test()(plain), TypeError),
        ('post-shutdown', lambda: launch_testing.post_shutdown_test()(value), TypeError),
        ('retry', lambda: launch_testing.markers.retry_on_failure(times=-1 if value else 0), AssertionError),
        ('proxy', lambda: ProcessProxy(value, info, io_), TypeError),
        ('proxy', lambda: ProcessProxy(process, value, io_), TypeError),
        ('proxy', lambda: ProcessProxy(process, info, value), TypeError),
        ('proxy-filter', lambda: ProcessProxy(process, info, io_, output_filter=value or 3), TypeError),
        ('proxy-condition', lambda: proxy.wait_for_output(condition=value or 'text', timeout=.01), TypeError)]
    for n in case['which']:
        name, function, kind = attempts[n]
        obs.equal(refusal(function, kind), None, 'direct-' + name, '%s with %r' % (name, value))
        obs.count('direct')
    obs.count('nontrivial')


def run(case, obs):
    if case['kind'] == 'aggregate':
        run_aggregate(case, obs)
    elif case['kind'] == 'direct':
        run_direct(case, obs)
    else:
        run_file(case, obs)
