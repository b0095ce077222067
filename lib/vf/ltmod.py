"""Builds the contents of a launch test from a specification (see checks/c26.py)."""
import json
import os
import threading
import time
import unittest

import launch
import launch.actions
import launch.event_handlers
import launch_testing
import launch_testing.actions
import launch_testing.markers
from launch.conditions import IfCondition
from launch_testing import asserts


class Recorder:
    def __init__(self, path):
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.returned = threading.Event()
        self.pids = {}
        self.codes = {}
        self.texts = {}
        self.attempts = {}
        self.run = -1

    def __call__(self, kind, **kwargs):
        kwargs.update(kind=kind, time=time.monotonic())
        os.write(self.fd, (json.dumps(kwargs) + '\n').encode())


def patch_service(rec):
    original = launch.LaunchService.run
    original = getattr(original, 'original', original)

    def run(self, **kwargs):
        rec.returned.clear()
        rec('launch', keep=not kwargs.get('shutdown_when_idle', True))
        try:
            code = original(self, **kwargs)
        except BaseException as exc:
            rec('returned', code=repr(exc))
            raise
        finally:
            rec.returned.set()
        rec('returned', code=code)
        return code
    run.original = original
    launch.LaunchService.run = run


def delay_shutdown(rec):
    """Let the test thread be slow when it goes on after it has shut down the launch."""
    original = launch.LaunchService.shutdown
    original = getattr(original, 'original', original)

    def shutdown(self, *args, **kwargs):
        result = original(self, *args, **kwargs)
        if threading.current_thread().name == 'test_runner_thread':
            if rec.returned.wait(2):
                time.sleep(.1)
        return result
    shutdown.original = original
    launch.LaunchService.shutdown = shutdown


def script(proc):
    out = "printf '%%b' '%s'; " % proc['out'] if proc['out'] else ''
    if proc['mode'] == 'stay':
        return out + 'exec sleep 100'
    if proc['mode'] == 'stubborn':
        return "trap 'sleep .2; exit 3' INT; " + out + 'while :; do sleep .05; done'
    return out + 'sleep %s; exit %d' % (proc['after'], proc['code'])


def description(spec, rec, params):
    rec('describe', params=params)
    rec.run += 1
    rec.pids.clear()
    rec.codes.clear()
    rec.texts.clear()
    if spec['fault'] == 'describe':
        raise RuntimeError('cannot describe')
    procs = [launch.actions.ExecuteProcess(cmd=['/bin/sh', '-c', script(p)], name='p%d' % n,
                                           output='log')
             for n, p in enumerate(spec['procs'])]

    def started(event, context):
        rec.pids[event.process_name] = event.pid
        rec('started', name=event.process_name, pid=event.pid)

    def exited(event, context):
        rec.codes[event.process_name] = event.returncode
        rec('exited', name=event.process_name, code=event.returncode)
    def wrote(event):
        rec.texts[event.process_name] = rec.texts.get(event.process_name, b'') + event.text
    entities = [
        launch.actions.RegisterEventHandler(launch.event_handlers.OnProcessStart(on_start=started)),
        launch.actions.RegisterEventHandler(launch.event_handlers.OnProcessIO(on_stdout=wrote)),
        launch.actions.RegisterEventHandler(launch.event_handlers.OnProcessExit(on_exit=exited)),
        launch.actions.RegisterEventHandler(launch.event_handlers.OnShutdown(
            on_shutdown=lambda event, context: rec('shutdown', reason=event.reason))),
    ]
    if spec['arguments']:
        entities.append(launch.actions.DeclareLaunchArgument('mode', default_value='none'))
        entities.append(launch.actions.OpaqueFunction(function=lambda context: rec(
            'argument', value=context.launch_configurations['mode'])))
    ready = spec['ready']
    mark = launch.actions.OpaqueFunction(function=lambda context: rec('ready'))
    to_test = launch_testing.actions.ReadyToTest()
    both = [mark, to_test]
    if ready['where'] == 'timer':
        both = [launch.actions.TimerAction(period=ready['delay'], actions=both)]
    elif ready['where'] == 'group':
        both = [launch.actions.GroupAction([launch.actions.GroupAction(both)])]
    elif ready['where'] == 'never':
        both = [launch.actions.GroupAction(both, condition=IfCondition('false'))]
    elif ready['where'] == 'on_start':
        both = [launch.actions.RegisterEventHandler(launch.event_handlers.OnProcessStart(
            target_action=procs[0], on_start=both))]
    elif ready['where'] == 'on_exit':
        both = [launch.actions.RegisterEventHandler(launch.event_handlers.OnProcessExit(
            target_action=procs[0], on_exit=both))]
    elif ready['where'] == 'util':
        both = [launch.actions.TimerAction(period=0., actions=[mark]), launch.actions.TimerAction(
            period=.05, actions=[to_test])]
    if ready['first']:
        entities += both + procs
    else:
        entities += procs + both
    if spec['fault'] == 'shutdown':
        entities.append(launch.actions.TimerAction(period=spec['when'], actions=[
            launch.actions.Shutdown(reason='fault')]))
    elif spec['fault'] == 'raise':
        def fail(context):
            raise RuntimeError('action failed')
        entities.append(launch.actions.TimerAction(period=spec['when'], actions=[
            launch.actions.OpaqueFunction(function=fail)]))
    ld = launch.LaunchDescription(entities)
    return (ld, {'first': procs[0] if procs else None, 'everything': procs}) if spec['context'] else ld


def body_of(spec, rec, cls, test):
    """The function that is the test."""
    name = '%s.%s' % (cls['name'], test['name'])
    kind = test['body']

    def alive():
        out = {}
        for process, pid in list(rec.pids.items()):
            try:
                os.kill(pid, 0)
                with open('/proc/%d/stat' % pid) as f:
                    out[process] = f.read().rpartition(')')[2].split()[0] != 'Z'
            except OSError:
                out[process] = False
        return out

    def work(self, given):
        attempt = rec.attempts[name] = rec.attempts.get(name, 0) + 1
        rec('begin', test=name, alive=alive(), thread=threading.current_thread().name,
            given={k: repr(v) if k.startswith('arg') or k == 'test_args' else v.__class__.__name__
                   for k, v in given.items()})
        try:
            perform(self, given, attempt)
        finally:
            rec('end', test=name, alive=alive())

    def perform(self, given, attempt):
        if test.get('sleep'):
            time.sleep(test['sleep'])
        if 'only' in test and test['only'] != rec.run:
            pass
        elif kind == 'isolated':
            # what a test keeps in its class does not leak into another run
            self.assertFalse(hasattr(type(self), 'mark_' + name))
            setattr(type(self), 'mark_' + name, True)
        elif kind == 'fail':
            self.fail(test.get('message', 'failed'))
        elif kind == 'error':
            raise ValueError(test.get('message', 'error'))
        elif kind == 'skip':
            self.skipTest('not now')
        elif kind == 'exit':
            raise SystemExit(3)
        elif kind in ('sub', 'sub+fail'):
            for n, sub in enumerate(test['subs']):
                with self.subTest(n=n, text='a b.c[d]'):
                    if sub == 'fail':
                        self.assertEqual(n, -1)
                    elif sub == 'error':
                        raise KeyError(n)
                    elif sub == 'skip':
                        self.skipTest('sub')
            if kind == 'sub+fail':
                self.fail('after')
        elif kind == 'xfail':
            self.fail('expected')
        elif kind == 'retry':
            if attempt <= test['fails']:
                if test['how'] == 'error':
                    raise ValueError('no retry')  # not an assertion
                if test['how'] == 'sub':
                    for n in range(2):
                        with self.subTest(n=n):
                            self.fail('sub')
                else:
                    self.fail('try %d' % attempt)
        elif kind == 'linger':
            if not rec.returned.wait(20):
                raise RuntimeError('the launch did not end')
            time.sleep(.2)
        elif kind == 'wait':
            for n, proc in enumerate(spec['procs']):
                if proc['out']:
                    given['proc_output'].assertWaitFor(
                        'token%d' % n, process='p%d-' % n, stream='stdout', timeout=15)
        elif kind == 'post':
            for n, proc in enumerate(spec['procs']):
                # it may have been stopped before it wrote
                if any(process.startswith('p%d-' % n) and b'token%d' % n in text
                       for process, text in rec.texts.items()):
                    asserts.assertInStdout(given['proc_output'], 'token%d' % n, 'p%d-' % n)
            for process, code in rec.codes.items():
                asserts.assertExitCodes(given['proc_info'], [code], process)
                if given['proc_info'][process].returncode != code:
                    raise AssertionError('wrong exit code')
            if len(list(given['proc_info'])) != len(spec['procs']):
                raise AssertionError('wrong number of processes')
        elif kind == 'cleanup':
            self.addCleanup(self.fail, 'cleanup')

    wants = test['wants']
    scope = {'work': work}
    exec('def method(self, %s): work(self, dict(%s))' % (
        ', '.join(wants), ', '.join('%s=%s' % (w, w) for w in wants)), scope)
    method = scope['method']
    method.__name__ = test['name']
    if kind in ('xfail', 'xpass'):
        method = unittest.expectedFailure(method)
    elif kind == 'retry':
        method = launch_testing.markers.retry_on_failure(times=test['times'], delay=test['delay'])(method)
    elif kind == 'skipped':
        method = unittest.skip('always')(method)
    return method


def build(scope, folder):
    with open(os.path.join(folder, 'spec.json')) as f:
        spec = json.load(f)
    rec = scope['rec'] = Recorder(os.path.join(folder, 'log'))
    patch_service(rec)
    if spec['slow']:
        delay_shutdown(rec)
    for cls in spec['classes']:
        members = {'__module__': scope['__name__']}
        for test in cls['tests']:
            members[test['name']] = body_of(spec, rec, cls, test)

        def fixture(name, fault, rec=rec, cls=cls):
            def method(self, proc_info=None, proc_output=None):
                rec(name, cls=cls['name'],
                    given=[proc_info.__class__.__name__, proc_output.__class__.__name__])
                if fault == 'error':
                    raise ValueError('fixture')
                if fault == 'fail':
                    raise AssertionError('fixture')
                if fault == 'skip':
                    raise unittest.SkipTest('fixture')
            return method
        for name, fault in cls['fixtures'].items():
            method = fixture(name, fault)
            members[name] = classmethod(method) if name.endswith('Class') else method
        made = type(cls['name'], (unittest.TestCase,), members)
        if cls['skip']:
            made = unittest.skip('class')(made)
        if cls['post']:
            made = launch_testing.post_shutdown_test()(made)
        scope[cls['name']] = made
    names = spec['params']['names'] if spec['params'] else []
    exec('def generate_test_description(%s): return make(dict(%s))' % (
        ', '.join(names), ', '.join('%s=%s' % (n, n) for n in names)),
        {'make': lambda params: reset(spec, rec, params)}, scope)
    function = scope['generate_test_description']
    decorators = []
    if spec['keep_alive']:
        decorators.append(launch_testing.markers.keep_alive)
    if spec['timeout']:
        decorators.append(launch_testing.ready_to_test_action_timeout(spec['timeout']))
    if spec['params']:
        decorators.insert(0 if spec['params']['inner'] else len(decorators), launch_testing.parametrize(
            ', '.join(names), [tuple(v) if len(names) > 1 else v[0] for v in spec['params']['values']]))
    if spec['fault'] == 'skip':
        decorators.insert(0, unittest.skip('not today'))
    if spec['pytest']:
        import pytest
        decorators.append(pytest.mark.launch_test)
    for decorator in decorators:
        function = decorator(function)
    scope['generate_test_description'] = function


def reset(spec, rec, params):
    rec.attempts.clear()
    return description(spec, rec, params)
