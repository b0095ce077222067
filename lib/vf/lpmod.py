"""The part of a generated pytest module (C29) which runs inside pytest."""
import asyncio
import json
import os
import sys
import threading
import time

import launch
from launch.actions import (ExecuteProcess, GroupAction, OpaqueFunction, RegisterEventHandler,
                            Shutdown, TimerAction)
from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart, OnShutdown
from launch_pytest.actions import ReadyToTest
import pytest

SPEC = {}
LOG = None
instances = [0]
SCRIPTS = {
    'long': """trap 'kill $c; say exit; exit 0' INT TERM
say start; echo ready-text
while :; do sleep 100 & c=$!; wait $c; done""",
    'slow': """trap 'kill $c; sleep 0.2; say exit; exit 3' INT TERM
say start; echo ready-text
while :; do sleep 100 & c=$!; wait $c; done""",
    'stubborn': """trap '' INT
trap 'kill $c; say exit; exit 0' TERM
say start; echo ready-text
while :; do sleep 100 & c=$!; wait $c; done""",
    'short': 'say start; sleep 0.05; echo ready-text; say exit; exit 0',
    'failing': 'say start; echo ready-text; say exit; exit 3',
}
SAY = """say() { printf '{"e":"%s","i":%s,"p":%s,"pid":%s}\\n' $1 $i $p $$ >> "$VF_LP_LOG"; }
i=$1; p=$2
"""


def setup(spec, path):
    SPEC.update(spec)
    global LOG
    LOG = os.open(path, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.environ['VF_LP_LOG'] = path


def log(_event, **more):
    os.write(LOG, (json.dumps(dict(more, e=_event)) + '\n').encode())


def events():
    with open(os.environ['VF_LP_LOG']) as f:
        return [json.loads(line) for line in f.read().splitlines()]


def alive(pid):
    try:
        os.kill(pid, 0)
    except OSError:
        return False
    return True


def logged(kind, **more):
    return OpaqueFunction(function=lambda context: log(kind, **more))


def boom(context):
    log('boom', i=instances[0])
    raise RuntimeError('boom')


def describe(m, f, param):
    """Return (launch description, number of this launch)."""
    spec = SPEC['modules'][m]['fixtures'][f]
    instances[0] += 1
    number = instances[0]
    log('fixture', i=number, m=m, f=f, param=param)
    bad = spec['bad']
    if bad == 'raises':
        raise ValueError('bad fixture')
    if bad == 'type':
        return 3
    if bad == 'empty':
        return []
    processes = []
    for p, kind in enumerate(spec['processes']):
        processes.append(ExecuteProcess(
            cmd=['sh', '-c', SAY + SCRIPTS[kind], 'sh', str(number), str(p)],
            sigterm_timeout='0.3' if kind == 'stubborn' else '20', sigkill_timeout='20',
            output='log'))
    start = list(processes)
    # by an event handler, thus after it was printed
    ready = [logged('ready', i=number), ReadyToTest()]
    if bad == 'two':
        ready.append(GroupAction([ReadyToTest()]) if spec['processes'] else ReadyToTest())
    if bad in ('never', 'early'):
        ready = []
    if bad == 'late':
        ready.append(TimerAction(period=.02, actions=[OpaqueFunction(function=boom)]))
    if bad == 'at_once':
        ready.append(OpaqueFunction(function=boom))
    how = spec['ready']
    if how == 'none':
        entities = start + ready[:1] + ready[2:]
    elif how == 'end':
        entities = start + ready
    elif how == 'first':
        entities = ready + start
    elif how == 'group':
        entities = start + [GroupAction([GroupAction(ready)])]
    elif how == 'timer':
        entities = start + [TimerAction(period=.1, actions=ready)]
    elif how == 'start':
        entities = [RegisterEventHandler(OnProcessStart(
            target_action=processes[0], on_start=ready))] + start
    elif how == 'exit':
        entities = [RegisterEventHandler(OnProcessExit(
            target_action=processes[0], on_exit=ready))] + start
    else:
        text = [b'']

        def on_stdout(event):
            if b'ready-text' in text[0]:
                return None
            text[0] += event.text
            return ready if b'ready-text' in text[0] else None
        entities = [RegisterEventHandler(OnProcessIO(
            target_action=processes[0], on_stdout=on_stdout))] + start
        # which is not found in a callable
        if bad is None:
            gate = ReadyToTest()
            ready = [logged('ready', i=number), gate]
            held = TimerAction(period=3600., actions=[gate])
            entities.append(GroupAction([held, OpaqueFunction(
                function=lambda context: held.cancel())], scoped=False))
    if bad == 'early':
        entities.append(OpaqueFunction(function=boom))
        entities.append(ReadyToTest())
    if bad == 'never':
        entities.append(GroupAction([ReadyToTest()],
                                    condition=launch.conditions.IfCondition('false')))
    down = [logged('shutdown', i=number)]
    if bad == 'down':
        down.append(OpaqueFunction(function=boom))
    entities.insert(0, RegisterEventHandler(OnShutdown(on_shutdown=down)))
    if spec['ends']:
        entities.append(TimerAction(period=spec['ends'], actions=[Shutdown(reason='itself')]))
    description = launch.LaunchDescription(entities)
    if spec['returns'] == 'plain':
        return description
    return [description, number] if spec['returns'] == 'list' else (description, number)


def over(m, f, param, launch_service=None):
    log('fixture-end', m=m, f=f, param=param, **state(launch_service))


def state(launch_service):
    """Return what can be seen of the launches."""
    out = {'running': [], 'known': launch_service is not None,
           'loop': launch_service is not None and launch_service.event_loop is not None}
    for event in events():
        if event['e'] == 'start' and alive(event['pid']):
            out['running'].append([event['i'], event['p']])
    return out


def begin(m, t, part, values):
    """Record that a part of a test is executed, and what it finds."""
    test = SPEC['modules'][m]['tests'][t]
    service = values.get('launch_service')
    thread = threading.current_thread() is threading.main_thread()
    try:
        loop = asyncio.get_running_loop()
    except RuntimeError:
        loop = None
    own = None
    given = values.get('fx%d' % test['f']) if test['f'] is not None else None
    if isinstance(given, (list, tuple)):
        own = given[1]
    elif given is not None and not isinstance(given, launch.LaunchDescription):
        own = 'wrong: %r' % (given,)
    more = {}
    if loop is None and not thread and part == 'pre' and service is not None:
        limit = time.monotonic() + 5
        while service.event_loop is not None and not service.event_loop.is_running() and \
                time.monotonic() < limit:
            time.sleep(.001)
        used = service.event_loop
        more['driven'] = used is None or used.is_running()
    if loop is not None:
        more['same_loop'] = (
            (service is None or service.event_loop in (None, loop)) and
            values.get('event_loop') in (None, loop))
    if values.get('launch_context') is not None and service is not None:
        more['context'] = values['launch_context'] is service.context
    log('stage', m=m, t=t, part=part, cls=values.get('cls'), x=values.get('x'), given=own,
        main=thread, inloop=loop is not None, **state(service), **more)
    return test['wait']


def conclude(m, t, part, values):
    body = SPEC['modules'][m]['tests'][t][part]
    log('stage-end', m=m, t=t, part=part, **state(values.get('launch_service')))
    if body == 'fail':
        assert part == 'nothing'
    elif body == 'raise':
        raise ValueError('raised by the test')
    elif body == 'stop':
        next(iter([]))
    elif body == 'exit':
        sys.exit(3)
    elif body == 'skip':
        pytest.skip('skipped by the test')
    elif body == 'xfail':
        pytest.xfail('xfailed by the test')
    elif body == 'pytest-fail':
        pytest.fail('failed by the test')


def wait_boom():
    i = instances[0]
    limit = time.monotonic() + 10
    while time.monotonic() < limit:
        if any(e['e'] == 'boom' and e['i'] == i for e in events()):
            return
        yield


def stage(m, t, part, values):
    wait = begin(m, t, part, values)
    if wait == 'boom':
        for _ in wait_boom() if part == 'pre' else ():
            time.sleep(.01)
    elif wait:
        time.sleep(wait)
    conclude(m, t, part, values)


async def astage(m, t, part, values):
    wait = begin(m, t, part, values)
    if wait == 'boom':
        for _ in wait_boom() if part == 'pre' else ():
            await asyncio.sleep(.01)
    elif wait:
        await asyncio.sleep(wait)
    conclude(m, t, part, values)


class Reporter:
    """A plugin which records what pytest reports."""

    @pytest.hookimpl(hookwrapper=True, tryfirst=True)
    def pytest_runtest_makereport(self, item, call):
        outcome = yield
        report = outcome.get_result()
        text = str(report.longrepr) if report.failed else ''
        result = report.outcome
        if getattr(report, 'wasxfail', None) is not None:
            result = 'xfailed' if report.skipped else 'xpassed'
        callspec = getattr(item, 'callspec', None)
        params = callspec.params if callspec is not None else {}
        log('report', m=int(item.module.__name__[-1]), name=item.originalname or item.name,
            cls=item.cls.__name__ if item.cls else None,
            param=next((v for k, v in params.items() if k.startswith('fx')), None),
            x=params.get('x'), when=report.when, outcome=result,
            launch_failed='launch service failed' in text, text=text[-600:] if report.failed else '')
