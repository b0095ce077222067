"""C31: LaunchTestService ends a launch when, and with the result, its tests ask for."""
import asyncio
import json
import os
import re
import shutil
import tempfile

import ament_index_python
from launch import LaunchDescription
from launch.actions import (EmitEvent, ExecuteProcess, OpaqueCoroutine, OpaqueFunction,
                            TimerAction)
from launch.events import ExecutionComplete, Shutdown
from launch.events.process import ProcessExited, ProcessStdout
from launch_testing.legacy import LaunchTestService
from launch_testing.legacy.output import (create_output_lines_filter, create_output_lines_test,
                                          create_output_regex_test, create_output_test_from_file)
from vf.kit import execute, finish, Handler, judge, new_service

CASES = {'quick': 12000, 'thorough': 250000}
WALL = {'quick': 80, 'thorough': 700}
TIMEOUT = 40
NEED = {'failed_runs': 1000, 'passed_runs': 500, 'matched': 1000, 'unmatched': 300,
        'early_shutdowns': 1000, 'fixture_deaths': 150, 'unstarted_tests': 80, 'filtered': 300,
        'pieces': 5000, 'side_effects': 100, 'stopped': 100, 'dropped': 80, 'codes': 400}
RULE = ('a case is a launch of fixtures, test processes, test actions and output tests in virtual '
        'time; the moment of its shutdown and the result are compared with what the recorded '
        'events ask for; non-trivial: at least two tests')
ASSUMPTIONS = ['virtual time', 'processes are simulated below the asyncio subprocess API',
               'outputs are filtered in pieces of whole lines']

LINES = ['alpha', 'beta 1', 'beta 2', 'pid 12', 'rc 3', '', 'gamma', 'gammma!', 'say alpha now',
         'noise 1', 'noise 2', 'DDS: up']
EXPECTED = ['alpha', 'beta', 'beta 2', 'lph', 'gamma', 'delta', 'alphabeta 1', 'pid', 'noise', 'rc 3']
PATTERNS = ['alpha', '(?m)^beta [0-9]', 'gam+a', 'alpha\\nbeta', 'alphabeta', '(?m)^say \\w+ now$',
            'delta', 'noise [12]\\nnoise', 'pid [0-9]+', 'rc 3', '2gamma', '\\d\\n\\w']


def gen_output(rng, whole):
    text = ''.join(rng.choice(LINES) + '\n' for _ in range(rng.randint(0, 7)))
    if text and rng.random() < .2:
        text = text[:-1]
    pieces = []
    while text:
        if whole:
            at = [n + 1 for n, c in enumerate(text) if c == '\n'] + [len(text)]
            n = rng.choice(at[:3])
        else:
            n = rng.choice([1, 3, len(text), text.find('\n') + 1 or len(text), rng.randint(1, len(text))])
        pieces.append(text[:n])
        text = text[n:]
    t, out = 0.0, []
    for piece in pieces:
        t = round(t + rng.choice([0, .25, rng.uniform(0, 3)]), 3)
        out.append([t, rng.choice([1] * 8 + [2]), piece])
    return out


def gen(rng, i, tier):
    procs = []
    for n in range(rng.randint(1, 4)):
        role = rng.choice(['fixture', 'fixture', 'test', 'test', 'plain'])
        whole = rng.random() < .4
        out = gen_output(rng, whole)
        last = out[-1][0] if out else 0
        life = None if rng.random() < (.5 if role == 'fixture' else .1) else \
            round(last + rng.choice([0, .1, rng.uniform(0, 8)]), 3)
        p = {'role': role, 'whole': whole, 'out': out, 'life': life,
             'code': rng.choice([0, 0, 0, 0, 0, 0, 1, 3, -9]),
             'sig': rng.choice([[0, -2], [.2, 0], [.1, 130]]), 'fault': rng.random() < .04,
             'last': rng.choice(LINES) + '\n' if rng.random() < .2 else None}
        if role == 'fixture':
            p['allowed'] = rng.choice(['default'] * 4 + [[0, 3], [1], [], True, False])
        procs.append(p)
    others = [{'kind': rng.choice(['returns', 'returns', 'returns', 'raises', 'function', 'timer', 'cancelled',
                                      'dropped']),
               't': round(rng.uniform(0, 12), 3)} for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    outputs = []
    for n in range(rng.choice([0, 1, 1, 1, 2, 3])):
        p = rng.randrange(len(procs))
        kind = rng.choice(['lines', 'regex', 'file-lines', 'file-regex'])
        text = ''.join(o[2] for o in procs[p]['out'] if o[1] == 1)
        pool = EXPECTED if 'lines' in kind else PATTERNS
        if rng.random() < .8:
            pool = [e for e in pool if (e in text if 'lines' in kind else re.search(e, text))] or pool
        test = {'proc': p, 'kind': kind, 'expected': rng.sample(pool, min(len(pool), rng.randint(1, 3))),
                'filter': None, 'side': 'shutdown' if rng.random() < .12 else None}
        if procs[p]['whole'] and rng.random() < .5:
            test['filter'] = rng.choice([
                {}, {'prefixes': ['noise', 'al']}, {'patterns': ['alpha', 'm+a']},
                {'rmw': ['DDS\n', '.* 2\n']}, {'prefixes': ['noise'], 'rmw': ['be\nsay\n', '']}, {'patterns': ['.*alpha', 'DDS']},
                {'prefixes': ['DDS'], 'patterns': ['beta [12]$', 'gam']}, 'custom'])
        outputs.append(test)
    return {'procs': procs, 'others': others, 'outputs': outputs,
            'order': rng.random(), 'stop': rng.choice([100.0] * 6 + [round(rng.uniform(.2, 10), 3)])}


def custom_filter(output):
    return output.replace(b'alpha', b'delta')


def filtered(how, text):
    """Return what a filter has to leave of whole lines."""
    if how is None:
        return text
    if how == 'custom':
        return custom_filter(text)
    prefixes = [p.encode() for p in how.get('prefixes', ['pid', 'rc'])]
    patterns = [re.compile(p.encode()) for p in how.get('patterns', [])]
    if 'rmw' in how:
        prefixes += [p.encode() for p in how['rmw'][0].splitlines()]
        patterns += [re.compile(p.encode()) for p in how['rmw'][1].splitlines()]
    left = []
    for line in re.findall(b'[^\n]*\n|[^\n]+', text):
        bare = line.rstrip(b'\n')
        if not any(bare.startswith(p) for p in prefixes) and not any(p.match(bare) for p in patterns):
            left.append(line)
    return b''.join(left)


class OutputTest:
    """What is known of an output test after some events."""

    def __init__(self, spec):
        self.spec, self.text = spec, b''
        self.open = list(spec['expected'])

    def feed(self, data):
        self.text += filtered(self.spec['filter'], data)
        lines = self.text.split(b'\n')
        body = self.text[:-1] if self.text.endswith(b'\n') else self.text
        if 'lines' in self.spec['kind']:
            self.open = [e for e in self.open if not any(e.encode() in line for line in lines)]
        else:
            self.open = [e for e in self.open if not re.search(e.encode(), body)]


def run(case, obs):
    scratch = tempfile.mkdtemp(prefix='vf31')
    try:
        perform(case, obs, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def perform(case, obs, scratch):
    service, loop = new_service()
    tests = LaunchTestService()
    ld = LaunchDescription()
    events = []
    service.context.register_event_handler(Handler(
        lambda event: isinstance(event, (ProcessExited, ProcessStdout, ExecutionComplete, Shutdown)),
        lambda event, context: events.append((loop.now, event))))
    actions, others = [], []
    adders = []
    for n, p in enumerate(case['procs']):
        script = {'out': p['out'], 'exit': None if p['life'] is None else [p['life'], p['code']],
                  'sig': {'2': p['sig']}, 'id': n}
        if p['last']:
            script['last'] = [1, p['last']]
        action = ExecuteProcess(cmd=['sim%d' % n, json.dumps(script)], output='log')
        actions.append(action)

        def add(p=p, action=action):
            if p['role'] == 'fixture':
                kwargs = {} if p['allowed'] == 'default' else {'exit_allowed': p['allowed']}
                result = tests.add_fixture_action(ld, action, **kwargs)
            elif p['role'] == 'test':
                result = tests.add_test_action(ld, action)
            else:
                ld.add_action(action)
                result = action
            obs.expect(result is action, 'returned', 'the action was not returned')
        adders.append(add)
    faults = {'sim%d' % n for n, p in enumerate(case['procs']) if p['fault']}
    loop.fault = lambda cmd: FileNotFoundError(2, 'no such file') if cmd[0] in faults else None

    for o in case['others']:
        async def coroutine(context, o=o):
            await asyncio.sleep(o['t'])
            if o['kind'] == 'raises':
                raise ValueError('verif')
            if o['kind'] == 'dropped':
                raise asyncio.CancelledError()
        if o['kind'] in ('returns', 'raises', 'dropped'):
            action = OpaqueCoroutine(coroutine=coroutine)
        elif o['kind'] == 'function':
            action = OpaqueFunction(function=lambda context: None)
        else:
            action = TimerAction(period=o['t'], actions=[])
            if o['kind'] == 'cancelled':
                ld.add_action(TimerAction(period=o['t'] / 2, actions=[
                    OpaqueFunction(function=lambda context, action=action: action.cancel())]))
        others.append(action)
        adders.append(lambda action=action: tests.add_test_action(ld, action))

    for n, o in enumerate(case['outputs']):
        expected = [e.encode() for e in o['expected']]
        if o['kind'] == 'lines':
            test = create_output_lines_test(expected)
        elif o['kind'] == 'regex':
            test = create_output_regex_test([re.compile(e) for e in expected])
        else:
            path = os.path.join(scratch, 'expected%d' % n)
            with open(path + ('.txt' if o['kind'] == 'file-lines' else '.regex'), 'wb') as f:
                f.write(b'\n'.join(expected) + (b'\n' if n % 2 else b''))
            test = create_output_test_from_file(path)
        output_filter = None
        if o['filter'] == 'custom':
            output_filter = custom_filter
        elif o['filter'] is not None:
            given = {'filtered_' + k: [v.encode() for v in vs]
                     for k, vs in o['filter'].items() if k != 'rmw'}
            copies = {k: list(v) for k, v in given.items()}
            if 'rmw' in o['filter']:
                given['filtered_rmw_implementation'] = 'rmw_verif'
                for kind, text in zip(['prefixes', 'patterns'], o['filter']['rmw']):
                    if text:
                        ament_index_python.RESOURCES['rmw_output_' + kind, 'rmw_verif'] = text
            output_filter = create_output_lines_filter(**given)
            ament_index_python.RESOURCES.clear()
            obs.equal(copies, {k: given[k] for k in copies}, 'lists', 'the lists passed for a filter')
        if output_filter is not None:
            for text in (b''.join(t[2].encode() for p in case['procs'] for t in p['out']), b'', b'\n'):
                for text in (text, text[:len(text) * 2 // 3], text[:-1]):
                    want, left = filtered(o['filter'], text), output_filter(text)
                    if not text.endswith(b'\n') and want.endswith(b'\n') and left == want[:-1]:
                        continue    # the last, incomplete line is filtered
                    obs.equal(want, left, 'filter', 'what a filter leaves')

        def add(n=n, o=o, test=test, output_filter=output_filter):
            tests.add_output_test(ld, actions[o['proc']], test, test_suffix='output%d' % n,
                                  output_filter=output_filter, side_effect=o['side'])
        adders.append(add)
    # Tests may be added in any order
    if case['order'] < .5:
        keys = [(case['order'] * (n + 1) * 7919) % 1 for n in range(len(adders))]
        adders = [a for _, a in sorted(zip(keys, adders), key=lambda pair: pair[0])]
    for add in adders:
        add()
    ld.add_action(TimerAction(period=case['stop'], actions=[EmitEvent(event=Shutdown(reason='stop'))]))
    service.include_launch_description(ld)

    result = []

    class Service:
        def run(self, **kwargs):
            obs.equal({'verif': 1}, kwargs, 'run', 'what is passed to run of the launch service')
            result.append((execute(service, loop), kwargs))
            return result[0][0].rc
    begin = loop.now
    try:
        rc = tests.run(Service(), verif=1)
    finally:
        finish(loop)
    outcome = result[0][0]
    if not judge(outcome, obs, expect_rc=None):
        return
    history(case, obs, events, actions, others, rc, outcome.rc, begin, loop)


def history(case, obs, events, actions, others, rc, launch_rc, begin, loop):
    """Go through the events and see what they ask for."""
    procs = {action: p for action, p in zip(actions, case['procs'])}
    outputs = [OutputTest(o) for o in case['outputs']]
    armed = {}
    for action, p in procs.items():
        if p['role'] == 'test':
            armed[action] = True
    for action in others:
        armed[action] = True
    for o in outputs:
        armed[o] = True
    kinds = {action: o['kind'] for action, o in zip(others, case['others'])}
    wanted, shutdown, failures, unmatched_at_shutdown = None, None, [], []
    exited, codes = set(), []
    lenient = False

    def want(t, why):
        nonlocal wanted
        if wanted is None and shutdown is None:
            wanted = (t, why)

    def end(test):
        armed[test] = False
        if not any(armed.values()):
            want(t, 'all tests have ended')

    def fail(why):
        failures.append(why)
        for test in armed:
            armed[test] = False
        want(t, why)

    for t, event in events:
        if isinstance(event, Shutdown):
            if shutdown is None:
                shutdown = (t, event.reason)
                unmatched_at_shutdown = [o for o in outputs if o.open]
        elif isinstance(event, ProcessStdout):
            obs.count('pieces')
            for o in outputs:
                if actions[o.spec['proc']] is event.action:
                    was_open = bool(o.open)
                    o.feed(event.text)
                    if not o.open:
                        end(o)
                        if was_open:
                            obs.count('matched')
                        if o.spec['side'] == 'shutdown' and shutdown is None:
                            obs.count('side_effects')
                            want(t, 'side effect of a test')
        elif isinstance(event, ProcessExited):
            p = procs[event.action]
            exited.add(event.action)
            allowed = p.get('allowed')
            if p['role'] == 'fixture' and shutdown is None:
                accepted = [0] if allowed == 'default' else allowed
                if not (event.returncode in accepted if isinstance(accepted, list) else accepted):
                    codes.append(event.returncode or 1)
                    obs.count('fixture_deaths')
                    failures.append('a fixture died')
                    want(t, 'a fixture died')
            if p['role'] == 'test':
                if event.returncode != 0:
                    codes.append(event.returncode)
                    fail('a test process failed')
                else:
                    end(event.action)
            for o in outputs:
                if actions[o.spec['proc']] is event.action and o.open:
                    end(o)
        elif isinstance(event, ExecutionComplete):
            future = event.action.get_asyncio_future()
            if event.action in kinds and future is not None and future.cancelled():
                armed[event.action] = False     # it was dropped
                if shutdown is None:
                    obs.count('dropped')
                    lenient |= not any(armed.values())
            elif kinds.get(event.action) == 'raises':
                if armed[event.action]:
                    fail('a test action raised')
            elif event.action in kinds:
                end(event.action)
            elif event.action in procs and procs[event.action]['role'] == 'test' and \
                    event.action not in exited and shutdown is None:
                obs.count('unstarted_tests')
                fail('a test process was not started')

    if shutdown is None:
        obs.fail('no-shutdown', 'the launch ended without a shutdown')
        return
    t, reason = shutdown
    stop = round(begin + case['stop'], 6)
    if launch_rc != 0:
        obs.count('launch_errors')
    if wanted is not None:
        obs.count('early_shutdowns')
        if round(t - wanted[0], 6) != 0:
            obs.fail('late-shutdown', 'the launch should be shut down at %.3f as %s, not at %.3f (%s)' % (
                wanted[0] - begin, wanted[1], t - begin, reason))
    elif reason == 'stop':
        obs.count('stopped')
        obs.expect(round(t, 6) == stop, 'early', 'stopped at %r' % (t - begin))
    elif reason == 'idle':
        obs.expect(all(p.returncode is not None for p in loop.processes), 'early',
                   'idle while there are processes')
    elif not launch_rc and not lenient:
        obs.fail('early-shutdown', 'the launch was shut down at %.3f (%s) for no reason' % (t - begin, reason))
    unmatched = [o for o in outputs if o.open]
    obs.count('unmatched', len(unmatched))
    obs.count('filtered', sum(o.spec['filter'] is not None for o in outputs))
    for o in unmatched:
        failures.append('the output %r does not match %r' % (o.text, o.open))
    if launch_rc:
        failures.append('the launch failed')
    if failures:
        obs.count('failed_runs')
        obs.expect(rc != 0, 'hidden-failure', 'the result is %r though %s' % (rc, '; '.join(failures)))
    elif not unmatched_at_shutdown:
        obs.count('passed_runs')
        obs.expect(rc == 0, 'false-failure', 'the result is %r though nothing failed' % rc)
    if codes and not launch_rc:
        obs.count('codes')
        obs.equal(codes[0], rc, 'result', 'the result of the run')
    if len(armed) >= 2:
        obs.sig([[type(e).__name__ for _, e in events], rc != 0, reason])
