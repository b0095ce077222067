"""C27: launch_pytest's process tools tell the truth about the process."""
import asyncio
import json
import os
import random
import tempfile
import threading
import time

from launch import LaunchDescription, LaunchService
from launch.actions import ExecuteProcess, OpaqueFunction, RegisterEventHandler, TimerAction
from launch.event_handlers import OnExecutionComplete
from launch.events.process import ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout
from launch_pytest.tools import process as tools
from vf.kit import Handler
from vf.real import CHILD, PYTHON

CASES = {'quick': 130, 'thorough': 5000}
WALL = {'quick': 150, 'thorough': 800}
TIMEOUT = 60
HANG = 30
NEED = {'sync': 350, 'async': 350, 'evaluations': 1000, 'handlers': 700, 'satisfied': 230, 'unsatisfied': 250,
        'happened': 70, 'did_not_happen': 120, 'raised': 18, 'woken': 90}
RULE = ('a case launches real processes with random output, and up to 30 concurrent waits and assertions '
        'in the event loop and in threads, each is compared with the recorded events; non-trivial: '
        'there were both satisfied and unsatisfied waits')
ASSUMPTIONS = ['an answer may be late by 3 s (a loaded machine), a missing one is noticed after 6 s',
               'whether a start or an exit before the call counts is left open']
LATE = 3
WORDS = ['alpha', 'beta', 'ü', '→x', '😀', 'end', 'a b', '[1]', '0']


def gen(rng, i, tier):
    procs = []
    for n in range(rng.choice([1, 2, 2, 3])):
        out, texts = [], {1: '', 2: ''}
        for k in range(rng.choice([1, 3, 6, 9])):
            fd = rng.choice([1, 1, 2])
            text = '%s%d%s' % (rng.choice(WORDS), k, rng.choice(['\n', '\n', ' ']))
            texts[fd] += text
            data = text.encode()
            cut = rng.randint(0, len(data))
            for piece in (data[:cut], data[cut:]):
                if piece:
                    out.append([fd, piece.hex(), rng.choice([0, .02, .08, .15])])
        procs.append({'plan': {'out': out, 'stay': rng.choice([0, .3, 20, 20]), 'code': rng.choice([0, 1])},
                      'texts': [texts[1], texts[2]], 'start': rng.choice([0, 0, .1, .2]),
                      'respawn': rng.random() < .15})
        if procs[-1]['respawn']:
            procs[-1]['plan']['stay'] = rng.choice([0, .1])
    waits = []
    for _ in range(rng.choice([6, 15, 30])):
        n = rng.randrange(len(procs))
        tool = rng.choice(['wait_for_output', 'wait_for_output', 'wait_for_stderr', 'assert_output',
                           'assert_stderr', 'wait_for_start', 'wait_for_exit'])
        wait = {'tool': tool, 'sync': rng.random() < .5, 'proc': n, 'slow': 0,
                'start': rng.choice([0, 0, round(rng.uniform(0, .6), 3)]),
                'timeout': rng.choice([None, 15, 0, .05, .2, .2, .5, .8]), 'cond': None}
        if 'start' not in tool and 'exit' not in tool:
            text = procs[n]['texts'][tool.endswith('stderr')]
            r = rng.random()
            if text and r < .6:
                a = rng.randrange(len(text))
                cond = ['in', text[a:a + rng.choice([1, 3, 8])]]
            elif r < .7 and text:
                cond = ['lines', rng.randint(1, text.count('\n') + 1)]
            elif r < .75 and text:
                cond = ['equal', text[:rng.choice([len(text), rng.randrange(len(text) + 1)])]]
            elif r < .8:
                cond = ['always']
            elif r < .85:
                cond = ['raise', rng.randint(1, 3)]
            else:
                # what only another process or stream writes, or none
                cond = ['in', rng.choice(WORDS) + str(rng.randint(0, 6)) + '!']
                other = rng.choice(procs)['texts'][rng.randrange(2)]
                if other and rng.random() < .5:
                    cond = ['in', other]
            wait['cond'] = cond
            if wait['sync']:
                wait['slow'] = rng.choice([0, 0, 0, .03, .1])
            if wait['timeout'] in (None, 15) and not (
                    cond[0] == 'in' and cond[1] in text or cond[0] == 'always' or
                    cond[0] == 'lines' and text.count('\n') >= cond[1]):
                wait['timeout'] = .3
        elif wait['timeout'] in (None, 15):
            # it must be there before it happens
            wait['start'] = 0
            if tool == 'wait_for_exit' and procs[n]['plan']['stay'] > 1:
                wait['timeout'] = .3
        waits.append(wait)
    return {'procs': procs, 'waits': waits, 'busy': rng.random() < .5}


def evaluate(cond, text):
    if cond[0] == 'in':
        return cond[1] in text
    if cond[0] == 'lines':
        return text.count('\n') >= cond[1]
    if cond[0] == 'equal':
        return text == cond[1]
    return cond[0] == 'always'


class Wait:
    def __init__(self, plan, number):
        self.plan = plan
        self.number = number
        self.calls = []
        self.begin = self.end = None
        self.result = self.error = None

    def validate(self, text):
        plan = self.plan
        result = evaluate(plan['cond'], text)
        entry = [time.monotonic(), text, result, threading.get_ident()]
        self.calls.append(entry)
        if plan['cond'][0] == 'raise' and len(self.calls) >= plan['cond'][1]:
            raise ValueError('wait %d' % self.number)
        if plan['slow']:
            time.sleep(plan['slow'])
        if plan['tool'].startswith('assert'):
            assert result, 'wait %d, call %d' % (self.number, len(self.calls))
            return None
        # not only booleans
        return [1] if result else None

    def arguments(self, context, actions):
        plan = self.plan
        args = [context, actions[plan['proc']]]
        if plan['cond']:
            args.append(self.validate)
        kwargs = {}
        if plan['timeout'] is not None or self.number % 2:
            kwargs['timeout'] = plan['timeout']
        return args, kwargs

    def run_sync(self, context, actions):
        args, kwargs = self.arguments(context, actions)
        self.begin = time.monotonic()
        try:
            self.result = getattr(tools, self.plan['tool'] + '_sync')(*args, **kwargs)
        except BaseException as exc:
            self.error = exc
        self.end = time.monotonic()

    async def run_async(self, context, actions):
        args, kwargs = self.arguments(context, actions)
        self.begin = time.monotonic()
        try:
            self.result = await getattr(tools, self.plan['tool'])(*args, **kwargs)
        except Exception as exc:
            self.error = exc
        self.end = time.monotonic()


class Proxy:
    """The launch context, tells which event handlers the tools have registered."""

    def __init__(self, context):
        self.__dict__.update(_context=context, registered=[], removed=[])

    def __getattr__(self, name):
        return getattr(self._context, name)

    def __setattr__(self, name, value):
        setattr(self._context, name, value)

    def register_event_handler(self, handler, *args, **kwargs):
        self.registered.append(handler)
        return self._context.register_event_handler(handler, *args, **kwargs)

    def unregister_event_handler(self, handler):
        self.removed.append(handler)
        return self._context.unregister_event_handler(handler)


def run(case, obs):
    base = tempfile.mkdtemp(prefix='lp-')
    service = LaunchService(noninteractive=True)
    context = service.context
    proxy = Proxy(context)
    actions, journal = [], []

    def record(event, context):
        if type(event) in (ProcessStarted, ProcessExited, ProcessStdout, ProcessStderr):
            journal.append((time.monotonic(), type(event).__name__, actions.index(event.action),
                            getattr(event, 'text', b'')))
        return None

    context.register_event_handler(Handler(lambda event: True, record))
    entities = []
    for n, p in enumerate(case['procs']):
        kwargs = {'respawn': True, 'respawn_delay': .1, 'respawn_max_retries': 1} if p['respawn'] else {}
        action = ExecuteProcess(cmd=[PYTHON, '-I', '-S', CHILD, os.path.join(base, str(n)),
                                     json.dumps(p['plan'])], cached_output=True,
                                sigterm_timeout='1', sigkill_timeout='1', **kwargs)
        actions.append(action)
        entities.append(TimerAction(period=p['start'], actions=[action]) if p['start'] else action)
    entities.append(TimerAction(period=100., actions=[]))  # keeps the launch alive
    if case['busy']:
        # events are matched all the time
        def slow(action):
            time.sleep(.002)
            return False
        for _ in range(3):
            entities.append(RegisterEventHandler(OnExecutionComplete(
                target_action=slow, on_completion=lambda event, context: None)))
        for k in range(40):
            entities.append(TimerAction(period=.02 * k, actions=[OpaqueFunction(
                function=lambda context: None)]))
    waits = [Wait(plan, number) for number, plan in enumerate(case['waits'])]
    threads = []

    lag = [0.]  # how late the event loop and a thread are at most

    async def canary():
        while True:
            now = time.monotonic()
            await asyncio.sleep(.01)
            lag[0] = max(lag[0], time.monotonic() - now - .01)

    def thread_canary():
        while not stop.wait(0):
            now = time.monotonic()
            time.sleep(.01)
            lag[0] = max(lag[0], time.monotonic() - now - .01)

    stop = threading.Event()

    async def delayed(wait):
        await asyncio.sleep(wait.plan['start'])
        await wait.run_async(proxy, actions)

    def delayed_sync(wait):
        time.sleep(wait.plan['start'])
        wait.run_sync(proxy, actions)

    async def body():
        tasks = []
        for wait in waits:
            if wait.plan['sync']:
                thread = threading.Thread(target=delayed_sync, args=(wait,), daemon=True)
                threads.append(thread)
                thread.start()
            else:
                tasks.append(asyncio.ensure_future(delayed(wait)))
        # those which start at once are there before anything happens
        while any(wait.begin is None for wait in waits if not wait.plan['start']):
            await asyncio.sleep(.002)
        await asyncio.sleep(.03)
        service.include_launch_description(LaunchDescription(entities))
        main = asyncio.ensure_future(service.run_async())
        bird = asyncio.ensure_future(canary())
        threading.Thread(target=thread_canary, daemon=True).start()
        until = time.monotonic() + 6
        while any(wait.end is None for wait in waits) and time.monotonic() < until and not main.done():
            await asyncio.sleep(.01)
        over = time.monotonic()
        died = main.done()
        bird.cancel()
        stop.set()
        for task in tasks:
            task.cancel()
        rc = None
        if not died:
            pending = service.shutdown()
            if pending is not None:
                await pending
        try:
            rc = await main
        except Exception as exc:
            rc = exc
        return over, died, rc

    loop = asyncio.new_event_loop()
    try:
        over, died, rc = loop.run_until_complete(body())
    finally:
        asyncio.set_event_loop(None)
        loop.close()
        for name in os.listdir(base):
            os.unlink(os.path.join(base, name))
        os.rmdir(base)
    obs.expect(not died and rc == 0, 'launch', 'the launch ended early or badly: %s %r' % (died, rc))
    judge(case, waits, journal, over, lag[0], obs)
    if all(wait.end is not None for wait in waits):
        left = [h for h in proxy.registered if h not in proxy.removed]
        obs.count('handlers', len(proxy.registered))
        obs.expect(not left, 'handlers', '%d of %d event handlers are left behind' % (
            len(left), len(proxy.registered)))


def judge(case, waits, journal, over, lag, obs):
    full = {}
    states = {}
    for n in range(len(case['procs'])):
        for kind in ('ProcessStdout', 'ProcessStderr'):
            data = b''
            steps = [(0, '')]
            for when, what, k, piece in journal:
                if (what, k) == (kind, n):
                    data += piece
                    steps.append((when, data.decode(errors='ignore')))
            states[n, kind] = steps
            full[n, kind] = data.decode(errors='ignore')
    outcomes = set()
    if lag < .04:
        # the machine is not loaded, so timeouts are rather exact
        obs.count('calm')
        tardy = [w for w in waits if w.end is not None and w.plan['timeout'] is not None and
                 w.end - w.begin > w.plan['timeout'] + w.plan['slow'] * 2 + .1 + lag]
        obs.count('tardy', len(tardy))
        excess = sum(w.end - w.begin - w.plan['timeout'] - w.plan['slow'] * 2 for w in tardy)
        obs.expect(len(tardy) < 3 or excess < .6, 'overdue', 'waits exceeded their timeouts: %s' % [
            (w.end - w.begin, w.plan) for w in tardy])
    for wait in waits:
        plan = wait.plan
        what = '%s %s' % (json.dumps(plan), [c[:3] for c in wait.calls[-3:]])
        begin, timeout = wait.begin, plan['timeout']
        obs.expect(len(wait.calls) < 20000, 'spins', '%d evaluations' % len(wait.calls))
        obs.count('sync' if plan['sync'] else 'async')
        obs.count(plan['tool'])
        if begin is None:
            obs.fail('not-started', what)
            continue
        end = wait.end
        deadline = float('inf') if timeout is None else begin + timeout
        slow = plan['slow'] * (len(wait.calls) + 2)
        if end is not None and timeout is not None:
            obs.expect(end - begin <= timeout + slow + LATE, 'late', 'blocked for %.2f s: %s' % (
                end - begin, what))
        if plan['cond'] is None:
            kind = 'ProcessStarted' if plan['tool'] == 'wait_for_start' else 'ProcessExited'
            times = [when for when, k, n, _ in journal if (k, n) == (kind, plan['proc'])]
            inside = [t for t in times if begin + .03 < t < deadline - .1]
            first = inside[0] if inside else None
            satisfied = judge_end(obs, wait, what, first, over, deadline)
            if satisfied is None:
                continue
            if wait.error is not None:
                obs.fail('error', '%r: %s' % (wait.error, what))
            elif satisfied:
                obs.expect(any(t >= begin - .001 and t <= end for t in times), 'untrue',
                           'no %s between %.3f and %.3f (%s): %s' % (kind, begin, end, times, what))
            else:
                obs.expect(not inside, 'missed', '%s at %s, waited from %.3f to %.3f: %s' % (
                    kind, inside, begin, end, what))
                obs.expect(end - begin >= (timeout or 0) - .02, 'early', 'gave up after %.3f s: %s' % (
                    end - begin, what))
            outcomes.add(bool(satisfied))
            obs.count('happened' if satisfied else 'did_not_happen')
            continue
        kind = 'ProcessStderr' if plan['tool'].endswith('stderr') else 'ProcessStdout'
        steps = states[plan['proc'], kind]
        for call in wait.calls:
            obs.count('evaluations')
            if not full[plan['proc'], kind].startswith(call[1]):
                obs.fail('foreign', '%r is not what the process wrote (%r): %s' % (
                    call[1], full[plan['proc'], kind], what))
                break
        if plan['cond'][0] == 'raise':
            if len(wait.calls) >= plan['cond'][1]:
                obs.count('raised')
                obs.expect(isinstance(wait.error, ValueError), 'raise', '%r: %s' % (wait.error, what))
                continue
        # when the condition held according to the events
        spans = []
        for k, (when, text) in enumerate(steps):
            until = steps[k + 1][0] if k + 1 < len(steps) else float('inf')
            if evaluate(plan['cond'], text):
                spans.append((max(when, begin), min(until, deadline)))
        monotone = plan['cond'][0] != 'equal'
        long = [a for a, b in spans if b - a > (.1 if monotone else .3 + slow)]
        if plan['timeout'] == 0:
            long = [a for a, b in spans if a == b == begin]
            long = [] if not monotone else long
        satisfied = judge_end(obs, wait, what, min(long) if long else None, over, deadline, slow)
        if satisfied is None:
            continue
        if satisfied:
            obs.expect(wait.calls and wait.calls[-1][2], 'untrue', 'reported success: %s' % what)
        else:
            obs.expect(not long, 'missed', 'held at %s, waited from %.3f to %.3f: %s' % (
                long, begin, end, what))
            obs.expect(wait.calls, 'unasked', 'the condition was not evaluated: %s' % what)
            obs.expect(end - begin >= (timeout or 0) - .02, 'early', 'gave up after %.3f s: %s' % (
                end - begin, what))
            if plan['tool'].startswith('assert'):
                obs.equal(str(wait.error), 'wait %d, call %d' % (wait.number, len(wait.calls)),
                          'assertion', 'error of %s' % what)
        outcomes.add(bool(satisfied))
        obs.count('satisfied' if satisfied else 'unsatisfied')
        if satisfied and len(wait.calls) > 1:
            obs.count('woken')
    if len(outcomes) == 2:
        obs.sig([[w.result is not None, len(w.calls)] for w in waits])


def judge_end(obs, wait, what, first, over, deadline, slow=0):
    """Tell whether it was successful, None if that is not known."""
    if wait.end is None:
        if first is not None and first < over - LATE - slow:
            obs.fail('blocked', 'still waits %.2f s after it happened: %s' % (over - first, what))
        elif deadline < over - LATE - slow:
            obs.fail('blocked', 'still waits %.2f s after its timeout: %s' % (over - deadline, what))
        return None
    if wait.plan['tool'].startswith('assert'):
        if wait.error is not None and not isinstance(wait.error, AssertionError):
            obs.fail('error', '%r: %s' % (wait.error, what))
            return None
        satisfied = wait.error is None
    else:
        if wait.error is not None:
            obs.fail('error', '%r: %s' % (wait.error, what))
            return None
        satisfied = bool(wait.result)
    if satisfied and first is not None:
        obs.expect(wait.end - max(first, wait.begin) <= LATE + slow, 'late',
                   'returned %.2f s after it happened: %s' % (wait.end - first, what))
    return satisfied
