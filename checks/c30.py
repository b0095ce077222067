"""C30: launch_testing's process proxy, ready listener and test actions tell the truth."""
import codecs
import json
import os
import shutil
import sys
import tempfile
import threading
import time

from launch import LaunchDescription, LaunchService
from launch.actions import (ExecuteProcess, OpaqueFunction, RegisterEventHandler,
                            SetLaunchConfiguration, TimerAction)
from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart
from launch.events import IncludeLaunchDescription
from launch.events.process import ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout
from launch.substitutions import LaunchConfiguration
from launch_testing.actions import GTest, PyTest
from launch_testing.actions.test import Test
from launch_testing.event_handlers import StdoutReadyListener
from launch_testing.io_handler import ActiveIoHandler
from launch_testing.proc_info_handler import ActiveProcInfoHandler
from launch_testing.tools import basic_output_filter, launch_process, ProcessProxy
from vf.kit import Handler
from vf.real import CHILD, PYTHON

CASES = {'quick': 280, 'thorough': 9000}
WALL = {'quick': 150, 'thorough': 800}
TIMEOUT = 60
HANG = 40
NEED = {'waits': 260, 'held': 130, 'not_held': 120, 'reads': 200, 'shutdowns': 120, 'stopped': 45,
        'left_alone': 50, 'after_exit': 15, 'no_condition': 170, 'fired': 65, 'split': 12, 'silent': 85,
        'timed_out': 30, 'in_time': 44, 'idle': 14, 'hurried': 12}
RULE = ('a case launches up to three real processes by launch_process from test threads, with waits '
        'and reads of their proxies, ready listeners and Test actions; answers are compared with the '
        'recorded events; non-trivial: there were waits which succeeded and ones which did not')
ASSUMPTIONS = ['an answer may be late by 3 s (a loaded machine)']
LATE = 3
WORDS = ['alpha', 'beta', '\u00fc', '\u2192x', '\U0001f600', 'ready', 'pid 7 ', 'abab']


def gen_output(rng):
    """Return (the output as pieces, bytes of stdout, bytes of stderr)."""
    out, data = [], {1: b'', 2: b''}
    for k in range(rng.choice([0, 1, 3, 6, 9])):
        fd = rng.choice([1, 1, 2])
        text = '%s%s%s' % (rng.choice(WORDS), rng.choice(['', k]), rng.choice(['\n', '\n', ' ', '']))
        raw = text.encode()
        if rng.random() < .03:
            raw += b'\xff'
        data[fd] += raw
        cut = rng.randint(0, len(raw)) if rng.random() < .6 else len(raw)
        for piece in (raw[:cut], raw[cut:]):
            if piece:
                out.append([fd, piece.hex(), rng.choice([0, .02, .05, .12])])
    return out, data[1], data[2]


def gen_wait(rng, texts):
    text = texts[rng.randrange(2)]
    r = rng.random()
    if r < .55 and text:
        a = rng.randrange(len(text))
        cond = ['in', text[a:a + rng.choice([1, 3, 6])]]
    elif r < .75:
        cond = None
    elif r < .85:
        cond = ['length', rng.randint(0, len(texts[0]) + len(texts[1]) + 3)]
    elif r < .9:
        cond = ['always']
    else:
        cond = ['in', 'never written']
    sure = any(texts) and (cond is None or cond[0] == 'always' or cond[0] == 'in' and cond[1] in text and
                              # both streams are mixed
                              (len(cond[1]) == 1 or '' in texts))
    return ['output', cond, rng.choice([None, 0, .05, .3, .3, 15] if sure else [0, .05, .2, .4])]


def gen(rng, i, tier):
    case = {'jobs': [], 'listeners': [], 'tests': [], 'idle': rng.random() < .2}
    for n in range(0 if case['idle'] else rng.choice([1, 1, 2, 3])):
        out, o, e = gen_output(rng)
        texts = [o.decode(errors='ignore'), e.decode(errors='ignore')]
        job = {'plan': {'out': out, 'stay': rng.choice([0, 0, .2, 30, 30]), 'code': rng.choice([0, 3]),
                        'int': rng.choice([None, 'exit', 'ignore'])},
               'start': rng.choice([0, 0, .1]), 'bad': rng.random() < .04,
               'filter': rng.choice([None, None, 'basic', 'upper']), 'raise': rng.random() < .1}
        # what a filter leaves may not have it
        # the process is not stopped before all is done
        patient = not job['bad'] and rng.random() < .7
        sure = texts if patient and not job['filter'] and b'\xff' not in o + e else ['', '']
        job['threads'] = []
        for k in range(rng.choice([1, 2, 2, 3])):
            ops = []
            for _ in range(rng.choice([0, 1, 3, 5])):
                r = rng.random()
                if r < .5:
                    ops.append(gen_wait(rng, sure))
                elif r < .65:
                    ops.append(['shutdown', rng.choice([0, .1, .3])])
                    if patient and job['plan']['stay'] < 1 and rng.random() < .7:
                        ops[-1][1] = rng.choice([None, 15])
                elif r < .85:
                    ops.append(['read'])
                else:
                    ops.append(['pause', rng.choice([.01, .05, .2])])
            if patient and k == 0:
                ops.append(['shutdown', 15] if job['plan']['stay'] < 1 else ['join'])
            job['threads'].append(ops)
        if not job['bad'] and rng.random() < .12:
            # left before the process is started
            job.update(hurry=True, threads=[[]], start=0)
            job['plan']['stay'] = 30
        case['jobs'].append(job)
        for _ in range(rng.choice([0, 1, 2, 2])):
            word = rng.choice(WORDS + ['ready\n', 'ab', 'aba'])
            if texts[0] and rng.random() < .7:
                a = rng.randrange(len(texts[0]))
                word = texts[0][a:a + rng.choice([1, 2, 4, 9])]
            case['listeners'].append({'target': n if rng.random() < .7 else None, 'text': word})
    for _ in range(rng.choice([1, 2]) if case['idle'] else rng.choice([0, 0, 1, 2])):
        short = case['idle'] or rng.random() < .4
        case['tests'].append({
            'kind': 'pytest' if rng.random() < .06 else rng.choice(['test', 'test', 'gtest']),
            'plan': {'out': gen_output(rng)[0][:2], 'stay': rng.choice([0, .1]) if short else 30,
                     'code': rng.choice([0, 1]), 'int': rng.choice([None, 'exit', 'ignore'])},
            'timeout': (rng.choice([None, 25., 40.]) if short else rng.choice([.2, .4, .6])),
            'form': rng.choice(['number', 'text', 'configuration', 'number'])})
    return case


def text_of(events):
    """Return the text of stdout, stderr and both, according to events."""
    out = []
    for kinds in (('ProcessStdout',), ('ProcessStderr',), ('ProcessStdout', 'ProcessStderr')):
        decoders, text = {}, ''
        for _, kind, _, data in events:
            if kind in kinds:
                if kind not in decoders:
                    decoders[kind] = codecs.getincrementaldecoder('utf-8')(errors='replace')
                text += decoders[kind].decode(data)
        out.append(text + ''.join(d.decode(b'', True) for d in decoders.values()))
    return out


def make_filter(name):
    if name == 'basic':
        return basic_output_filter()
    return str.upper if name == 'upper' else None


def filtered(name, text):
    if name == 'upper':
        return text.upper()
    if name == 'basic':
        return ''.join(line for line in text.splitlines(True) if not line.startswith(('pid', 'rc')))
    return text


def holds(cond, text):
    if cond[0] == 'in':
        return cond[1] in text
    if cond[0] == 'length':
        return len(text) >= cond[1]
    return True


class Stop(Exception):
    pass


class World:

    def __init__(self, case):
        self.case = case
        self.base = tempfile.mkdtemp(prefix='c30-')
        self.journal, self.answers = [], []
        self.proc_info, self.proc_output = ActiveProcInfoHandler(), ActiveIoHandler()
        self.service = LaunchService(noninteractive=True)
        self.actions = []
        self.left, self.errors, self.watchers = {}, [], {}
        self.over = threading.Event()

    def note(self, kind, n, data=None):
        self.journal.append((time.monotonic(), kind, n, data))

    def path(self, name):
        return os.path.join(self.base, str(name))

    def command(self, name, plan):
        return [PYTHON, '-I', '-S', CHILD, self.path(name), json.dumps(plan)]

    def build(self):
        case = self.case
        for n, job in enumerate(case['jobs']):
            cmd = [self.path('missing')] if job['bad'] else self.command('j%d' % n, job['plan'])
            self.actions.append(ExecuteProcess(cmd=cmd, output='log', sigterm_timeout='0.5',
                                               sigkill_timeout='0.5', name='job%d' % n))
        entities = [
            RegisterEventHandler(OnProcessStart(on_start=lambda info, _: self.proc_info.append(info))),
            RegisterEventHandler(OnProcessStart(
                on_start=lambda info, _: self.proc_output.track(info.process_name))),
            RegisterEventHandler(OnProcessExit(on_exit=lambda info, _: self.proc_info.append(info))),
            RegisterEventHandler(OnProcessIO(on_stdout=self.proc_output.append,
                                             on_stderr=self.proc_output.append))]
        for k, listener in enumerate(case['listeners']):
            kwargs = {}
            if listener['target'] is not None:
                kwargs['target_action'] = self.actions[listener['target']]
            entities.append(RegisterEventHandler(StdoutReadyListener(
                ready_txt=listener['text'], actions=[OpaqueFunction(
                    function=lambda context, k=k: self.note('ready', k))], **kwargs)))
        entities.append(SetLaunchConfiguration('nothing', '0'))
        for k, test in enumerate(case['tests']):
            name = 't%d' % k
            kwargs = dict(output='log', sigterm_timeout='0.4', sigkill_timeout='0.4', name=name)
            timeout = test['timeout']
            if timeout is not None:
                if test['form'] == 'text':
                    timeout = str(timeout)
                elif test['form'] == 'configuration':
                    entities.append(SetLaunchConfiguration('timeout%d' % k, str(timeout)))
                    timeout = LaunchConfiguration('timeout%d' % k)
                kwargs['timeout'] = timeout
            cmd = self.command(name, test['plan'])
            if test['kind'] == 'test':
                action = Test(cmd=cmd, **kwargs)
            elif test['kind'] == 'gtest':
                path = self.path('script%d' % k)
                with open(path, 'w') as f:
                    f.write("#!/bin/sh\nexec %s '%s'\n" % (' '.join(cmd[:-1]), cmd[-1]))
                os.chmod(path, 0o755)
                action = GTest(path=path, **kwargs)
            else:
                path = self.path('test_script%d.py' % k)
                with open(path, 'w') as f:
                    f.write('import subprocess\n\n\ndef test_it():\n    assert subprocess.call(%r) == 0\n' % (
                        cmd[:-1] + [json.dumps(dict(test['plan'], int=None))],))
                action = PyTest(path=path, additional_env={
                    'PYTEST_DISABLE_PLUGIN_AUTOLOAD': '1', 'PYTEST_ADDOPTS': '-p no:cacheprovider '
                    '-c /dev/null --rootdir %s' % self.base}, **kwargs)
            self.actions.append(action)
            entities.append(action)
        if not case['idle']:
            entities.append(TimerAction(period=100., actions=[]))
        return LaunchDescription(entities)

    def record(self, event, context):
        kind = type(event)
        if kind in (ProcessStarted, ProcessExited, ProcessStdout, ProcessStderr):
            self.note(kind.__name__, self.actions.index(event.action),
                      event.returncode if kind is ProcessExited else getattr(event, 'text', None))
        return None

    def operate(self, n, proxy, ops, thread):
        job = self.case['jobs'][n]
        for op in ops:
            answer = {'n': n, 'op': op, 'thread': thread, 'begin': time.monotonic(), 'calls': []}
            self.answers.append(answer)
            if op[0] == 'pause':
                time.sleep(op[1])
            elif op[0] == 'join':
                for watcher in self.watchers[n]:
                    watcher.join(20)
            elif op[0] == 'output':
                kwargs = {}
                if op[1] is not None:
                    def condition(text, answer=answer, cond=op[1]):
                        answer['calls'].append((time.monotonic(), text, holds(cond, text)))
                        return answer['calls'][-1][2]
                    kwargs['condition'] = condition
                if op[2] is not None:
                    kwargs['timeout'] = op[2]
                result = proxy.wait_for_output(**kwargs)
                answer['result'], answer['repr'] = bool(result), repr(result)
            elif op[0] == 'shutdown':
                answer['result'] = proxy.wait_for_shutdown(**(
                    {} if op[1] is None else {'timeout': op[1]}))
            else:
                self.read(n, proxy, answer, job)
            answer['end'] = time.monotonic()

    def read(self, n, proxy, answer, job):
        answer['running'] = (time.monotonic(), proxy.running, time.monotonic())
        answer['terminated'] = (time.monotonic(), proxy.terminated, time.monotonic())
        if proxy.terminated:
            answer['code'] = proxy.exit_code
        if proxy.running or proxy.terminated:
            for name in ('stdout', 'stderr', 'output'):
                answer[name] = (time.monotonic(), getattr(proxy, name))

    def job(self, n):
        job = self.case['jobs'][n]
        action = self.actions[n]
        time.sleep(job['start'])
        kwargs = {'output_filter': make_filter(job['filter'])} if job['filter'] else {}
        if job.get('hurry'):
            self.service.emit_event(IncludeLaunchDescription(LaunchDescription([
                OpaqueFunction(function=lambda context: time.sleep(.15))])))
        try:
            with launch_process(self.service, action, self.proc_info, self.proc_output, **kwargs) as proxy:
                assert isinstance(proxy, ProcessProxy) and proxy.target_process_action is action
                self.operate(n, proxy, job['threads'][0], 0)
                terminated = proxy.terminated
                self.left[n] = (time.monotonic(), terminated)
                if job['raise']:
                    raise Stop('job %d' % n)
        except Stop as exc:
            if not job['raise'] or str(exc) != 'job %d' % n:
                self.errors.append(exc)
        else:
            if job['raise']:
                self.errors.append('the exception was swallowed')
        if job.get('hurry'):
            def happened(kind):
                return any(e[1:3] == (kind, n) for e in list(self.journal))
            limit = time.monotonic() + .6
            while time.monotonic() < limit and not happened('ProcessExited'):
                if happened('ProcessStarted'):
                    limit = self.left[n][0] + 1.5 + LATE
                time.sleep(.01)
            return
        if not job['bad'] and (job['plan']['stay'] < 1 or terminated or proxy.running):
            # or else it is not known yet, and may never be started
            answer = {'n': n, 'op': ['final'], 'thread': 0, 'begin': time.monotonic()}
            answer['result'] = proxy.wait_for_shutdown(timeout=15)
            self.read(n, proxy, answer, job)
            answer['end'] = time.monotonic()
            self.answers.append(answer)

    def watch(self, n, k):
        job = self.case['jobs'][n]
        proxy = ProcessProxy(self.actions[n], self.proc_info, self.proc_output,
                             output_filter=make_filter(job['filter']))
        self.operate(n, proxy, job['threads'][k], k)

    def guard(self, function, *args):
        try:
            function(*args)
        except BaseException as exc:
            import traceback
            self.errors.append('%r\n%s' % (exc, traceback.format_exc()[-1500:]))

    def conduct(self):
        threads = []
        for n, job in enumerate(self.case['jobs']):
            for k in range(1, len(job['threads'])):
                watcher = threading.Thread(target=self.guard, args=(self.watch, n, k), daemon=True)
                self.watchers.setdefault(n, []).append(watcher)
                watcher.start()
                threads.append(watcher)
        for n, job in enumerate(self.case['jobs']):
            self.watchers.setdefault(n, [])
            threads.append(threading.Thread(target=self.guard, args=(self.job, n), daemon=True))
            threads[-1].start()
        limit = time.monotonic() + 25
        for thread in threads:
            thread.join(max(0, limit - time.monotonic()))
        # the tests too
        want = len(self.case['tests'])
        while time.monotonic() < limit:
            ended = [e for e in list(self.journal) if e[1] == 'ProcessExited' and
                     e[2] >= len(self.case['jobs'])]
            if len(ended) >= want:
                break
            time.sleep(.01)
        self.blocked = [thread for thread in threads if thread.is_alive()]
        self.over.set()
        if not self.case['idle']:
            self.service.shutdown()

    def run(self):
        self.service.context.register_event_handler(Handler(lambda event: True, self.record))
        self.service.include_launch_description(self.build())
        conductor = threading.Thread(target=self.guard, args=(self.conduct,), daemon=True)
        self.blocked = []
        conductor.start()
        self.began = time.monotonic()
        self.rc = self.service.run()
        self.ended = time.monotonic()
        if not self.case['idle']:
            conductor.join(5)

    def child(self, name):
        try:
            with open(self.path(name)) as f:
                return [json.loads(line) for line in f]
        except OSError:
            return []


def run(case, obs):
    sys.stdout.flush()
    world = World(case)
    try:
        world.run()
        judge(case, world, obs)
    finally:
        shutil.rmtree(world.base, ignore_errors=True)


def judge(case, world, obs):
    bad = any(job['bad'] for job in case['jobs'])
    obs.expect(not world.errors, 'error', 'errors: %s' % world.errors)
    obs.expect(bad or world.rc == 0, 'launch', 'the launch returned %r' % world.rc)
    open_ops = [a for a in world.answers if 'end' not in a]
    obs.expect(not world.blocked or world.errors, 'blocked', 'still waiting: %r' % open_ops)
    outcomes = set()
    for answer in list(world.answers):
        if 'end' in answer and answer['op'][0] not in ('pause', 'join'):
            judge_answer(case, world, obs, answer, outcomes)
    for n, job in enumerate(case['jobs']):
        judge_job(world, obs, n, job)
    for k, listener in enumerate(case['listeners']):
        judge_listener(case, world, obs, k, listener)
    for k, test in enumerate(case['tests']):
        judge_test(case, world, obs, k, test)
    if case['idle']:
        obs.count('idle')
        obs.expect(world.ended - world.began < 18, 'timer-left', 'the launch ended %.1f s after it began, '
                   'though all was over: %r' % (world.ended - world.began, case['tests']))
    if len(outcomes) == 2 or case['idle']:
        obs.sig([[e[1], e[2]] for e in world.journal] + [a.get('result') for a in world.answers])


def judge_answer(case, world, obs, answer, outcomes):
    n, op, begin, end = answer['n'], answer['op'], answer['begin'], answer['end']
    job = case['jobs'][n]
    events = [e for e in world.journal if e[2] == n and e[1].startswith('Process')]
    started = next((e[0] for e in events if e[1] == 'ProcessStarted'), None)
    exited = next((e for e in events if e[1] == 'ProcessExited'), None)
    what = 'job %d, thread %d: %r' % (n, answer['thread'], {k: v for k, v in answer.items() if k != 'calls'})
    if op[0] in ('read', 'final'):
        judge_read(obs, answer, what, job, events, started, exited)
        return
    timeout = op[-1]
    result = answer['result']
    deadline = float('inf') if timeout is None else begin + timeout
    obs.expect(timeout is None or end - begin <= timeout + LATE, 'late', 'blocked for %.2f s: %s' % (
        end - begin, what))
    if op[0] == 'shutdown':
        obs.count('shutdowns')
        # the event was recorded just before it was journalled
        at = exited[0] if exited else None
        if result:
            obs.expect(result is True and at is not None and at < end + 1, 'untrue', 'not shut down (%r): %s' % (
                exited, what))
        else:
            obs.expect(at is None or at > min(deadline, end) - .1, 'missed', 'shut down %.3f s after the call: %s' % (
                (at or 0) - begin, what))
            obs.expect(end >= deadline - .02, 'early', 'gave up early: %s' % what)
        if at is not None and result:
            obs.expect(end - max(at, begin) < LATE, 'late', 'returned %.2f s after the end: %s' % (
                end - at, what))
        outcomes.add(bool(result))
        return
    obs.count('waits')
    obs.count('held' if result else 'not_held')
    outcomes.add(result)
    cond = op[1]
    io = [e for e in events if e[1] in ('ProcessStdout', 'ProcessStderr')]
    full = filtered(job['filter'], text_of(io)[2])
    if cond is None:
        obs.count('no_condition')
        first = io[0][0] if io else None
    else:
        first = None
        for k in range(len(io) + 1):
            text = filtered(job['filter'], text_of(io[:k])[2])
            if started is not None and holds(cond, text) and (k or cond[0] != 'in'):
                first = io[k - 1][0] if k else None
                if k == 0:
                    # it may have been started before the process is known, then it wakes up on output
                    first = max(started, begin) if started < begin - .3 else (io[0][0] if io else None)
                break
    for _, text, _ in answer['calls']:
        if not (full.startswith(text) or '\ufffd' in text or job['filter']):
            obs.fail('foreign', '%r is not what the process wrote, %r: %s' % (text, full, what))
            break
    if result:
        if cond is None:
            obs.expect(first is not None and first < end + 1, 'untrue', 'there was no output until then: %s' % what)
        else:
            obs.expect(answer['calls'] and answer['calls'][-1][2], 'untrue', '%s' % what)
        obs.expect('True' in answer['repr'], 'repr', what)
        if answer['calls']:
            obs.expect(repr(answer['calls'][-1][1]) in answer['repr'], 'repr', what)
        if first is not None:
            obs.expect(end - max(first, begin) < LATE, 'late', 'returned %.2f s after it held: %s' % (
                end - first, what))
        if exited and exited[0] < begin:
            obs.count('after_exit')
    else:
        obs.expect(first is None or first > min(deadline, end) - .1, 'missed', 'held %.3f s after the call: %s' % (
            (first or 0) - begin, what))
        obs.expect(end >= deadline - .02, 'early', 'gave up early: %s' % what)
        obs.expect('False' in answer['repr'], 'repr', what)


def judge_read(obs, answer, what, job, events, started, exited):
    obs.count('reads')
    if answer['op'][0] == 'final':
        obs.expect(answer['result'] is True, 'not-shut-down', 'the process was not shut down: %s' % what)
    for name, low, high in (('running', started, exited and exited[0]),
                            ('terminated', exited and exited[0], None)):
        before, value, after = answer[name]
        # entries are journalled after the proxy knows
        if value:
            obs.expect(low is not None and low < after + 1, 'untrue', '%s: %s' % (name, what))
            obs.expect(high is None or high > before - .001, 'untrue', 'still %s: %s' % (name, what))
        else:
            obs.expect(low is None or low > before - .001 or (high is not None and high < after + 1),
                       'missed', 'not %s: %s' % (name, what))
    if 'code' in answer:
        obs.expect(exited is not None and answer['code'] == exited[3], 'code', '%r, not %r: %s' % (
            answer['code'], exited, what))
    if 'output' not in answer:
        return
    if answer['op'][0] == 'final':
        want = [filtered(job['filter'], text) for text in text_of(events)]
        obs.equal([answer[name][1] for name in ('stdout', 'stderr', 'output')], want, 'text', what)
        return
    for k, name in enumerate(('stdout', 'stderr', 'output')):
        when, text = answer[name]
        # what was journalled before is there, and what is there was written sooner or later
        texts = []
        for count in range(len(events) + 1):
            if count == len(events) or events[count][0] > when - .001:
                texts.append(filtered(job['filter'], text_of(events[:count])[k]))
        obs.expect(text in texts, 'text', '%s was %r, not one of %r: %s' % (name, text, texts[:5], what))


def judge_job(world, obs, n, job):
    if job['bad'] or n not in world.left:
        return
    notes = world.child('j%d' % n)
    signals = [note for note in notes if note[0] == 'signal']
    exits = [e for e in world.journal if e[1:3] == ('ProcessExited', n)]
    starts = [e for e in world.journal if e[1:3] == ('ProcessStarted', n)]
    when, terminated = world.left[n]
    obs.count('hurried', bool(job.get('hurry')))
    if not starts and not terminated:
        # stopped before it was started
        obs.count('not_started')
        obs.expect(not notes and not exits, 'runs', 'job %d was run: %r' % (n, notes))
        return
    obs.expect(len(exits) == 1 and len(starts) == 1, 'runs', 'job %d: %d starts, %d exits' % (
        n, len(starts), len(exits)))
    if not exits:
        return
    if terminated:
        obs.count('left_alone')
        obs.expect(not signals and exits[0][3] == job['plan']['code'], 'signalled',
                   'job %d had ended, but: %r, exit code %r' % (n, signals, exits[0][3]))
    else:
        early = [s for s in signals if s[2] < when]
        obs.expect(not early, 'signalled', 'job %d was signalled %.3f s before the end: %r' % (
            n, when - early[0][2] if early else 0, early))
        if job['plan']['stay'] > 10:
            obs.count('stopped')
            obs.expect(exits[0][0] - when < 1 + LATE, 'not-stopped', 'job %d ended %.2f s after it was left' % (
                n, exits[0][0] - when))
            codes = {None: -2, 'exit': 102, 'ignore': -15}
            # it may be signalled before it handles signals (and Python may lose that)
            obs.expect(exits[0][3] in (codes[job['plan']['int']], -2, 1, -15), 'not-stopped', 'job %d, %r: %r' % (
                n, job['plan'], exits[0]))


def judge_listener(case, world, obs, k, listener):
    targets = [listener['target']] if listener['target'] is not None else range(len(world.actions))
    ready = listener['text'].encode()
    fired = set()         # positions in the journal of the event which was the reason
    for position, entry in enumerate(world.journal):
        if entry[1:3] == ('ready', k):
            reason = position
            while reason < len(world.journal) and world.journal[reason][1] == 'ready':
                reason += 1
            fired.add(reason)
    allowed = set()
    for n in targets:
        data, found = b'', False
        for position, entry in enumerate(world.journal):
            if entry[1:3] != ('ProcessStdout', n):
                continue
            old, data = len(data), data + entry[3]
            if data.find(ready, max(0, old - len(ready) + 1)) >= 0:
                allowed.add(position)
                obs.count('split', not found and ready not in entry[3])
                obs.expect(found or position in fired, 'not-ready', 'listener %d (%r): nothing was done when '
                           'process %d had printed %r' % (k, listener, n, data))
                found = True
    obs.expect(fired <= allowed, 'ready', 'listener %d (%r) acted without a reason: %r, journal %r' % (
        k, listener, fired - allowed, world.journal))
    obs.count('fired', len(fired))
    obs.count('silent', not allowed)


def judge_test(case, world, obs, k, test):
    n = len(case['jobs']) + k
    notes = world.child('t%d' % k)
    starts = [e for e in world.journal if e[1:3] == ('ProcessStarted', n)]
    exits = [e for e in world.journal if e[1:3] == ('ProcessExited', n)]
    what = 'test %d, %r: %r %r' % (k, test, notes[-2:] and [x[:3] for x in notes], exits)
    obs.expect(len(starts) == 1 and len(exits) == 1, 'test-runs', '%d starts, %d exits: %s' % (
        len(starts), len(exits), what))
    if not starts or not exits:
        return
    signals = [note for note in notes if note[0] == 'signal']
    if test['plan']['stay'] < 1:
        obs.count('in_time')
        obs.expect(not signals and exits[0][3] == test['plan']['code'], 'test-killed', what)
        return
    obs.count('timed_out')
    took = exits[0][0] - world.began
    obs.expect(took > test['timeout'] - .001, 'test-early', 'over after %.3f s: %s' % (took, what))
    obs.expect(exits[0][0] - starts[0][0] < test['timeout'] + .8 + LATE, 'test-late', 'over after %.3f s: %s' % (
        exits[0][0] - starts[0][0], what))
    if test['kind'] != 'pytest':
        codes = {None: -2, 'exit': 102, 'ignore': -15}
        obs.expect(exits[0][3] in (codes[test['plan']['int']], -2, 1, -15), 'test-signals', what)
