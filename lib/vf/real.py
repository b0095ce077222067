"""Launches of real processes in real time; the children keep journals (lib/children/child.py).

Judged are order, identity, counts and lower bounds of time: nothing which depends on how fast the
machine is.
"""
import asyncio
import json
import os
import signal
import tempfile
import threading
import time

from launch import LaunchDescription, LaunchService
from launch.actions import (EmitEvent, ExecuteProcess, OpaqueFunction, SetLaunchConfiguration,
                            Shutdown, TimerAction)
from launch.events import Shutdown as ShutdownEvent
from launch.events.process import (ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout)

from .kit import Handler
from .procs import chop, gen_bytes

PYTHON = '/opt/venv/bin/python'
CHILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'children',
                     'child.py')


def gen(rng, big=False, respawn=.2):
    procs = []
    for n in range(rng.choice([1, 2, 3, 5])):
        out = []
        for _ in range(rng.choice([0, 1, 3])):
            fd = rng.choice([1, 2])
            data = gen_bytes(rng, rng.choice([3, 20]))
            out.extend([fd, piece.encode('utf-8', 'surrogateescape').hex(),
                        rng.choice([0, 0, 0, .002])] for piece in chop(rng, data)[:12])
        again = rng.random() < respawn
        procs.append({
            'plan': {'out': out, 'code': rng.choice([0, 0, 1, 77]),
                     'times': rng.choice([1, 1, 1, 3000]) if big else 1,
                     'stay': rng.choice([0, 0, .1, 30, 30]) if not again else
                     rng.choice([0, 0, .1]),
                     'int': rng.choice([None, 'exit', 'ignore']),
                     'term': rng.choice([None, 'exit', 'ignore']),
                     'die': rng.choice([None, None, None, 9, 11, 6])},
            't1': rng.choice([.05, .1, .3]), 't2': rng.choice([.05, .1, .3]),
            'respawn': again, 'retries': rng.choice([0, 1, 2]),
            'delay': rng.choice([None, .05, .15]), 'cached': rng.random() < .3,
            'bad': rng.choice([None] * 9 + ['missing', 'directory']),
            'shell': rng.random() < .15, 'start': rng.choice([0, 0, 0, .1])})
    trigger = rng.choice(['action', 'sigint', 'os-sigint', 'thread', 'error', 'none'])
    if trigger == 'none':
        # everything has to end by itself
        for p in procs:
            p['plan']['stay'] = min(p['plan']['stay'], .1)
    return {'real': True, 'procs': procs, 'trigger': trigger,
            'interactive': rng.random() < .5, 'when': round(rng.uniform(0, .4), 3)}


class Record:
    pass


def perform(case):
    rec = Record()
    rec.case = case
    base = tempfile.mkdtemp(prefix='real-')
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    service = LaunchService(noninteractive=not case['interactive'])
    rec.events, rec.shutdowns = [], []
    actions = []

    def record(event, context):
        now = time.monotonic()
        kind = type(event)
        if kind is ShutdownEvent:
            rec.shutdowns.append((now, event.reason, event.due_to_sigint))
        elif kind in (ProcessStarted, ProcessExited, ProcessStdout, ProcessStderr):
            rec.events.append((now, kind.__name__, actions.index(event.action), event.pid,
                               getattr(event, 'returncode', getattr(event, 'text', None)),
                               event.process_name))

    service.context.register_event_handler(Handler(lambda event: True, record))
    entities = [SetLaunchConfiguration('x', 'y')]
    for n, p in enumerate(case['procs']):
        cmd = [PYTHON, '-I', '-S', CHILD, os.path.join(base, str(n)), json.dumps(p['plan'])]
        if p['bad'] == 'missing':
            cmd[0] = os.path.join(base, 'nothing')
        elif p['bad'] == 'directory':
            cmd[0] = base
        kwargs = {}
        if p['respawn']:
            kwargs.update(respawn=True, respawn_max_retries=p['retries'],
                          respawn_delay=p['delay'])
        if p['shell'] and not p['bad']:
            # the shell must be replaced by the program, or else signals stop at it
            kwargs['shell'] = True
            cmd = ['exec'] + ["'%s'" % c for c in cmd]
        action = ExecuteProcess(cmd=cmd, cached_output=p['cached'], sigterm_timeout=str(p['t1']),
                                sigkill_timeout=str(p['t2']), **kwargs)
        actions.append(action)
        entities.append(TimerAction(period=p['start'], actions=[action]) if p['start'] else action)
    rec.actions = actions

    def trigger(context):
        kind = case['trigger']
        rec.triggered = time.monotonic()
        if kind == 'action':
            return [Shutdown(reason='now')]
        if kind == 'sigint':
            return [EmitEvent(event=ShutdownEvent(reason='now', due_to_sigint=True))]
        if kind == 'os-sigint':
            os.kill(os.getpid(), signal.SIGINT)
        elif kind == 'thread':
            threading.Thread(target=service.shutdown, daemon=True).start()
        elif kind == 'error':
            raise ValueError('now')
        return []

    rec.triggered = None
    if case['trigger'] != 'none':
        entities.append(TimerAction(period=case['when'], actions=[OpaqueFunction(
            function=trigger)]))
    try:
        service.include_launch_description(LaunchDescription(entities))
        rec.rc = service.run()
        rec.ended = time.monotonic()
        rec.alive = [e[3] for e in rec.events
                     if e[1] == 'ProcessStarted' and os.path.exists('/proc/%d' % e[3])]
    finally:
        asyncio.set_event_loop(None)
        loop.close()
        rec.journals = []
        for n in range(len(case['procs'])):
            path = os.path.join(base, str(n))
            lines = []
            if os.path.exists(path):
                with open(path) as f:
                    lines = [json.loads(line) for line in f if line.endswith('\n')]
                os.unlink(path)
            rec.journals.append(lines)
        os.rmdir(base)
    return rec


def pids(rec, n, kind='ProcessStarted'):
    return [e[3] for e in rec.events if e[1] == kind and e[2] == n]


def judge_shutdown(rec, obs):
    case = rec.case
    obs.expect((rec.rc != 0) == (case['trigger'] == 'error' and rec.triggered is not None),
               'return-code', 'return code %r after %r' % (rec.rc, case['trigger']))
    obs.expect(not rec.alive, 'left-running', 'processes %r were left when run() returned' %
               rec.alive)
    obs.expect(len(rec.shutdowns) == 1, 'announced', 'shutdown events: %r' % rec.shutdowns)
    if rec.shutdowns:
        for n, journal in enumerate(rec.journals):
            for line in journal:
                if line[0] == 'start' and line[2] > rec.ended:
                    obs.fail('started-late', 'process %d started after run() returned' % n)
        reason = rec.shutdowns[0][1]
        want = {'action': 'now', 'sigint': 'now', 'os-sigint': 'ctrl-c (SIGINT)',
                'thread': 'LaunchService.shutdown() called',
                'error': 'Caught exception in launch (see debug for traceback): now',
                'none': 'idle'}[case['trigger']]
        if rec.triggered is None:
            want = 'idle'
        # everything may be over by the time
        obs.expect(reason == want, 'reason', 'reason %r instead of %r' % (reason, want))
        obs.equal(rec.shutdowns[0][2], want == 'ctrl-c (SIGINT)' or
                  (case['trigger'] == 'sigint' and want == 'now'), 'due_to_sigint',
                  'due_to_sigint of the shutdown')
    count = sum(len(pids(rec, n)) for n in range(len(case['procs'])))
    obs.count('real_processes', count)
    obs.count('real_' + case['trigger'])
    if count:
        obs.sig(['real', case['trigger'], [pids(rec, n) for n in range(len(case['procs']))]])


def judge_signals(rec, obs):
    """Order and lower bounds of the escalation, as the children saw it."""
    case = rec.case
    for n, p in enumerate(case['procs']):
        for pid in pids(rec, n):
            journal = [line for line in rec.journals[n] if line[1] == pid]
            ends = [e for e in rec.events if e[1] == 'ProcessExited' and e[3] == pid]
            got = [(line[2], line[3]) for line in journal if line[0] == 'signal']
            numbers = [s for _, s in got]
            code = ends[0][4] if ends else None
            obs.expect(numbers in ([], [2], [15], [2, 15]), 'signals',
                       'process %d received the signals %r' % (n, numbers))
            announced = rec.shutdowns[0][0] if rec.shutdowns else None
            if numbers or (code in (-2, -15, -9) and code != -(p['plan']['die'] or 0)):
                if not obs.expect(announced is not None, 'unasked', 'process %d received %r, died '
                                  'with %r without a shutdown' % (n, numbers, code)):
                    continue
            else:
                continue
            started = [e[0] for e in rec.events if e[1] == 'ProcessStarted' and e[3] == pid][0]
            # when shutting it down may have begun at the earliest, allowing for the times being
            # taken by another handler of the event
            begin = min(announced, rec.triggered or announced) - .02
            for t, s in got:
                if s == 15:
                    obs.expect(t >= begin + p['t1'], 'early', 'SIGTERM %r s after the shutdown '
                               'instead of %r' % (t - begin, p['t1']))
                    obs.count('real_sigterms')
                if s == 2:
                    obs.expect(t >= begin, 'early', 'SIGINT before the shutdown')
                    obs.count('real_sigints')
            if code == -9 and p['plan']['die'] != 9:
                obs.expect(ends[0][0] >= begin + p['t1'] + p['t2'], 'early', 'SIGKILL %r s after '
                           'the shutdown instead of %r' % (ends[0][0] - begin, p['t1'] + p['t2']))
                obs.count('real_sigkills')
            if rec.shutdowns[0][2] and case['interactive']:
                obs.expect(2 not in numbers and code != -2, 'again', 'SIGINT was sent to process '
                           '%d, which the terminal has sent to it' % n)
            obs.count('real_stopped', started <= rec.ended)
            obs.sig(['real', numbers, code])


def judge_life(rec, obs):
    case = rec.case
    for n, p in enumerate(case['procs']):
        starts, ends = pids(rec, n), pids(rec, n, 'ProcessExited')
        obs.equal(ends, starts, 'order', 'exits of process %d' % n)
        ours = [line[1] for line in rec.journals[n] if line[0] == 'start']
        # a child which is stopped at once may not get to writing its journal
        obs.expect([s for s in starts if s in ours] == ours, 'pid', 'process %d was started as %r, '
                   'events tell %r' % (n, ours, starts))
        for pid in starts:
            kinds = [e[1] for e in rec.events if e[3] == pid and e[2] == n]
            obs.expect(kinds[0] == 'ProcessStarted' and kinds[-1] == 'ProcessExited' and
                       len({'ProcessStarted', 'ProcessExited'} & set(kinds[1:-1])) == 0, 'order',
                       'events of process %d: %r' % (n, kinds))
            at, code = [(e[0], e[4]) for e in rec.events
                        if e[1] == 'ProcessExited' and e[3] == pid][0]
            if code == 255 and rec.shutdowns and at >= rec.shutdowns[0][0]:
                # asyncio's send_signal() reaps a process which exits in that very moment,
                # and its child watcher then has to make up a return code
                obs.count('real_lost_codes')
                continue
            end = [line[3] for line in rec.journals[n] if line[0] == 'end' and line[1] == pid]
            if end:
                die = p['plan']['die']
                want = {end[0]} if not die or end[0] > 100 else {-die, -2, -15, -9}
                # stopped between writing the journal and the end
                obs.expect(code in want | {-2, -15, -9}, 'code', 'process %d ended with %r, the '
                           'event tells %r' % (n, want, code))
                obs.count('real_codes')
            obs.count('real_lives')
        if p['bad'] and not p['shell']:
            obs.equal(starts, [], 'fault', 'starts of a program which does not exist')
            obs.count('real_failures')
    obs.sig(['real', [[e[1], e[2]] for e in rec.events]])


def judge_output(rec, obs):
    for n, p in enumerate(rec.case['procs']):
        texts = {1: '', 2: ''}
        for pid in pids(rec, n):
            begun = [line[2] for line in rec.journals[n] if line[0] == 'start' and line[1] == pid]
            if not begun or (rec.shutdowns and begun[0] >= rec.shutdowns[0][0]):
                # Python may have been interrupted before it ran our program
                texts = None
                break
            whole = any(line[0] == 'end' and line[1] == pid and line[3] == p['plan']['code']
                        for line in rec.journals[n])
            for fd, kind in ((1, 'ProcessStdout'), (2, 'ProcessStderr')):
                got = b''.join(e[4] for e in rec.events if e[1] == kind and e[3] == pid)
                want = b''.join(bytes.fromhex(data) * p['plan']['times']
                                for f, data, _ in p['plan']['out'] if f == fd)
                if whole:
                    if got != want:
                        obs.fail('events', 'process %d wrote %d bytes, events have %d bytes: %r '
                                 'instead of %r' % (n, len(want), len(got), got[:300], want[:300]))
                    obs.count('real_bytes', len(want))
                    obs.maximum('real_output_bytes', len(want))
                else:
                    obs.expect(want.startswith(got), 'events', 'process %d: %r is no beginning of '
                               '%r' % (n, got[:300], want[:300]))
                texts[fd] += got.decode('utf-8', 'replace')
        if p['cached'] and texts:
            action = rec.actions[n]
            for got, want in ((action.get_stdout(), texts[1]), (action.get_stderr(), texts[2])):
                if got != want:
                    obs.fail('cached', 'cached output of process %d: %r instead of %r' % (
                        n, got[:300], want[:300]))
    obs.sig(['real', [[e[1], e[2], e[4]] for e in rec.events][:200]])


def judge_respawn(rec, obs):
    for n, p in enumerate(rec.case['procs']):
        starts = [(e[0], e[3]) for e in rec.events if e[1] == 'ProcessStarted' and e[2] == n]
        limit = 1 + (p['retries'] if p['respawn'] else 0)
        obs.expect(len(starts) <= limit, 'too-often', 'process %d was started %d times' % (
            n, len(starts)))
        if rec.shutdowns and rec.shutdowns[0][1] == 'idle' and not p['bad']:
            obs.equal(len(starts), limit, 'restarts', 'starts of process %d' % n)
        for (_, before), (t, pid) in zip(starts, starts[1:]):
            obs.count('real_restarts')
            # when the end of the previous one can have been noticed at the earliest
            end = [line[2] for line in rec.journals[n] if line[1] == before and line[0] == 'end']
            if end:
                obs.expect(t >= end[0] + (p['delay'] or 0) - .001, 'early', 'process %d was '
                           'restarted %r s after its end, the delay is %r' % (
                               n, t - end[0], p['delay']))
    obs.sig(['real', [len(pids(rec, n)) for n in range(len(rec.case['procs']))]])
