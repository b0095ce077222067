"""Many short-lived real processes at once, in a launch which is busy.

When the event loop gets to it, a process has often written all of its output and exited already.
"""
import asyncio
import logging
import os
import time

from launch import LaunchDescription, LaunchService
from launch.actions import ExecuteProcess, OpaqueFunction, RegisterEventHandler
from launch.event_handlers import OnProcessExit, OnProcessIO, OnProcessStart
from launch.events import IncludeLaunchDescription
from launch.events.process import ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout

from .kit import first_difference, Handler, LogTap
from .procs import expected_lines, gen_bytes

KINDS = (ProcessStarted, ProcessExited, ProcessStdout, ProcessStderr)


def gen(rng):
    procs = []
    ttys = rng.random() < .3
    for n in range(rng.choice([1, 1, 2, 5, 12, 30])):
        tty = ttys and rng.random() < .8
        out = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            data = gen_bytes(rng, rng.choice([3, 12]))
            if tty:
                # terminals treat other characters in their own way
                data = bytes(b for b in data if b == 10 or 32 <= b < 127)
            out.append([rng.choice([1, 2, 2]), data.hex()])
        procs.append({'out': out, 'tty': tty, 'code': rng.choice([0, 0, 1, 9]),
                      'cached': rng.random() < .5, 'inherited': rng.random() < .05})
    return {'burst': True, 'procs': procs,
            'stalls': [[rng.choice(['include', 'include', 'start', 'io', 'exit']), rng.choice([0, .01, .04, .1])]
                       for _ in range(rng.choice([0, 1, 2, 4]))]}


def command(proc):
    text = ''
    for fd, data in proc['out']:
        if data:
            text += "printf '%s' >&%d; " % (
                ''.join('\\%03o' % b for b in bytes.fromhex(data)), fd)
    if proc['inherited']:
        text += 'sleep 2 & '     # which has the output open, too
    return ['/bin/sh', '-c', text + 'exit %d' % proc['code']]


class Record:
    pass


def perform(case):
    rec = Record()
    rec.case, rec.events, rec.taps = case, [], {}
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    service = LaunchService(noninteractive=True)
    rec.actions = [ExecuteProcess(cmd=command(p), output='log', emulate_tty=p['tty'], name='burst',
                                  cached_output=p['cached']) for p in case['procs']]

    def record(event, context):
        if isinstance(event, KINDS):
            n = rec.actions.index(event.action)
            rec.events.append((type(event).__name__, n, getattr(
                event, 'returncode', getattr(event, 'text', None))))
            if isinstance(event, ProcessStarted):
                taps = rec.taps[n] = []
                for stream in ('stdout', 'stderr'):
                    tap = LogTap()
                    logging.getLogger('%s-%s' % (event.process_name, stream)).addHandler(tap)
                    taps.append(tap)

    service.context.register_event_handler(Handler(lambda event: True, record))

    def stall(duration):
        count = [3]

        def function(*args):
            if count[0]:
                count[0] -= 1
                time.sleep(duration)
        return function

    handlers, includes = [], []
    for where, duration in case['stalls']:
        function = stall(duration)
        if where == 'start':
            handlers.append(RegisterEventHandler(OnProcessStart(on_start=function)))
        elif where == 'exit':
            handlers.append(RegisterEventHandler(OnProcessExit(on_exit=function)))
        elif where == 'io':
            handlers.append(RegisterEventHandler(OnProcessIO(on_stderr=function)))
        else:
            includes.append(OpaqueFunction(function=function))
    try:
        service.include_launch_description(LaunchDescription(handlers + rec.actions))
        for k, entity in enumerate(includes):
            for _ in range(k):
                service.emit_event(IncludeLaunchDescription(LaunchDescription([])))
            service.emit_event(IncludeLaunchDescription(LaunchDescription([entity])))
        rec.rc = service.run()
        while True:
            # (what was inherited is no child of ours)
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    break
            except ChildProcessError:
                break
    finally:
        asyncio.set_event_loop(None)
        loop.close()
    return rec


def judge_life(rec, obs):
    obs.equal(0, rec.rc, 'return-code', 'return code of the launch')
    for n, p in enumerate(rec.case['procs']):
        mine = [e for e in rec.events if e[1] == n]
        kinds = [e[0] for e in mine]
        obs.expect(len(kinds) >= 2 and kinds[0] == 'ProcessStarted' and kinds[-1] == 'ProcessExited' and
                   not {'ProcessStarted', 'ProcessExited'} & set(kinds[1:-1]), 'order',
                   'events of process %d of %d: %r' % (n, len(rec.case['procs']), kinds))
        obs.equal([p['code']], [e[2] for e in mine if e[0] == 'ProcessExited'], 'code', 'exit code')
        obs.count('burst_lives')
        obs.count('burst_outputs', len(kinds) > 2)
    obs.sig(['burst', [e[:2] for e in rec.events]])


def judge_output(rec, obs):
    for n, p in enumerate(rec.case['procs']):
        for k, kind in enumerate(('ProcessStdout', 'ProcessStderr')):
            data = b''.join(bytes.fromhex(d) for fd, d in p['out'] if fd == k + 1)
            if p['tty']:
                data = data.replace(b'\n', b'\r\n')
            got = b''.join(e[2] for e in rec.events if e[:2] == (kind, n))
            obs.equal(data, got, 'events', '%s of process %d in events' % (kind, n))
            want = expected_lines(data)
            if n in rec.taps:
                lines = [r[2].partition('] ')[2] for r in rec.taps[n][k].records]
                if want != lines:
                    obs.fail('lines', '%s of process %d (cached %r, tty %r) logged: %s' % (
                        kind, n, p['cached'], p['tty'], first_difference(want, lines)))
            obs.count('burst_bytes', len(data))
            obs.count('burst_tails', bool(data) and data[-1:] != b'\n')
            if p['cached']:
                action = rec.actions[n]
                text = action.get_stderr() if k else action.get_stdout()
                obs.equal(data.decode('utf-8', 'replace'), text, 'cached', 'cached output of %d' % n)
    obs.sig(['burst', [e[:2] for e in rec.events]])
