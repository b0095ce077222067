"""C17: OS signals stop the launch cleanly, prior handlers are restored."""
import asyncio
import gc
import os
import signal
import socket
import threading
import time

from launch import LaunchDescription, LaunchService
from launch.actions import (ExecuteProcess, OpaqueCoroutine, OpaqueFunction, RegisterEventHandler,
                            Shutdown, TimerAction)
from launch.event_handlers import OnProcessExit, OnShutdown
from launch.events import Shutdown as ShutdownEvent
from launch.events.process import ProcessStarted
from launch.utilities import AsyncSafeSignalManager
from vf.kit import Handler

CASES = {'quick': 2400, 'thorough': 40000}
WALL = {'quick': 100, 'thorough': 780}
TIMEOUT = 90
NEED = {'deliveries': 8000, 'handled': 2000, 'nested': 700, 'forwarded': 4000,
        'unread_at_exit': 200, 'wakeup_fds_changed': 400, 'not_main_thread': 100,
        'handlers_raised': 300, 'runs': 300, 'sigints': 200, 'sigints_again': 100,
        'sigterms': 60, 'from_outside': 100, 'restored': 300, 'with_processes': 150,
        'no_reader_handled': 40, 'no_reader_waits': 9}
RULE = ('a case is a history of nested signal managers and signals, or a sequence of runs which get '
        'signals at any moment; non-trivial: a signal was handled')
ASSUMPTIONS = ['SIGTERM and SIGQUIT have handlers of the user: with the default disposition the '
               'kernel ends the process before any code of launch runs']
NUMBERS = [signal.SIGINT, signal.SIGTERM, signal.SIGQUIT, signal.SIGUSR1, signal.SIGHUP,
           signal.SIGWINCH]
set_wakeup_fd = signal.set_wakeup_fd
NAMES = {'int': signal.SIGINT, 'term': signal.SIGTERM, 'quit': signal.SIGQUIT}


def wakeup_fd():
    fd = set_wakeup_fd(-1)
    set_wakeup_fd(fd)
    return fd


def sockets():
    gc.collect()
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            out.append(os.readlink('/proc/self/fd/' + fd))
        except OSError:
            pass
    return sum(name.startswith('socket:') for name in out)


# ---------------------------------------------------------------- generation

def gen_history(rng):
    ops, depth, sends = [], 0, False
    loops = rng.choice([1, 1, 2])
    for _ in range(rng.randint(4, 40)):
        kind = rng.choice(['enter', 'enter', 'exit', 'handle', 'handle', 'handle', 'handle',
                           'signal', 'signal', 'signal', 'signal', 'pump', 'pump', 'wakeup',
                           'bad', 'thread', 'loop-handler'])
        if kind == 'enter':
            if depth < 4:
                ops.append([kind, rng.randrange(6), rng.randrange(loops)])
                depth += 1
        elif kind == 'exit':
            if depth:
                ops.append([kind])
                depth -= 1
        elif kind == 'handle':
            what = rng.choice([None, 'plain', 'plain', 'plain', 'plain', 'raise', 'signal',
                               'unhandle', 'rehandle'])
            if what == 'signal':
                if sends:
                    continue      # with one of them the order remains certain
                sends = True
            ops.append([kind, rng.randrange(6), rng.randrange(len(NUMBERS)), what,
                        rng.randrange(6), rng.randrange(len(NUMBERS))])
        elif kind == 'signal':
            ops.append([kind, [rng.randrange(len(NUMBERS)) for _ in range(
                rng.choice([1, 1, 2, 5, 20]))]])
        elif kind == 'wakeup':
            ops.append([kind, rng.choice([None, 0, 1, 2])])
        elif kind == 'bad':
            ops.append([kind, rng.choice(['number', 'callable', 'fd'])])
        elif kind == 'loop-handler':
            if rng.random() < .3:
                ops.append([kind, rng.randrange(loops), rng.randrange(len(NUMBERS))])
        else:
            ops.append([kind])
    return {'ops': ops, 'loops': loops, 'first': rng.choice([None, None, 0, 1])}


def gen_runs(rng):
    runs = []
    style = rng.choice(['python'] * 5 + ['default', 'default', 'ignore'])
    for _ in range(rng.choice([1, 1, 2, 3])):
        signals = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            name = rng.choice(['int', 'int', 'int', 'int', 'term', 'quit'])
            where = rng.choice(['visit', 'timer', 'loop', 'loop', 'thread', 'shutdown', 'exit',
                                'child', 'before', 'burst'])
            if style == 'default' and name == 'int':
                # not at moments which only chance decides, it interrupts whatever is executed
                where = rng.choice(['loop', 'timer', 'visit', 'shutdown', 'exit'])
            signals.append([where, name, round(rng.uniform(0, .12), 4), rng.choice([1, 1, 2, 3])])
        # surely terminated while everything is running?
        term = any(s[1] != 'int' and s[0] in ('visit', 'timer', 'loop') for s in signals) and \
            not any(s[1] == 'int' for s in signals)
        procs = rng.choice([0, 0, 1, 2])
        runs.append({'signals': signals, 'procs': procs, 'stay': 15. if term else rng.choice(
            [.02, 4.]), 'deaf': rng.random() < .3, 'end': round(rng.uniform(.05, .16), 4),
            'new': rng.random() < .4, 'async': rng.random() < .3,
            'coroutine': rng.random() < .3})
        if any(s[1] != 'int' for p in runs[:-1] for s in p['signals']):
            # what a terminated run leaves behind would belong to the next one
            runs[-1]['new'] = True
    for plan in runs[:-1]:
        if any(s[1] != 'int' for s in plan['signals']):
            plan['signals'] = [s for s in plan['signals'] if s[0] != 'child']
    return {'runs': runs, 'style': style, 'sink': rng.random() < .4,
            'others': rng.choice(['python', 'mixed']), 'interactive': rng.random() < .5}


def gen(rng, i, tier):
    if i == 0:
        return {'interrupted': True}
    if i % 40 == 6:
        numbers = rng.sample(range(len(NUMBERS)), rng.randint(1, 4))
        return {'no_reader': {'handlers': numbers[:rng.randint(1, len(numbers))], 'sink': rng.random() < .6,
                              'again': rng.random() < .3, 'inner': rng.random() < .3,
                              'sends': [[rng.choice(numbers), rng.choice(['loop', 'loop', 'thread', 'before', 'wait']),
                                         rng.choice([0, 0, .01, .05])] for _ in range(rng.randint(1, 6))] + (
                                  [[numbers[0], 'wait', 0]] if rng.random() < .6 else []),
                              'busy': rng.choice([0, 0, .05]), 'at_exit': rng.choice([None, rng.choice(numbers)]),
                              }}
    if i % 5:
        return {'history': gen_history(rng)}
    return {'runs': gen_runs(rng)}


# ---------------------------------------------------------------- histories of managers

class Sink:
    """A wakeup descriptor of somebody else."""

    def __init__(self):
        self.reader, self.writer = socket.socketpair()
        self.reader.setblocking(False)
        self.writer.setblocking(False)
        self.fd = self.writer.fileno()
        self.expected = []

    def read(self):
        data = b''
        while True:
            try:
                chunk = self.reader.recv(4096)
            except BlockingIOError:
                return list(data)
            data += chunk

    def close(self):
        self.reader.close()
        self.writer.close()


class Member:
    """What is known about a manager."""

    def __init__(self, number, loop, loop_number):
        self.number, self.loop, self.loop_number = number, loop, loop_number
        self.manager = AsyncSafeSignalManager(loop)
        self.handlers, self.pending, self.calls, self.expected = {}, [], [], []


def history(case, obs):
    python_calls, expected_python = [], []
    before = {n: signal.getsignal(n) for n in NUMBERS}
    noop = lambda signum, frame: python_calls.append(signum)   # noqa: E731
    old_wakeup = wakeup_fd()
    fds = sockets()
    sinks = [Sink() for _ in range(3)]
    loops = [asyncio.new_event_loop() for _ in range(case['loops'])]
    errors = []
    for number, loop in enumerate(loops):
        loop.set_exception_handler(lambda loop, context: errors.append(
            str(context.get('exception') or context['message'])))
    members, stack = {}, []
    outer = None           # who listens outside of all managers
    main = threading.current_thread()
    counter = [0]
    expected_errors = [0]

    def install():
        for n in NUMBERS:
            if signal.getsignal(n) is not noop:
                signal.signal(n, noop)

    def deliver(n):
        expected_python.append(n)
        (stack[-1].pending if stack else sinks[outer].expected if outer is not None
         else []).append(n)
        signal.raise_signal(n)
        obs.count('deliveries')

    def make(member, kind, target, number):
        counter[0] += 1
        ident = counter[0]

        def handler(signum):
            try:
                running = asyncio.get_running_loop()
            except RuntimeError:
                running = None
            member.calls.append((ident, int(signum)))
            if running is not turning[0] or threading.current_thread() is not main:
                wrong.append((ident, running, threading.current_thread()))
            if loops[member.loop_number] is not turning[0] or member not in stack:
                wrong.append((ident, 'outside of its loop or context'))
            if kind == 'raise':
                raise Oops('handler %d' % ident)
            if kind == 'signal' and budget.setdefault(ident, 3) > 0:
                budget[ident] -= 1
                os_deliver(number)
            elif kind == 'unhandle':
                member.manager.handle(number, None)
            elif kind == 'rehandle':
                member.manager.handle(number, plain(member, ident * 1000))
        return ident, kind, number, handler

    def plain(member, ident):
        def handler(signum):
            member.calls.append((ident, int(signum)))
        return handler

    def os_deliver(n):
        if signal.getsignal(n) is noop:
            expected_python.append(n)
        signal.raise_signal(n)
        obs.count('deliveries')

    wrong, turning, budget = [], [None], {}

    class Oops(Exception):
        pass

    def expect(member):
        """Work off what is pending for one member; return what its handlers send."""
        while member.pending:
            chunk, member.pending = member.pending, []
            for n in chunk:
                known = member.handlers.get(n)
                if known is not None:
                    ident, kind, number = known
                    member.expected.append((ident, int(n)))
                    obs.count('handled')
                    if kind == 'raise':
                        expected_errors[0] += 1
                        obs.count('handlers_raised')
                    elif kind == 'signal' and model_budget.setdefault(ident, 3) > 0:
                        model_budget[ident] -= 1
                        stack[-1].pending.append(number)
                    elif kind == 'unhandle':
                        member.handlers.pop(number, None)
                    elif kind == 'rehandle':
                        member.handlers[number] = (ident * 1000, 'plain', None)
            forward(member, chunk)

    model_budget = {}

    def forward(member, chunk):
        place = stack.index(member)
        if place:
            stack[place - 1].pending.extend(chunk)
            obs.count('forwarded', len(chunk))
        elif outer is not None:
            sinks[outer].expected.extend(chunk)
            obs.count('forwarded', len(chunk))

    def pump():
        # innermost first, each loop as often as anything could still be forwarded
        turn(6 + 4 * len(stack))
        while any(m.pending for m in stack):
            for member in reversed(stack):
                expect(member)
        for m in members.values():
            obs.expect(m.calls == m.expected, 'calls', 'handlers of manager %d called %r, expected '
                       '%r' % (m.number, m.calls[-30:], m.expected[-30:]))
            m.calls, m.expected = [], []
        for n, sink in enumerate(sinks):
            got = sink.read()
            obs.expect(got == [int(x) for x in sink.expected], 'forwarded', 'wakeup fd %d got %r, '
                       'expected %r' % (n, got, [int(x) for x in sink.expected]))
            sink.expected = []
        obs.equal(python_calls, expected_python, 'python-handlers', 'regular handlers')
        obs.expect(not wrong, 'context', 'handlers called %r' % wrong)
        obs.expect(len(errors) == expected_errors[0], 'errors', 'errors reported to loops: %r, '
                   '%d expected' % (errors, expected_errors[0]))

    def turn(times):
        for _ in range(times):
            for loop in loops:
                turning[0] = loop
                loop.call_soon(loop.stop)
                loop.run_forever()
        turning[0] = None

    try:
        install()
        if case['first'] is not None:
            set_wakeup_fd(sinks[case['first']].fd)
            outer = case['first']
        else:
            set_wakeup_fd(-1)
        for op in case['ops']:
            kind = op[0]
            if obs.violations:
                break
            if kind == 'enter':
                member = members.get(op[1])
                if member in stack:
                    continue
                if member is None:
                    member = members[op[1]] = Member(op[1], loops[op[2]], op[2])
                returned = member.manager.__enter__()
                obs.expect(returned is member.manager, 'enter', 'enter returned %r' % returned)
                stack.append(member)
                obs.count('nested', len(stack) > 1)
            elif kind == 'exit':
                if not stack:
                    continue
                member = stack[-1]
                obs.count('unread_at_exit', bool(member.pending))
                forward(member, member.pending)
                member.pending = []
                stack.pop()
                member.manager.__exit__(None, None, None)
                if not stack:
                    obs.equal(wakeup_fd(), sinks[outer].fd if outer is not None else -1,
                              'wakeup-fd', 'wakeup fd after the outermost manager')
                    obs.expect(signal.set_wakeup_fd is set_wakeup_fd, 'set_wakeup_fd',
                               'signal.set_wakeup_fd is left modified')
            elif kind == 'handle':
                member = members.get(op[1])
                if member is None:
                    member = members[op[1]] = Member(op[1], loops[0], 0)
                n = NUMBERS[op[2]]
                old = member.handlers.get(n)
                had = callable(member.manager.handle(n, None))
                obs.expect(had == (old is not None), 'handle', 'handle() returned %r for %r' % (
                    had, old))
                member.handlers.pop(n, None)
                if op[3] is not None:
                    ident, what, number, handler = make(member, op[3], op[4], NUMBERS[op[5]])
                    obs.expect(member.manager.handle(n, handler) is None, 'handle',
                               'handle() returned a handler which was unregistered')
                    member.handlers[n] = (ident, what, number)
            elif kind == 'signal':
                for which in op[1]:
                    deliver(NUMBERS[which])
            elif kind == 'pump':
                pump()
            elif kind == 'wakeup':
                new = op[1]
                # within managers this is the modified one
                old = signal.set_wakeup_fd(sinks[new].fd if new is not None else -1)
                obs.equal(old, sinks[outer].fd if outer is not None else -1, 'set_wakeup_fd',
                          'wakeup fd returned')
                outer = new
                obs.count('wakeup_fds_changed')
            elif kind == 'loop-handler':
                # what asyncio does for this changes and restores the wakeup fd and the handler
                if outer is not None or not stack:
                    continue
                pump()
                loop, n = loops[op[1]], NUMBERS[op[2]]
                got = []
                loop.add_signal_handler(n, got.append, 1)
                stack[-1].pending.append(n)
                signal.raise_signal(n)
                obs.count('deliveries')
                for member in reversed(stack):
                    expect(member)
                turn(24)
                obs.expect(got or any(h and h[1] == 'signal' for m in stack
                                      for h in m.handlers.values()), 'loop-handler',
                           'handler of the event loop was not called')
                loop.remove_signal_handler(n)
                install()
                pump()
            elif kind == 'bad':
                if not members:
                    continue
                manager = list(members.values())[0].manager
                try:
                    if op[1] == 'number':
                        manager.handle(9999, lambda signum: None)
                    elif op[1] == 'callable':
                        manager.handle(signal.SIGINT, 'handler')
                    else:
                        thread_call(lambda: signal.set_wakeup_fd(-1))
                except ValueError:
                    pass
                else:
                    obs.fail('bad', 'no error for %r' % op)
            elif kind == 'thread':
                fresh = AsyncSafeSignalManager(loops[0])
                try:
                    thread_call(fresh.__enter__)
                except ValueError:
                    obs.count('not_main_thread')
                else:
                    obs.fail('thread', 'a manager can be entered in another thread')
        pump()
        while stack:
            member = stack.pop()
            member.manager.__exit__(None, None, None)
        obs.expect(signal.set_wakeup_fd is set_wakeup_fd, 'set_wakeup_fd',
                   'signal.set_wakeup_fd is left modified')
        obs.equal(wakeup_fd(), sinks[outer].fd if outer is not None else -1,
                  'wakeup-fd', 'wakeup fd in the end')
        deliver(signal.SIGUSR1)
        pump()
        obs.sig(case['ops'])
    finally:
        while stack:
            stack.pop().manager.__exit__(None, None, None)
        signal.set_wakeup_fd = set_wakeup_fd
        set_wakeup_fd(old_wakeup)
        for n in NUMBERS:
            signal.signal(n, before[n])
        for loop in loops:
            loop.close()
        for sink in sinks:
            sink.close()
    members.clear()
    left = sockets() - fds
    obs.expect(left <= 0, 'leak', '%d sockets are left open' % left)


def thread_call(function):
    out = []

    def run():
        try:
            out.append((function(), None))
        except Exception as exc:
            out.append((None, exc))
    thread = threading.Thread(target=run)
    thread.start()
    thread.join()
    if out[0][1] is not None:
        raise out[0][1]
    return out[0][0]


# ---------------------------------------------------------------- runs

def python_handlers(style, others, calls):
    handler = lambda signum, frame: calls.append(signum)   # noqa: E731
    out = {signal.SIGINT: {'python': handler, 'default': signal.default_int_handler,
                           'ignore': signal.SIG_IGN}[style],
           signal.SIGTERM: handler, signal.SIGQUIT: handler,
           signal.SIGUSR1: handler if others == 'python' else signal.SIG_IGN,
           signal.SIGHUP: signal.SIG_DFL}
    return out


class Once:
    """One run and what was seen of it."""

    def __init__(self, plan, service, loop, state):
        self.plan, self.service, self.loop, self.state = plan, service, loop, state
        self.timers = []
        self.sent = []          # (where, name, was the run shutting down, time)
        self.outside = 0
        self.shutdowns, self.pids = [], []
        self.safety = False
        self.threads = []
        self.stop = threading.Event()

    def send(self, where, name, count):
        # handlers registered by an earlier run of the service are still there
        once = self.state['once']
        for _ in range(count):
            once.sent.append((where, name, self.service.context.is_shutdown, time.monotonic()))
            signal.raise_signal(NAMES[name])

    def function(self, where, name, count):
        def called(*args):
            self.send(where, name, count)
        return called

    def entities(self):
        plan, out = self.plan, []
        for n in range(plan['procs']):
            trap = "trap '' INT; " if plan['deaf'] else ''
            out.append(ExecuteProcess(
                cmd=['sh', '-c', '%sexec sleep %s' % (trap, plan['stay'])],
                sigterm_timeout='.15' if plan['stay'] < 15 else '8', sigkill_timeout='.15'))
        if plan['coroutine']:
            async def coroutine(context):
                await asyncio.sleep(4.)
            out.append(OpaqueCoroutine(coroutine=coroutine))
        for where, name, t, count in plan['signals']:
            function = self.function(where, name, count)
            if where == 'visit':
                out.insert(len(out) // 2, OpaqueFunction(function=function))
            elif where == 'timer':
                out.append(TimerAction(period=t, actions=[OpaqueFunction(function=function)]))
            elif where == 'shutdown':
                out.insert(0, RegisterEventHandler(OnShutdown(on_shutdown=function)))
            elif where == 'exit':
                out.insert(0, RegisterEventHandler(OnProcessExit(on_exit=function)))
            elif where == 'loop':
                self.timers.append(self.loop.call_later(t, function))
            elif where in ('thread', 'burst'):
                thread = threading.Thread(target=self.outside_sender, args=(where, name, t, count))
                self.threads.append(thread)
                thread.start()
            elif where == 'child':
                self.outside += 1
                out.append(TimerAction(period=t, actions=[ExecuteProcess(cmd=[
                    'kill', '-' + NAMES[name].name[3:], str(os.getpid())])]))

        def safety(context):
            if not context.is_shutdown:
                self.safety = True
                return [Shutdown(reason='time is up')]
        out.append(TimerAction(period=plan['end'], actions=[OpaqueFunction(function=safety)]))
        return out

    def outside_sender(self, where, name, t, count):
        times = count if where == 'thread' else 10 * count
        self.stop.wait(t)
        for _ in range(times):
            if self.stop.is_set():
                return
            self.outside += 1
            os.kill(os.getpid(), NAMES[name])
            if where == 'burst':
                time.sleep(.001)


def runs(case, obs):
    calls = []
    handlers = python_handlers(case['style'], case['others'], calls)
    before = {n: signal.getsignal(n) for n in handlers}
    old_wakeup = wakeup_fd()
    sink = Sink() if case['sink'] else None
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    pids = []
    service = None
    total = outside = 0
    try:
        for n, handler in handlers.items():
            signal.signal(n, handler)
        set_wakeup_fd(sink.fd if sink else -1)
        for number, plan in enumerate(case['runs']):
            if service is None or plan['new']:
                service = LaunchService(noninteractive=not case['interactive'])
                state = {'signals': []}

                def record(event, context, state=state):
                    if isinstance(event, ShutdownEvent):
                        state['once'].shutdowns.append((event.reason, event.due_to_sigint))
                    elif isinstance(event, ProcessStarted):
                        state['once'].pids.append(event.pid)
                service.context.register_event_handler(Handler(lambda event: True, record))
            once = state['once'] = Once(plan, service, loop, state)
            state['signals'].extend(plan['signals'])
            for where, name, t, count in plan['signals']:
                if where == 'before':
                    for _ in range(count):
                        total += 1
                        if not (name == 'int' and case['style'] == 'ignore'):
                            signal.raise_signal(NAMES[name])
                        else:
                            total -= 1
            open_sockets = sockets()
            calls_before = len(calls)
            service.include_launch_description(LaunchDescription(once.entities()))
            try:
                if plan['async'] and case['style'] != 'default':
                    rc = loop.run_until_complete(service.run_async())
                else:
                    rc = service.run()
                error = None
            except BaseException as exc:
                rc, error = None, exc
            ended = time.monotonic()
            now = {n: signal.getsignal(n) for n in handlers}
            fd = wakeup_fd()
            once.stop.set()
            for timer in once.timers:
                timer.cancel()
            for thread in once.threads:
                thread.join()
            pids.extend(once.pids)
            judge(case, number, once, rc, error, ended, obs)
            obs.expect(now == handlers, 'restored', 'signal handlers after the run: %r, expected '
                       '%r' % (now, handlers))
            obs.expect(fd == (sink.fd if sink else -1), 'wakeup-fd', 'the wakeup fd is %r after '
                       'the run' % fd)
            obs.expect(signal.set_wakeup_fd is set_wakeup_fd, 'set_wakeup_fd',
                       'signal.set_wakeup_fd is left modified')
            obs.count('restored')
            if not any(s[1] != 'int' for s in plan['signals']):
                left = sockets() - open_sockets
                obs.expect(left <= 0, 'leak', '%d sockets are left open after the run' % left)
            heard = [s for s in once.sent if not (s[1] == 'int' and case['style'] == 'ignore')]
            total += len(heard)
            outside += once.outside
            if case['style'] != 'default':
                got = len(calls) - calls_before
                if case['style'] == 'ignore':
                    low = len(heard)
                else:
                    low = len(once.sent)
                obs.expect(low <= got <= low + once.outside, 'prior-handlers', 'the handlers in '
                           'place before were called %d times for %d to %d signals' % (
                               got, low, low + once.outside))
            if error is not None or obs.violations:
                break
            # calls and signals which were still underway belong to nobody
            loop.call_soon(loop.stop)
            loop.run_forever()
        if sink:
            got = sink.read()
            # the one of children may still be underway
            obs.expect(total <= len(got) <= total + outside or obs.violations, 'forwarded',
                       'the wakeup fd got %r, %d to %d signals were sent' % (
                           got, total, total + outside))
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        deadline = time.monotonic() + 10
        while pids and time.monotonic() < deadline and any(
                os.path.exists('/proc/%d' % p) for p in pids):
            loop.call_later(.005, loop.stop)
            loop.run_forever()
            for p in pids:
                try:
                    os.waitpid(p, os.WNOHANG)
                except ChildProcessError:
                    pass
        signal.set_wakeup_fd = set_wakeup_fd
        set_wakeup_fd(old_wakeup)
        for n, handler in before.items():
            signal.signal(n, handler)
        asyncio.set_event_loop(None)
        tasks = asyncio.all_tasks(loop)
        for task in tasks:
            task.cancel()
        if tasks:
            loop.run_until_complete(asyncio.wait(tasks, timeout=2))
        loop.close()
        if sink:
            sink.close()


def judge(case, number, once, rc, error, ended, obs):
    plan = once.plan
    what = 'run %d (signals sent %r)' % (number, [s[:3] for s in once.sent])
    obs.count('runs')
    obs.count('with_processes', bool(once.pids))
    obs.count('from_outside', once.outside)
    if not obs.expect(error is None, 'raised', '%s raised %r' % (what, error)):
        return
    ignored = case['style'] == 'ignore'
    ints = [s for s in once.sent if s[1] == 'int' and not ignored]
    terms = [s for s in once.sent if s[1] != 'int']
    maybe_term = any(s[1] != 'int' for s in once.state['signals'])
    obs.count('sigints', len(ints))
    obs.count('sigints_again', max(0, len(ints) - 1))
    obs.count('sigterms', len(terms))
    early = [s for s in terms if not s[2]]
    if early:
        obs.expect(rc not in (0, None), 'return-code', '%s returned %r after SIGTERM or SIGQUIT' % (
            what, rc))
        obs.expect(ended - early[0][3] < 7, 'prompt', '%s took %r s to end after %s' % (
            what, ended - early[0][3], early[0][1]))
    if not maybe_term:
        obs.equal(rc, 0, 'return-code', 'return code of ' + what)
        obs.expect(len(once.shutdowns) == 1 or once.safety and len(once.shutdowns) == 2,
                   'shutdowns', '%s: shutdown events %r' % (what, once.shutdowns))
        alive = [p for p in once.pids if os.path.exists('/proc/%d' % p)]
        obs.expect(not alive, 'left-running', '%s left processes %r' % (what, alive))
    else:
        obs.expect(len(once.shutdowns) <= 2, 'shutdowns', '%s: shutdown events %r' % (
            what, once.shutdowns))
    if any(not s[2] for s in ints) and not maybe_term and not once.safety:
        obs.expect([s[1] for s in once.shutdowns] == [True], 'due-to-sigint', '%s: shutdown events '
                   '%r' % (what, once.shutdowns))
    if ignored and not maybe_term:
        obs.expect(not any(s[1] for s in once.shutdowns), 'ignored', '%s: SIGINT was ignored by '
                   'the process, but shutdown events %r' % (what, once.shutdowns))
    if ints or terms:
        obs.sig([number, once.sent and [s[:3] for s in once.sent], once.shutdowns, rc, plan])


class NoReaderLoop(asyncio.SelectorEventLoop):
    """A loop that cannot watch file descriptors, as the default one of Windows."""

    def add_reader(self, *args):
        raise NotImplementedError

    def remove_reader(self, *args):
        raise NotImplementedError


def no_reader(case, obs):
    """Signals reach a loop that cannot watch file descriptors, too."""
    noop = lambda signum, frame: None   # noqa: E731
    before = {n: signal.getsignal(n) for n in NUMBERS}
    old_wakeup, fds, threads = wakeup_fd(), sockets(), set(threading.enumerate())
    sink = Sink() if case['sink'] else None
    calls, errors, what = [], [], str(case)
    try:
        for n in NUMBERS:
            signal.signal(n, noop)
        if sink:
            set_wakeup_fd(sink.fd)
        for turn in range(2 if case['again'] else 1):
            loop = NoReaderLoop()
            loop.set_exception_handler(lambda loop, context: errors.append(str(
                context.get('exception') or context['message'])))
            del calls[:]
            sent, called = [], asyncio.Event()

            def handler(signum):
                calls.append((int(signum), threading.current_thread() is threading.main_thread()))
                called.set()

            def send(number):
                sent.append(int(number))
                os.kill(os.getpid(), number)

            async def work():
                others, later = [], []
                for n, how, delay in case['sends']:
                    if how == 'thread':
                        others.append(threading.Thread(target=send, args=(NUMBERS[n],)))
                        others[-1].start()
                    elif how == 'wait':
                        later.append(NUMBERS[n])
                    elif how == 'loop':
                        send(NUMBERS[n])
                    await asyncio.sleep(delay)
                for thread in others:
                    thread.join()
                if case['busy']:
                    time.sleep(case['busy'])
                if later:
                    def send_later():
                        time.sleep(.03)
                        for number in later:
                            send(number)
                    others.append(threading.Thread(target=send_later, daemon=True))
                    others[-1].start()
                wanted = {n for n in sent + later if n in handled}
                # nothing else wakes the loop
                while not wanted <= {c[0] for c in calls}:
                    called.clear()
                    try:
                        await asyncio.wait_for(called.wait(), 10)
                    except asyncio.TimeoutError:
                        obs.fail('no-reader-late', '%s: not handled within 10 s' % what)
                        break
                    obs.count('no_reader_waits')
                for thread in others:
                    thread.join()
                obs.expect(wanted <= {c[0] for c in calls}, 'no-reader-lost', '%s: sent %s, handled %s' % (
                    what, sent, calls))
                await asyncio.sleep(.02)
            manager = AsyncSafeSignalManager(loop)
            handled = {int(NUMBERS[n]) for n in case['handlers']}
            with manager:
                for n in case['handlers']:
                    manager.handle(NUMBERS[n], handler)
                for n, how, delay in case['sends']:
                    if how == 'before':
                        send(NUMBERS[n])
                if case['inner']:
                    with AsyncSafeSignalManager(loop):
                        loop.run_until_complete(asyncio.sleep(.01))
                loop.run_until_complete(work())
                seen = list(calls)
                if case['at_exit'] is not None:
                    send(NUMBERS[case['at_exit']])
                    time.sleep(.01)
            loop.run_until_complete(asyncio.sleep(.03))
            loop.close()
            obs.equal(calls, seen, 'no-reader-late', '%s: called after exit' % what)
            obs.expect(all(main for _, main in calls), 'no-reader-thread', '%s: handled in another thread' % what)
            for n in handled:
                got = [c[0] for c in calls].count(n)
                obs.expect(got <= sent.count(n), 'no-reader-twice', '%s: %d handled %d times' % (what, n, got))
            if sink:
                got = sink.read()
                obs.expect(set(got) == set(sent) and all(got.count(n) <= sent.count(n) for n in got),
                           'no-reader-forwarded', '%s: sent %s, forwarded %s' % (what, sent, got))
            obs.equal(errors, [], 'no-reader-errors', what)
            obs.equal(wakeup_fd(), sink.fd if sink else old_wakeup, 'no-reader-wakeup', what)
            obs.expect(set(threading.enumerate()) <= threads, 'no-reader-threads', '%s: threads are left: %s' % (
                what, set(threading.enumerate()) - threads))
            obs.count('no_reader_handled', len(calls))
            if calls:
                obs.sig(['no-reader', sent, case['handlers'], case['sink'], case['inner'], case['at_exit']])
    finally:
        set_wakeup_fd(old_wakeup)
        for n, old in before.items():
            signal.signal(n, old)
        if sink:
            sink.close()
    obs.equal(sockets(), fds, 'no-reader-sockets', '%s: sockets are left' % what)


def interrupted(obs):
    """SIGINT while a shutdown handler runs, with the default handler of Python in place."""
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    codes = []
    try:
        service = LaunchService(noninteractive=True)
        service.include_launch_description(LaunchDescription([
            ExecuteProcess(cmd=['sleep', '2'], on_exit=lambda event, context: codes.append(
                event.returncode)),
            TimerAction(period=.3, actions=[
                RegisterEventHandler(OnShutdown(on_shutdown=lambda event, context:
                                                signal.raise_signal(signal.SIGINT))),
                Shutdown(reason='now')])]))
        rc = service.run()
    finally:
        asyncio.set_event_loop(None)
        loop.close()
    obs.equal(rc, 0, 'interrupted-rc', 'return code')
    obs.expect(codes == [-2], 'interrupted-handler', 'SIGINT while the shutdown event is handled: '
               'the process was not stopped, exit code %r' % codes)


def run(case, obs):
    if 'interrupted' in case:
        interrupted(obs)
    elif 'no_reader' in case:
        no_reader(case['no_reader'], obs)
    elif 'history' in case:
        history(case['history'], obs)
    else:
        runs(case['runs'], obs)
