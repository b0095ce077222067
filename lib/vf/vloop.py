"""An asyncio event loop with virtual time and simulated processes.

Time only passes when nothing can be done before the next timer, so a run with hours of timers takes
milliseconds, is deterministic, and every duration can be judged exactly.  When there is nothing left
to do and no timer either, the run would wait for ever: LogicalDeadlock is raised instead.

Processes are simulated below asyncio's public subprocess API: a command line
['sim', JSON] makes subprocess_exec() start a scripted process, see SimTransport.
"""
import asyncio
import json
import math
import selectors
import signal

RUNAWAY = 400000  # iterations of the loop


class LogicalDeadlock(Exception):
    """The event loop waits for something that can never happen."""


class Runaway(Exception):
    """The event loop never comes to rest."""


class _Selector(selectors.DefaultSelector):
    loop = None

    def select(self, timeout=None):
        loop = self.loop
        events = super().select(0)
        loop.iterations += 1
        if loop.iterations > RUNAWAY:
            loop.iterations = 0
            raise Runaway('event loop did not come to rest in %d iterations' % RUNAWAY)
        if events or (timeout is not None and timeout <= 0):
            return events
        if loop.external():
            # something outside of the loop is under way
            return super().select(0.01 if timeout is None else min(timeout, 0.01))
        if timeout is None:
            events = super().select(0.05)
            if events:
                return events
            loop.stalls += 1
            if loop.on_stall is not None and loop.on_stall():
                return []
            raise LogicalDeadlock('nothing left to do, but the run did not end')
        loop.now += timeout
        return events


class VirtualLoop(asyncio.SelectorEventLoop):

    def __init__(self, start=1000.0):
        self.now = start
        self.iterations = 0
        self.stalls = 0
        self.on_stall = None
        self.external = lambda: False
        self.processes = []
        self.next_pid = 5000000
        self._whens = set()
        self.starts = {}
        self.fault = None          # callable(cmd) -> exception to raise instead of starting
        self.script_of = None      # callable(cmd) -> script to use instead of the last argument
        self.spawn_latency = lambda cmd: 0.0
        selector = _Selector()
        selector.loop = self
        super().__init__(selector)
        self._clock_resolution = 1e-7

    def time(self):
        return self.now

    def call_at(self, when, callback, *args, context=None):
        # First in, first out for timers which expire together; asyncio leaves that open.
        when = round(when, 9)
        while when in self._whens:
            when = math.nextafter(when, math.inf)
        self._whens.add(when)
        return super().call_at(when, callback, *args, context=context)

    async def _spawn(self, protocol_factory, cmd, cwd, env, shell):
        latency = self.spawn_latency(cmd)
        if latency:
            await asyncio.sleep(latency)
        exc = self.fault(cmd) if self.fault else None
        if exc is not None:
            raise exc
        protocol = protocol_factory()
        transport = SimTransport(self, protocol, cmd, cwd, env, shell)
        self.processes.append(transport)
        protocol.connection_made(transport)
        transport.begin()
        if latency:
            await asyncio.sleep(0)
        return transport, protocol

    async def subprocess_exec(self, protocol_factory, *args, cwd=None, env=None, **kwargs):
        return await self._spawn(protocol_factory, list(args), cwd, env, False)

    async def subprocess_shell(self, protocol_factory, cmd, *, cwd=None, env=None, **kwargs):
        return await self._spawn(protocol_factory, [cmd], cwd, env, True)


class SimTransport(asyncio.SubprocessTransport):
    """
    A scripted process.

    Script: {"lives": [script, ...]}            one for each start of the same command line, or
            {"out": [[t, fd, text], ...],       output at t seconds after the start
             "exit": [t, code] or null,         exit by itself
             "sig": {"2": [delay, code] | null, ...}}   reaction to signals, null is to ignore it;
                                                without an entry the signal kills it at once
    """

    def __init__(self, loop, protocol, cmd, cwd, env, shell):
        super().__init__()
        self.loop, self.protocol = loop, protocol
        self.cmd, self.cwd, self.env, self.shell = cmd, cwd, env, shell
        self.pid = loop.next_pid
        loop.next_pid += 1
        self.script = loop.script_of(cmd) if loop.script_of else None
        if self.script is None:
            try:
                self.script = json.loads(cmd[-1])
            except ValueError:
                self.script = {'exit': [0, 0]}
        if 'lives' in self.script:
            lives, starts = self.script['lives'], loop.starts
            starts[cmd[-1]] = starts.get(cmd[-1], 0) + 1
            self.script = lives[min(starts[cmd[-1]], len(lives)) - 1]
        self.started_at = loop.now
        self.exited_at = None
        self.returncode = None
        self.notified = False
        self.journal = []     # (time, signal number) of every signal sent to us
        self.sent = []        # (time, fd, bytes)
        self.closed = False
        self.handles = []

    def begin(self):
        loop = self.loop
        for t, fd, text in self.script.get('out', ()):
            data = text.encode('utf-8', 'surrogateescape')
            if t == 0:
                # asyncio may deliver it before subprocess_exec() returns
                self._output(fd, data)
            else:
                self.handles.append(loop.call_later(t, self._output, fd, data))
        if self.script.get('exit') is not None:
            t, code = self.script['exit']
            self.handles.append(loop.call_later(t, self._exit, code))

    def _output(self, fd, data):
        if self.returncode is None and data:
            self.sent.append((self.loop.now, fd, data))
            self.loop.call_soon(self.protocol.pipe_data_received, fd, data)

    def _exit(self, code):
        if self.returncode is not None:
            return
        for handle in self.handles:
            handle.cancel()
        last = self.script.get('last')
        if last:
            self._output(*([last[0], last[1].encode('utf-8', 'surrogateescape')]))
        self.returncode = code
        self.exited_at = self.loop.now
        self.loop.call_soon(self._notify)

    def _notify(self):
        self.notified = True
        self.protocol.process_exited()
        self.loop.call_soon(self.protocol.connection_lost, None)

    def get_pid(self):
        return self.pid

    def get_returncode(self):
        return self.returncode

    def get_pipe_transport(self, fd):
        return None

    def is_closing(self):
        return self.closed

    def send_signal(self, signum):
        signum = int(signum)
        self.journal.append((self.loop.now, signum, self.returncode is None))
        if self.returncode is not None:
            raise ProcessLookupError()
        reaction = self.script.get('sig', {}).get(str(signum), [0, -signum])
        if signum == signal.SIGKILL:
            reaction = self.script.get('kill', [0, -9])
        if reaction is not None:
            delay, code = reaction
            self.handles.append(self.loop.call_later(delay, self._exit, code))

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def close(self):
        if self.closed:
            return
        self.closed = True
        # As asyncio does: a process which still runs is killed by closing its transport.
        if self.returncode is None:
            try:
                self.kill()
            except ProcessLookupError:
                pass
