"""Workload, model and monitors for launches which run simulated processes (C09 to C13).

A case is a plan: processes (scripted lives, respawn, timeouts, faults), other work (timers,
coroutines), steps at given times (signals, stops, changes of configurations) and what triggers the
shutdown.  Model is a small discrete event simulation which follows from the documentation; perform()
executes the plan with the real launch in virtual time and returns what monitors recorded.
"""
import heapq
import json
import logging
import signal

from launch import LaunchDescription
from launch.actions import (EmitEvent, ExecuteLocal, ExecuteProcess, OpaqueCoroutine,
                            OpaqueFunction, RegisterEventHandler, SetLaunchConfiguration, Shutdown,
                            TimerAction)
from launch.descriptions import Executable
from launch.event_handlers import OnShutdown
from launch.events import ExecutionComplete
from launch.events import Shutdown as ShutdownEvent
from launch.events.process import (ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout,
                                   ShutdownProcess, SignalProcess)
from launch.substitutions import (EnvironmentVariable, LaunchConfiguration, PythonExpression,
                                  TextSubstitution)
import launch.logging

from .kit import Handler, LogTap, asyncio, execute, finish, new_service

FORMATS = [None, None, '{line}', 'x{line}|{this.process_description.final_name}', '{{}} {line!r}']


# ---------------------------------------------------------------- generation

def when(rng, top=20.):
    """Return a time which practically never coincides with another one."""
    return round(rng.uniform(.001, top), 7)


def gen_bytes(rng, size):
    parts = []
    for _ in range(rng.randint(0, size)):
        parts.append(rng.choice([
            b'line', b'\n', b'\n', b' ', b'', b'{x}', '\u00fc'.encode(), '\u20ac'.encode(),
            '\U0001f680'.encode(), b'\xff', b'\xc3', b'\r\n', b'\r', b'\x1b[31m', b'%s', b'\x00',
            '\u2028'.encode(), b'\x0c', b'0123456789' * 9]))
    return b''.join(parts)


def chop(rng, data):
    pieces = []
    while data:
        n = rng.choice([1, 1, 2, 3, 5, 8, 20, 1000])
        pieces.append(data[:n].decode('utf-8', 'surrogateescape'))
        data = data[n:]
    return pieces


def gen_life(rng, p):
    life = when(rng, rng.choice([.5, 5., 20., 60.]))
    out = []
    for fd in (1, 2):
        if rng.random() < p.get('output', .3):
            pieces = chop(rng, gen_bytes(rng, rng.choice([3, 8, 20])))
            # in order of time within the stream
            times = sorted(when(rng, life) for _ in pieces)
            if rng.random() < .3 and times:
                times = [times[0]] * len(times)
            if rng.random() < .2:
                times = [0] * len(times)      # at once
            out.extend([t, fd, text] for t, text in zip(times, pieces))
    out.sort(key=lambda o: o[0])
    reactions = {}
    for s in ('2', '15', '10', '12'):
        roll = rng.random()
        # nothing ends in no time, so that ends do not coincide
        reactions[s] = [when(rng, .01), -int(s)]
        if s in ('10', '12'):
            if roll < .8:
                reactions[s] = None
        elif roll < .3:
            reactions[s] = None
        elif roll < .75:
            reactions[s] = [when(rng, rng.choice([.01, 2., 8.])), rng.choice([0, 0, 1, -int(s)])]
    script = {'out': out, 'sig': reactions, 'kill': [when(rng, .01), -9],
              'exit': None if rng.random() < p.get('endless', .25) else
              [life, rng.choice([0, 0, 0, 1, 2, 127, -11, -9])]}
    if rng.random() < .2:
        script['last'] = [rng.choice([1, 2]), ''.join(chop(rng, gen_bytes(rng, 4))[:1]) + 'end']
    return script


TIMEOUTS = [None, None, None, '0.5', '2', '1e-1', ' 3 ', ['sub', '1.', '25'], ['config', 'my_to'],
            ['default', 'nope', '0.75'], ['python', '0.1 + 0.5'], 7.5]


def gen(rng, p):
    procs = []
    for n in range(rng.choice([1, 1, 2, 2, 3, 4, 6])):
        respawn = rng.random() < p.get('respawn', .25)
        proc = {
            'start': 0 if rng.random() < .6 else when(rng, 12.),
            'keep': rng.random() < .1,
            'local': rng.random() < .3,
            'lives': [gen_life(rng, p) for _ in range(rng.randint(1, 4) if respawn else 1)],
            'respawn': rng.choice([True, ['config', 'yes'], ['python', '1 == 1'], ['sub', 'tr', 'ue'],
                                   ['sub', 'True']])
            if respawn else rng.choice([None, None, False, ['sub', 'false'], ['config', 'no']]),
            'retries': rng.choice([None, -1, 0, 1, 2, 3, 5]) if respawn else rng.choice([None, 4]),
            'delay': rng.choice([None, 0., when(rng, .1), when(rng, 4.), when(rng, 4.)]),
            't1': rng.choice(TIMEOUTS), 't2': rng.choice(TIMEOUTS),
            'latency': 0, 'fault': False,
            'on_exit': rng.choice([None, None, 'action', 'list', 'callable', 'callable-none']),
            'name': rng.choice([None, None, 'node', 'twin', '\u00fcn']),
            'cached': rng.random() < .3, 'format': rng.choice(FORMATS),
            'log_cmd': rng.random() < .1,
        }
        if respawn and proc['retries'] in (None, -1):
            proc['delay'] = .3 + when(rng, 4.)
        if not respawn:
            if rng.random() < p.get('latency', .25):
                proc['latency'] = when(rng, 3.)
            proc['fault'] = rng.random() < p.get('fault', .07)
        elif rng.random() < .3:
            proc['latency'] = when(rng, 2.)     # of every start
        if rng.random() < p.get('required', .1) and (not respawn or proc['delay']):
            proc['on_exit'] = 'shutdown'
        if respawn and rng.random() < .8:
            for life in proc['lives']:      # mostly lives which end
                life['exit'] = life['exit'] or [when(rng, 5.), rng.choice([0, 1])]
        if rng.random() < .06:
            proc['start'] = 'shutdown'    # by a shutdown handler, that is too late
        procs.append(proc)
    steps = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        t = when(rng, 25.)
        what = rng.choice(p.get('steps', ['signal', 'signal', 'stop', 'stop', 'config', 'config']))
        chosen = sorted(rng.sample(range(len(procs)), rng.randint(0, len(procs))))
        if what == 'signal':
            steps.append([t, what, chosen, rng.choice([10, 12, 2, 15, 9, 'SIGKILL'])])
        elif what == 'stop':
            steps.append([t, what, chosen])
        elif what == 'config':
            steps.append([t, what, rng.choice(['sigterm_timeout', 'sigkill_timeout', 'my_to']),
                          rng.choice(['0.25', '4', '6.5', '1'])])
        else:
            steps.append([t, what, chosen])
    steps.sort()
    work = [[rng.choice(['timer', 'keep-timer', 'coroutine', 'coroutine']), when(rng, 30.)]
            for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]
    triggers = []
    roll = rng.random()
    for _ in range(0 if roll < p.get('idle', .35) else 1 if roll < .85 else 2):
        kind = rng.choice(['action', 'substitution', 'event', 'sigint', 'sigint', 'service',
                           'service-later', 'error', 'outside', 'outside-sigint'] +
                          p.get('triggers', []))
        triggers.append([when(rng, 25.), kind, 'why-%d' % rng.randrange(1000)])
        if kind.startswith('outside'):
            # the run must not become idle in the meantime
            work.append(['timer', triggers[-1][0] + .001])
    inline = None
    if rng.random() < .06:
        inline = [rng.randint(0, len(procs)), rng.choice(['action', 'event', 'service'])]
    endless = any(any(life['exit'] is None for life in q['lives']) or (q['respawn'] and q['retries'] in (None, -1))
                  for q in procs)
    if endless and not triggers:
        triggers.append([when(rng, 40.), 'action', 'limit'])
    return {
        'procs': procs, 'steps': steps, 'work': work, 'triggers': triggers, 'inline': inline,
        'configs': {k: rng.choice(['0.5', '3', '1.25', '8']) for k in
                    rng.sample(['sigterm_timeout', 'sigkill_timeout'], rng.choice([0, 0, 1, 2]))},
        'interactive': rng.random() < .5, 'when_idle': endless or rng.random() < .85,
        'shutdown_handlers': rng.randint(0, 3), 'shared': rng.random() < .5,
    }


# ---------------------------------------------------------------- model

class Incarnation:
    def __init__(self, start, script):
        self.start, self.script = start, script
        self.exit = self.code = None
        self.journal = []


class Model:

    def __init__(self, case, stalled=None):
        self.case = case
        self.stalled = stalled
        self.heap, self.n, self.now = [], 0, 0.
        self.configs = dict(case['configs'])
        self.configs.update({'my_to': '1.5'})
        self.procs = [dict(incs=[], state='new', stopping=False, sigint=None, count=0, done=None,
                           deferred=None) for _ in case['procs']]
        self.shutdown_at = self.reason = self.sigint = None
        self.rc = 0
        self.timers = {}      # pending, cancelled by the shutdown
        self.fired = []
        self.coroutines = {}  # number -> [end, cancelled at]
        self.ended = 0.
        self.signals = self.repeated = 0
        self.run()

    def at(self, t, function, *args):
        self.n += 1
        heapq.heappush(self.heap, (t, self.n, function, args))

    def text(self, spec, default):
        if spec is None:
            return self.configs.get(default, '5')
        if isinstance(spec, list):
            kind = spec[0]
            return {'sub': lambda: ''.join(spec[1:]), 'config': lambda: self.configs[spec[1]],
                    'default': lambda: spec[2], 'python': lambda: str(eval(spec[1]))}[kind]()
        return str(spec)

    def run(self):
        case = self.case
        inline = case['inline']
        key = 0
        for n, proc in enumerate(case['procs']):
            if proc['start'] == 'shutdown':
                continue
            if proc['start']:
                key += 1
                self.timers[key] = True
                if proc['keep']:
                    self.timers[key] = False
                self.at(proc['start'], self.timer, key, self.execute, (n,))
            elif not (inline and inline[1] == 'service' and inline[0] <= n):
                self.execute(n)
            else:
                self.procs[n].update(state='refused', done=0.)
        for step in case['steps']:
            key += 1
            self.timers[key] = True
            self.at(step[0], self.timer, key, self.step, (step,))
        for kind, t in case['work']:
            key += 1
            if kind == 'coroutine':
                self.coroutines[key] = [t, None]
                self.at(t, self.coroutine, key)
            else:
                self.timers[key] = kind == 'timer'
                self.at(t, self.timer, key, lambda: None, ())
        for t, kind, reason in case['triggers']:
            key += 1
            self.timers[key] = True
            self.at(t, self.timer, key, self.trigger, (kind, reason))
        if inline:
            self.trigger(inline[1], 'inline')
        while True:
            while self.heap:
                self.now, _, function, args = heapq.heappop(self.heap)
                function(*args)
            if self.shutdown_at is not None:
                break
            self.now = self.ended if self.stalled is None else self.stalled
            if self.stalled is None:
                self.shutdown('idle', False)
            else:
                self.shutdown('LaunchService.shutdown() called', False)

    def busy(self):
        self.ended = max(self.ended, self.now)

    def timer(self, key, function, args):
        if key not in self.timers:
            return
        del self.timers[key]
        self.busy()
        self.fired.append((self.now, key))
        function(*args)

    def coroutine(self, key):
        if self.coroutines[key][1] is None:
            self.busy()

    def trigger(self, kind, reason):
        if kind in ('service', 'service-later', 'outside'):
            self.shutdown('LaunchService.shutdown() called', False)
        elif kind == 'error':
            self.rc = 1
            self.shutdown('Caught exception in launch (see debug for traceback): ' + reason, False)
        elif kind in ('sigint', 'outside-sigint'):
            self.shutdown(reason, True)
        else:
            self.shutdown(reason, False)

    def shutdown(self, reason, sigint):
        if self.shutdown_at is not None:
            self.repeated += 1
            if any(p['state'] == 'starting' and p['deferred'] is False for p in self.procs):
                self.ambiguous = True     # asked again, now not by the terminal
            return
        self.busy()
        self.shutdown_at, self.reason, self.sigint = self.now, reason, sigint
        self.timers = {k: v for k, v in self.timers.items() if not v}
        for c in self.coroutines.values():
            if c[0] > self.now:
                c[1] = self.now
        for n in range(len(self.procs)):
            if self.case['procs'][n]['start'] == 'shutdown':
                self.procs[n].update(state='refused', done=self.now)
            self.stop(n, not sigint or not self.case['interactive'])

    def execute(self, n):
        p, proc = self.procs[n], self.case['procs'][n]
        if self.shutdown_at is not None:
            p['state'] = 'refused'
            p['done'] = self.now
            return
        p['state'] = 'starting'
        if proc['fault']:
            self.at(self.now + proc['latency'], self.failed, n)
        elif proc['latency']:
            self.at(self.now + proc['latency'], self.start, n)
        else:
            self.start(n)

    def failed(self, n):
        self.done(n, 'failed')

    def done(self, n, state='done'):
        self.busy()
        self.procs[n].update(state=state, done=self.now)

    def start(self, n):
        self.busy()
        p, proc = self.procs[n], self.case['procs'][n]
        p['state'] = 'running'
        inc = Incarnation(self.now, proc['lives'][min(len(p['incs']), len(proc['lives']) - 1)])
        p['incs'].append(inc)
        if inc.script['exit'] is not None:
            self.at(self.now + inc.script['exit'][0], self.exit, n, inc, inc.script['exit'][1])
        if p['deferred'] is not None:
            self.stop(n, p['deferred'])

    def stop(self, n, sigint):
        p, proc = self.procs[n], self.case['procs'][n]
        if p['stopping']:
            return
        if p['state'] == 'starting':
            if p['deferred'] is not None and p['deferred'] != sigint:
                self.ambiguous = True
            p['deferred'] = sigint
            return
        if p['state'] == 'waiting':
            p['stopping'] = True
            self.done(n)
            return
        if p['state'] != 'running':
            return
        p['stopping'] = True
        t1 = float(self.text(proc['t1'], 'sigterm_timeout'))
        t2 = float(self.text(proc['t2'], 'sigkill_timeout'))
        inc = p['incs'][-1]
        if sigint:
            self.send(n, inc, 2)
        self.at(self.now + t1, self.escalate, n, inc, 15)
        self.at(self.now + t1 + t2, self.escalate, n, inc, 9)

    ambiguous = False

    def escalate(self, n, inc, signum):
        if inc.exit is None:
            self.send(n, inc, signum)

    def send(self, n, inc, signum):
        if inc.exit is not None:
            return
        self.busy()
        self.signals += 1
        inc.journal.append((self.now, signum))
        reaction = inc.script['sig'].get(str(signum), [0, -signum])
        if signum == 9:
            reaction = inc.script.get('kill', [0, -9])
        if reaction is not None:
            self.at(self.now + reaction[0], self.exit, n, inc, reaction[1])

    def exit(self, n, inc, code):
        if inc.exit is not None:
            return
        self.busy()
        p, proc = self.procs[n], self.case['procs'][n]
        inc.exit, inc.code = self.now, code
        p['state'] = 'waiting'
        respawn = proc['respawn'] and proc['respawn'] not in (['sub', 'false'], ['config', 'no'])
        retries = -1 if proc['retries'] is None else proc['retries']
        again = respawn and not p['stopping'] and self.shutdown_at is None and \
            (retries < 0 or p['count'] < retries)
        if again:
            p['count'] += 1
            self.at(self.now + (proc['delay'] or 0.), self.again, n)
        else:
            self.done(n)
        if proc['on_exit'] == 'shutdown':
            self.shutdown('process exited', False)

    def again(self, n):
        if self.procs[n]['state'] != 'waiting':
            return
        if self.case['procs'][n]['latency']:
            self.procs[n]['state'] = 'starting'
            self.at(self.now + self.case['procs'][n]['latency'], self.start, n)
        else:
            self.start(n)

    def step(self, step):
        what = step[1]
        if what == 'config':
            self.configs[step[2]] = step[3]
        elif what == 'stop':
            for n in step[2]:
                self.stop(n, True)
        elif what == 'signal':
            number = {'SIGUSR1': 10, 'SIGKILL': 9}.get(step[3], step[3])
            for n in step[2]:
                if self.procs[n]['state'] == 'running':
                    self.send(n, self.procs[n]['incs'][-1], number)
        elif what == 'again':
            for n in step[2]:
                if self.procs[n]['state'] not in ('new', 'refused'):
                    self.rc = 1
                    self.shutdown(None, False)   # the reason names the action, see judge
                    return


# ---------------------------------------------------------------- execution

class Record:
    """What the monitors saw."""


def substitution(spec):
    if isinstance(spec, list):
        kind = spec[0]
        return {'sub': lambda: [TextSubstitution(text=t) for t in spec[1:]],
                'config': lambda: LaunchConfiguration(spec[1]),
                'default': lambda: EnvironmentVariable('VF_' + spec[1], default_value=spec[2]),
                'python': lambda: PythonExpression([spec[1]])}[kind]()
    return str(spec) if isinstance(spec, float) else spec


def perform(case):
    rec = Record()
    rec.case = case
    service, loop = new_service(noninteractive=not case['interactive'])
    t0 = loop.now
    rec.events, rec.shutdowns, rec.exits, rec.coroutines = [], [], [], {}
    rec.timers, rec.raised = [], []
    rec.taps = {}
    actions, index = [], {}
    latencies, faults = {}, set()

    def now():
        return loop.now - t0

    for n, proc in enumerate(case['procs']):
        script = json.dumps({'lives': proc['lives'], 'id': n})
        kwargs = {}
        for key, name in (('t1', 'sigterm_timeout'), ('t2', 'sigkill_timeout'),
                          ('respawn', 'respawn'), ('retries', 'respawn_max_retries'),
                          ('delay', 'respawn_delay'), ('format', 'output_format')):
            if proc[key] is not None:
                kwargs[name] = substitution(proc[key]) if key in ('t1', 't2', 'respawn') \
                    else proc[key]
        latencies[script] = proc['latency']
        if proc['fault']:
            faults.add(script)
        if proc['cached']:
            kwargs['cached_output'] = True
        if proc['log_cmd']:
            kwargs['log_cmd'] = True

        def mark(n=n):
            def visited(context):
                event = context.locals.event
                rec.exits.append((now(), n, event.pid, event.returncode))
            return OpaqueFunction(function=visited)

        if proc['on_exit'] is not None:
            kwargs['on_exit'] = {
                'action': lambda: mark(), 'list': lambda: [mark(), mark()],
                'callable': lambda: (lambda event, context, m=mark: [m()]),
                'callable-none': lambda: (lambda event, context, n=n: rec.exits.append(
                    (now(), n, event.pid, event.returncode))),
                'shutdown': lambda: [mark(), Shutdown(reason='process exited')]}[proc['on_exit']]()
        if proc['local']:
            action = ExecuteLocal(process_description=Executable(
                cmd=['sim', script], name=proc['name']), **kwargs)
        else:
            action = ExecuteProcess(cmd=['sim', script], name=proc['name'], **kwargs)
        actions.append(action)
        index[action] = n
    rec.actions = actions
    loop.spawn_latency = lambda cmd: latencies.get(cmd[-1], 0)
    loop.fault = lambda cmd: FileNotFoundError(2, 'No such file', 'sim') \
        if cmd[-1] in faults else None

    def record(event, context):
        kind = type(event)
        n = index.get(getattr(event, 'action', None))
        if kind in (ProcessStarted, ProcessExited):
            rec.events.append((now(), kind.__name__, n, event.pid, {
                'name': event.process_name, 'cmd': list(event.cmd), 'cwd': event.cwd,
                'env': dict(event.env), 'code': getattr(event, 'returncode', None),
                'details_pid': actions[n].process_details['pid'],
                'return_code': actions[n].return_code}))
            if kind is ProcessStarted and event.process_name not in rec.taps:
                taps = rec.taps[event.process_name] = []
                for stream in ('stdout', 'stderr'):
                    tap = LogTap()
                    logging.getLogger('%s-%s' % (event.process_name, stream)).addHandler(tap)
                    taps.append(tap)
        elif kind in (ProcessStdout, ProcessStderr):
            rec.events.append((now(), kind.__name__, n, event.pid, event.text))
        elif kind is ExecutionComplete and n is not None:
            rec.events.append((now(), 'complete', n, None, None))
        elif kind is ShutdownEvent:
            rec.events.append((now(), 'shutdown', None, None, event.reason))

    def on_shutdown(number):
        def called(event, context):
            rec.shutdowns.append((now(), number, event.reason, event.due_to_sigint))
        return OnShutdown(on_shutdown=called)

    rec.fault_taps = {}

    def watch(n):
        def attach(context):
            details = actions[n].process_details
            if details is not None and case['procs'][n]['fault']:
                tap = rec.fault_taps[n] = LogTap()
                logging.getLogger(details['name']).addHandler(tap)
        return [actions[n], OpaqueFunction(function=attach)]

    def signal_step(step):
        chosen = {actions[n] for n in step[2]}
        started = {json.loads(t.cmd[-1])['id'] for t in loop.processes}
        chosen = {a for a in chosen if index[a] in started}
        return EmitEvent(event=SignalProcess(
            signal_number=signal.Signals(step[3]) if isinstance(step[3], int) else step[3],
            process_matcher=lambda action: action in chosen))

    def perform_step(step):
        what = step[1]
        if what == 'config':
            return [SetLaunchConfiguration(step[2], step[3])]
        if what == 'stop':
            chosen = {actions[n] for n in step[2]}
            return [EmitEvent(event=ShutdownProcess(
                process_matcher=lambda action: action in chosen))]
        if what == 'signal':
            return [signal_step(step)]
        if what == 'again':
            # executed before, or else it would only now be executed
            return [a for a in (actions[n] for n in step[2]) if a.process_details is not None]
        raise AssertionError(what)

    def trigger(kind, reason):
        if kind == 'action':
            return [Shutdown(reason=reason)]
        if kind == 'substitution':
            return [Shutdown(reason=[TextSubstitution(text=reason)])]
        if kind == 'event':
            return [EmitEvent(event=ShutdownEvent(reason=reason))]
        if kind == 'sigint':
            return [EmitEvent(event=ShutdownEvent(reason=reason, due_to_sigint=True))]
        if kind == 'service':
            service.shutdown(force_sync=True)
            return []
        if kind.startswith('outside'):
            def outside():
                if kind == 'outside':
                    service.shutdown(force_sync=True)
                else:
                    service.emit_event(ShutdownEvent(reason=reason, due_to_sigint=True))
            # time only passes when everything waits
            loop.call_later(5e-7, outside)
            return []
        if kind == 'service-later':
            loop.call_soon(lambda: service.shutdown(force_sync=True))
            return []
        raise ValueError(reason)

    def later(t, function, *args):
        return TimerAction(period=t, actions=[
            OpaqueFunction(function=lambda context: function(*args))])

    entities = []
    for k, value in list(case['configs'].items()) + [('my_to', '1.5'), ('yes', 'true'),
                                                     ('no', 'false')]:
        entities.append(SetLaunchConfiguration(k, value))
    inline = case['inline']
    in_here = OpaqueFunction(function=lambda context: trigger(inline[1], 'inline'))
    for n, proc in enumerate(case['procs']):
        if inline and inline[0] == n:
            entities.append(in_here)
        if proc['start'] == 'shutdown':
            entities.append(RegisterEventHandler(OnShutdown(
                on_shutdown=watch(n), handle_once=True)))
        elif proc['start']:
            entities.append(TimerAction(period=proc['start'], actions=watch(n),
                                        cancel_on_shutdown=not proc['keep']))
        else:
            entities.extend(watch(n))
    if inline and inline[0] == len(case['procs']):
        entities.append(in_here)
    for step in case['steps']:
        entities.append(later(step[0], perform_step, step))

    async def sleeper(context, key, t):
        rec.coroutines[key] = 'running'
        try:
            await asyncio.sleep(t)
            rec.coroutines[key] = 'done'
        except asyncio.CancelledError:
            rec.coroutines[key] = ('cancelled', now())
            raise

    sleeps = []

    async def next_sleeper(context):
        await sleeper(context, *sleeps.pop(0))
    shared = OpaqueCoroutine(coroutine=next_sleeper)
    for key, (kind, t) in enumerate(case['work']):
        if kind == 'coroutine':
            if case.get('shared'):
                # one action, which is executed several times
                sleeps.append((key, t))
                entities.append(shared)
            else:
                entities.append(OpaqueCoroutine(coroutine=sleeper, args=[key, t]))
        else:
            entities.append(TimerAction(
                period=t, cancel_on_shutdown=kind == 'timer', actions=[OpaqueFunction(
                    function=lambda context, key=key: rec.timers.append((now(), key)))]))
    for t, kind, reason in case['triggers']:
        entities.append(later(t, trigger, kind, reason))
    service.context.register_event_handler(Handler(lambda event: True, record))
    for n in range(case['shutdown_handlers']):
        handler = on_shutdown(n)
        if n % 2:
            service.context.register_event_handler(handler)
        else:
            entities.insert(0, RegisterEventHandler(handler))
    rec.stalled = None

    def stall():
        if rec.stalled is None:
            rec.stalled = now()
            rec.running_at_stall = [t.pid for t in loop.processes if t.returncode is None]
            loop.call_soon(lambda: service.shutdown(force_sync=True))
            return True
        return False

    if not case['when_idle']:
        loop.on_stall = stall
    rec.left = []
    try:
        service.include_launch_description(LaunchDescription(entities))
        rec.result = execute(service, loop, shutdown_when_idle=case['when_idle'])
    finally:
        rec.left = finish(loop)
    rec.ended = rec.result.ended_at - t0
    rec.transports = [[] for _ in actions]
    for t in loop.processes:
        rec.transports[json.loads(t.cmd[-1])['id']].append(t)
    rec.t0 = t0
    rec.model = Model(case, rec.stalled)
    return rec


def close(a, b):
    return a is b or (a is not None and b is not None and abs(a - b) < 2e-6)


def ended_well(rec, obs):
    """Report runs which did not end; True if there is something to judge."""
    if rec.result.deadlock:
        obs.fail('deadlock', 'the run cannot end: %r' % rec.result.error)
        return False
    if rec.result.error is not None:
        import traceback
        obs.fail('run-raised', ''.join(traceback.format_exception(rec.result.error))[-1500:])
        return False
    return not rec.model.ambiguous


# ---------------------------------------------------------------- monitors

def judge_shutdown(rec, obs):
    """C09."""
    m, case = rec.model, rec.case
    obs.equal(rec.result.rc, m.rc, 'return-code', 'return code')
    seen = [e for e in rec.events if e[1] == 'shutdown']
    if not seen:
        obs.fail('not-announced', 'no Shutdown event was processed')
        return
    # executing a Shutdown action afterwards asks for another event
    obs.expect(len(seen) <= 1 + m.repeated, 'announced-again', 'shutdown events: %r' % seen)
    obs.expect(close(seen[0][0], m.shutdown_at), 'shutdown-time',
               'shutdown (%r) was announced at %r instead of %r' % (
                   seen[0][4], seen[0][0], m.shutdown_at))
    if m.reason is not None:
        obs.equal(seen[0][4], m.reason, 'reason', 'reason of the shutdown')
    for n in range(case['shutdown_handlers']):
        got = [s for s in rec.shutdowns if s[1] == n]
        obs.count('handlers_told', len(got))
        if len(got) != len(seen) or not close(got[0][0], m.shutdown_at) or \
                (m.reason is not None and got[0][2] != m.reason) or got[0][3] != m.sigint:
            obs.fail('handler', 'shutdown handler %d was called with %r, expected for %d events, first %r' % (
                n, got, len(seen), (m.shutdown_at, m.reason, m.sigint)))
    for n, transports in enumerate(rec.transports):
        for t in transports:
            started = t.started_at - rec.t0
            p = m.procs[n]
            if started > m.shutdown_at + 1e-6 and p['deferred'] is None:
                obs.fail('started-late', 'process %d was started at %r, after the shutdown at %r' %
                         (n, started, m.shutdown_at))
            obs.expect(t.returncode is not None and t.notified, 'left-running',
                       'process %d still ran when run() returned (signals %r)' % (n, t.journal))
            obs.count('processes')
            if t.returncode is None or close(t.exited_at - rec.t0, rec.ended):
                obs.count('last_to_go')
        obs.count('refused', m.procs[n]['state'] == 'refused')
    obs.expect(not rec.left, 'left-pending', 'left when run() returned: %r' % rec.left)
    obs.expect(close(rec.ended, m.ended), 'end-time',
               'run() returned at %r instead of %r' % (rec.ended, m.ended))
    key = len([p for p in case['procs'] if p['start']]) + len(case['steps'])
    for k, (kind, t) in enumerate(case['work']):
        if kind == 'coroutine':
            want = 'done' if t < m.shutdown_at + 1e-6 else ('cancelled', m.shutdown_at)
            got = rec.coroutines.get(k)
            ok = got == want if isinstance(want, str) or isinstance(got, (str, type(None))) else \
                close(got[1], want[1])
            obs.expect(ok, 'coroutine', 'coroutine %d: %r instead of %r' % (k, got, want))
            obs.count('coroutines_cancelled', want != 'done')
            obs.count('coroutines_again', bool(case.get('shared')) and sum(w[0] == kind for w in case['work']) > 1)
        else:
            fired = [x for x in rec.timers if x[1] == k]
            want = t < m.shutdown_at + 1e-6 or kind == 'keep-timer'
            obs.expect(len(fired) == want, 'timer', 'timer %d: fired %r, expected %r' % (
                k, fired, want))
            obs.count('timers_cancelled', not want)
    if rec.stalled is not None:
        obs.expect(not rec.running_at_stall, 'stalled', 'stalled while processes ran')
        obs.count('ended_by_hand')
    obs.count('trigger_' + ('idle' if m.reason == 'idle' else 'sigint' if m.sigint else
                            'error' if m.rc else 'other'))
    if any(rec.transports) and (case['triggers'] or case['work']):
        obs.sig([m.shutdown_at, m.reason, m.ended, [len(t) for t in rec.transports]])


def judge_signals(rec, obs):
    """C10."""
    m = rec.model
    got_some = 0
    for n, transports in enumerate(rec.transports):
        incs = m.procs[n]['incs']
        obs.equal(len(transports), len(incs), 'starts', 'starts of process %d' % n)
        for k, (t, inc) in enumerate(zip(transports, incs)):
            got = [(round(when_ - rec.t0, 5), s) for when_, s, alive in t.journal if alive]
            want = [(round(when_, 5), s) for when_, s in inc.journal]
            ok = len(got) == len(want) and all(
                g[1] == w[1] and abs(g[0] - w[0]) < 3e-5 for g, w in zip(got, want))
            obs.expect(ok, 'signals', 'signals sent to process %d.%d: expected %r, observed %r '
                       '(started %r, shutdown %r)' % (n, k, want, got, inc.start, m.shutdown_at))
            obs.expect(t.returncode == inc.code and close(t.exited_at - rec.t0, inc.exit), 'end',
                       'process %d.%d ended %r with %r, expected %r with %r' % (
                           n, k, t.exited_at and t.exited_at - rec.t0, t.returncode, inc.exit,
                           inc.code))
            late = [j for j in t.journal if not j[2]]
            obs.expect(not late, 'signal-after-exit',
                       'signals sent to process %d.%d after its exit: %r' % (n, k, late))
            numbers = [s for _, s in want]
            obs.count('signals', len(want))
            obs.count('sigterms', 15 in numbers)
            obs.count('sigkills', 9 in numbers)
            if m.shutdown_at is not None and m.sigint and rec.case['interactive'] and \
                    inc.exit and inc.exit > m.shutdown_at:
                obs.count('terminal_sigints')
            got_some += len(want)
    if got_some >= 2:
        obs.sig([[inc.journal for inc in p['incs']] for p in m.procs])


def judge_life(rec, obs):
    """C11."""
    m, case = rec.model, rec.case
    seen = 0
    for n, proc in enumerate(case['procs']):
        events = [e for e in rec.events if e[2] == n]
        transports = rec.transports[n]
        order = []
        for e in events:
            if e[1] in ('ProcessStdout', 'ProcessStderr'):
                if not order or order[-1] != 'io':
                    order.append('io')
            elif e[1] != 'complete' or order[-1:] != ['complete'] or \
                    not any(s[1] == 'again' for s in case['steps']):
                order.append(e[1])
        want = []
        for t in transports:
            want.append('ProcessStarted')
            if t.sent:
                want.append('io')
            want.append('ProcessExited')
        if m.procs[n]['state'] != 'new':
            want.append('complete')
        obs.equal(order, want, 'order', 'events of process %d (%d starts)' % (n, len(transports)))
        obs.count('starts', len(transports))
        names = {e[4]['name'] for e in events if e[1] in ('ProcessStarted', 'ProcessExited')}
        obs.expect(len(names) <= 1, 'names', 'process %d has the names %r' % (n, names))
        starts = [e for e in events if e[1] == 'ProcessStarted']
        ends = [e for e in events if e[1] == 'ProcessExited']
        for t, start, end in zip(transports, starts, ends):
            for e in (start, end):
                obs.equal((e[3], e[4]['cmd'], e[4]['cwd'], e[4]['env']),
                          (t.pid, t.cmd, t.cwd, t.env), 'fields', 'pid, cmd, cwd and env of %s of '
                          'process %d' % (e[1], n))
            obs.equal(end[4]['code'], t.returncode, 'code', 'return code of process %d' % n)
            obs.expect(close(start[0], t.started_at - rec.t0) and
                       close(end[0], t.exited_at - rec.t0), 'times', 'times of the events of '
                       'process %d: %r and %r' % (n, start[0], end[0]))
            if len(transports) == 1:
                obs.equal((end[4]['return_code'], end[4]['details_pid'], start[4]['return_code']),
                          (t.returncode, t.pid, None if t.exited_at > t.started_at else
                           start[4]['return_code']), 'details',
                          'return_code and process_details of process %d' % n)
            for e in events:
                if e[1] in ('ProcessStdout', 'ProcessStderr') and e[3] == t.pid:
                    seen += 1
            obs.equal(sum(len(e[4]) for e in events if e[1] == 'ProcessStdout' and e[3] == t.pid),
                      sum(len(d) for _, fd, d in t.sent if fd == 1), 'output-pid',
                      'amount of output attributed to pid of process %d' % n)
        if ends:
            obs.equal((rec.actions[n].return_code, rec.actions[n].process_details['pid']),
                      (transports[-1].returncode, transports[-1].pid), 'after',
                      'return_code and pid of process %d after the run' % n)
        per = {'action': 1, 'list': 2, 'callable': 1, 'callable-none': 1, 'shutdown': 1}.get(
            proc['on_exit'], 0)
        got = [(e[2], e[3]) for e in rec.exits if e[1] == n]
        obs.equal(got, [(t.pid, t.returncode) for t in transports for _ in range(per)], 'on_exit',
                  'visits of on_exit (%s) of process %d' % (proc['on_exit'], n))
        obs.count('on_exits', len(got))
        complete = [e[0] for e in events if e[1] == 'complete']
        p = m.procs[n]
        if complete and p['done'] is not None:
            obs.expect(close(complete[0], p['done']), 'complete-time', 'process action %d was '
                       'complete at %r instead of %r' % (n, complete[0], p['done']))
        if proc['fault']:
            obs.equal(len(transports), 0, 'fault', 'starts of a process which cannot be started')
            if p['state'] == 'failed':
                obs.count('failed_starts')
                tap = rec.fault_taps.get(n)
                errors = [r for r in tap.records if r[1] >= logging.ERROR] if tap else []
                obs.expect(bool(errors), 'unreported', 'process %d could not be started, which '
                           'was not reported' % n)
    obs.equal(rec.result.rc, m.rc, 'return-code', 'return code')
    obs.count('repeated_executions', any(s[1] == 'again' for s in case['steps']) and m.rc)
    if sum(len(t) for t in rec.transports) >= 2:
        obs.sig([(e[0], e[1], e[2]) for e in rec.events])


def expected_lines(data):
    lines = data.decode('utf-8', 'replace').split('\n')
    return lines if lines[-1] else lines[:-1]


def judge_output(rec, obs):
    """C12."""
    amount = 0
    for n, proc in enumerate(rec.case['procs']):
        action = rec.actions[n]
        name = action.process_details and action.process_details['name']
        for fd, stream, kind in ((1, 'stdout', 'ProcessStdout'), (2, 'stderr', 'ProcessStderr')):
            lines, text = [], ''
            for t in rec.transports[n]:
                data = b''.join(d for _, f, d in t.sent if f == fd)
                got = b''.join(e[4] for e in rec.events if e[1] == kind and e[3] == t.pid)
                obs.equal(got, data, 'events', '%s of process %d in events' % (stream, n))
                lines.extend(expected_lines(data))
                text += data.decode('utf-8', 'replace')
                amount += len(data)
                obs.count('bytes', len(data))
                obs.count('unterminated', bool(data) and not data.endswith(b'\n'))
                obs.count('not_utf8', '\ufffd' in data.decode('utf-8', 'replace'))
            if rec.transports[n]:
                form = proc['format'] or '[{this.process_description.final_name}] {line}'
                want = [form.format(line=line, this=action) for line in lines]
                got = [r[2] for r in rec.taps[name][fd - 1].records]
                if got != want:
                    from .kit import first_difference
                    obs.fail('lines', '%s of process %d (cached %r) logged: %s' % (
                        stream, n, proc['cached'], first_difference(want, got)))
                obs.count('lines', len(want))
            getter = getattr(action, 'get_' + stream)
            if proc['cached']:
                obs.equal(getter(), text, 'cached', 'get_%s() of process %d' % (stream, n))
                obs.count('cached')
            else:
                try:
                    getter()
                    obs.fail('not-cached', 'get_%s() of a process without cached_output returned' %
                             stream)
                except RuntimeError:
                    pass
    if amount > 30:
        obs.sig([[(f, d) for t in ts for _, f, d in t.sent] for ts in rec.transports])


def judge_respawn(rec, obs):
    """C13."""
    m = rec.model
    again = 0
    for n, proc in enumerate(rec.case['procs']):
        want = [(round(i.start, 5), i.code) for i in m.procs[n]['incs']]
        got = [(round(t.started_at - rec.t0, 5), t.returncode) for t in rec.transports[n]]
        ok = len(got) == len(want) and all(
            abs(g[0] - w[0]) < 3e-5 and g[1] == w[1] for g, w in zip(got, want))
        obs.expect(ok, 'restarts', 'process %d (respawn %r, delay %r, retries %r) was started at '
                   'and ended with %r, expected %r (shutdown %r)' % (
                       n, proc['respawn'], proc['delay'], proc['retries'], got, want,
                       m.shutdown_at))
        obs.count('restarts', max(0, len(want) - 1))
        again += max(0, len(want) - 1)
        for kind in ('ProcessStarted', 'ProcessExited'):
            obs.equal([e[3] for e in rec.events if e[1] == kind and e[2] == n],
                      [t.pid for t in rec.transports[n]], 'events',
                      '%s events of process %d' % (kind, n))
        p = m.procs[n]
        if p['stopping'] and len(want) > 1:
            obs.count('stopped_respawning')
        if p['stopping'] and p['incs'] and p['done'] is not None and \
                p['incs'][-1].exit < p['done'] - 1e-6:
            obs.count('stopped_in_delay')
        if want and proc['respawn'] and proc['retries'] not in (None, -1) and \
                p['count'] == proc['retries']:
            obs.count('retries_exhausted')
    if any(p['stopping'] for p in m.procs):
        obs.expect(close(rec.ended, m.ended), 'end-time',
                   'run() returned at %r instead of %r' % (rec.ended, m.ended))
    if again:
        obs.sig([[(i.start, i.code) for i in p['incs']] for p in m.procs])
