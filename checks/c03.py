"""C03: targeted event handlers react to exactly their target and event."""
import json
import signal

from launch import LaunchDescription
from launch.actions import (EmitEvent, ExecuteLocal, ExecuteProcess, LogInfo, OpaqueFunction,
                            RegisterEventHandler, TimerAction)
from launch.descriptions import Executable
from launch.event_handlers import (OnExecutionComplete, OnIncludeLaunchDescription, OnProcessExit,
                                   OnProcessIO, OnProcessStart, OnShutdown)
from launch.event_handlers.event_named import event_named
from launch.events import (ExecutionComplete, IncludeLaunchDescription, matches_action, Shutdown,
                           TimerEvent)
from launch.events.process import (matches_executable, matches_name, matches_pid, ProcessExited,
                                   ProcessIO, ProcessStarted, ProcessStderr, ProcessStdin,
                                   ProcessStdout, ShutdownProcess, SignalProcess)
from vf.kit import Handler, MyEvent, Visit, execute, finish, judge, new_service

CASES = {'quick': 8000, 'thorough': 150000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 40
NEED = {'reactions': 20000, 'rejections': 20000, 'signals_matched': 2000, 'io_callbacks': 5000,
        'handlers_without_target': 1000}
RULE = ('a case runs several simulated processes (some respawning), plain actions and inclusions '
        'with random targeted handlers; the reactions of each handler must be the sublist of the '
        'events seen by a catch-all recorder, itself checked against the journals of the '
        'processes, which stem from its target; non-trivial: at least 3 handlers reacted')
ASSUMPTIONS = ['virtual time', 'processes are simulated below the asyncio subprocess API']

KINDS = {'start': ProcessStarted, 'io': ProcessIO, 'exit': ProcessExited,
         'complete': ExecutionComplete}
CLASSES = {'start': (OnProcessStart, 'on_start'), 'exit': (OnProcessExit, 'on_exit'),
           'complete': (OnExecutionComplete, 'on_completion')}


def gen(rng, i, tier):
    procs = []
    for n in range(rng.randint(1, 4)):
        life = rng.choice([0, round(rng.uniform(.01, 20), 3), 100.5])
        procs.append({
            'life': life, 'code': rng.choice([0, 0, 1, 3, -9]),
            'out': sorted([[round(rng.uniform(0, 9), 3), rng.choice([1, 1, 2]), 'p%d-%d\n' % (n, k)]
                           for k in range(rng.choice([0, 1, 3]))]),
            'exe': rng.choice(['sim', '/usr/bin/sim', 'other', 'bin/sim2', 'im', '/m']),
            'name': rng.choice([None, None, 'twin', 'n%d' % n]),
            'local': rng.random() < .4,
            'respawn': rng.choice([0, 0, 0, 1, 2]), 'delay': rng.choice([None, 0.5]),
            'start': rng.choice([0, 0, .5])})
    plains = rng.randint(0, 3)
    targets = ['p%d' % n for n in range(len(procs))]
    everything = targets + ['a%d' % n for n in range(plains)]
    handlers = []
    for n in range(rng.randint(2, 10)):
        kind = rng.choice(['start', 'io', 'io', 'exit', 'complete', 'shutdown', 'named', 'include'])
        pool = everything if kind == 'complete' else targets
        style = rng.choice(['action', 'action', 'none', 'callable', 'matches'])
        handler = {'kind': kind, 'style': style, 'target': rng.choice(pool),
                   'set': sorted(rng.sample(pool, rng.randint(0, len(pool)))),
                   'answer': rng.choice(['action', 'list', 'tuple', 'iterator', 'empty', 'callable-none',
                                         'callable-action', 'callable-list', 'callable-ld',
                                         'callable-iterator']),
                   'once': rng.random() < .15, 'via': rng.choice(['context', 'action'])}
        if kind == 'complete' and style == 'none':
            # an action yielded here would be completed, too, and so on
            handler['answer'] = rng.choice(['empty', 'callable-none'])
        if kind == 'start' and style == 'action' and procs[int(handler['target'][1:])]['local']:
            handler['style'] = 'matches'    # only documented for ExecuteProcess
        if kind == 'io':
            handler['fds'] = sorted(rng.sample([0, 1, 2], rng.randint(1, 3)))
        if kind == 'named':
            handler['name'] = rng.choice([
                'launch.events.process.ProcessStarted', 'launch.events.process.ProcessExited',
                'launch.events.Shutdown', 'launch.events.process.ProcessStdout',
                'launch.events.process.ProcessIO', 'verif.MyEvent', 'nothing'])
        handlers.append(handler)
    steps = []
    for n in range(rng.randint(0, 6)):
        t = round(rng.uniform(.6, 25), 3)
        what = rng.choice(['signal', 'signal', 'signal', 'stdin', 'include', 'mine', 'fake-exit',
                           'stop', 'fake-timer'])
        p = rng.randrange(len(procs))
        steps.append([t, what, p, rng.choice(['action', 'pid', 'name', 'executable', 'all', 'none',
                                              'set']),
                      rng.choice(['sim', 'bin/sim', 'm', 'other', '/usr/bin/sim', 'sim2', 'zzz'])])
    steps.sort()
    end = rng.choice([None, None, round(rng.uniform(5, 60), 3)])
    return {'procs': procs, 'plains': plains, 'handlers': handlers, 'steps': steps, 'end': end}


class FakeStart(ProcessStarted):
    name = 'verif.FakeStart'


def run(case, obs):
    service, loop = new_service()
    procs = case['procs']
    actions, names = [], {}
    for n, p in enumerate(procs):
        script = json.dumps({'out': p['out'], 'exit': [p['life'], p['code']], 'sig': {
            '10': None, '12': None, '2': [.01, 130]}, 'id': n})
        kwargs = {'respawn': bool(p['respawn']), 'respawn_max_retries': p['respawn'],
                  'respawn_delay': p['delay'], 'output': 'log'}
        cmd = [p['exe'], script]
        if p['local']:
            action = ExecuteLocal(
                process_description=Executable(cmd=cmd, name=p['name']), **kwargs)
        else:
            action = ExecuteProcess(cmd=cmd, name=p['name'], **kwargs)
        actions.append(action)
        names[action] = 'p%d' % n
    plains = [Visit(lambda context: None) for _ in range(case['plains'])]
    for n, action in enumerate(plains):
        names[action] = 'a%d' % n
    by_name = {v: k for k, v in names.items()}

    events, reactions, visits = [], [[] for _ in case['handlers']], [[] for _ in case['handlers']]
    io_fds = [[] for _ in case['handlers']]
    raw = []   # keeps the events alive

    def number(event):
        for n, e in enumerate(raw):
            if e is event:
                return n
        raw.append(event)
        return len(raw) - 1

    def record(event, context):
        events.append(event)
        number(event)

    def build(n, h):
        kind = h['kind']

        def mark():
            def visited(context):
                visits[n].append(number(context.locals.event))
            return OpaqueFunction(function=lambda context: visited(context))

        def reacted(event):
            reactions[n].append(number(event))

        def answer():
            a = h['answer']
            return {'callable-none': None, 'callable-action': mark(),
                    'callable-list': [mark(), mark()],
                    'callable-iterator': iter([mark(), mark()]),
                    'callable-ld': LaunchDescription([mark()])}[a]
        plain = {'action': mark(), 'list': [mark(), mark()], 'tuple': (mark(),),
                 'iterator': [mark(), mark()] if kind == 'io' else iter([mark(), mark()]),
                 'empty': []}.get(h['answer'])
        if kind != 'io' and h['answer'].startswith('callable'):
            plain = (lambda event, context: (reacted(event), answer())[1])
        h['per'] = {'action': 1, 'list': 2, 'tuple': 1, 'iterator': 2, 'empty': 0,
                    'callable-none': 0, 'callable-action': 1, 'callable-list': 2,
                    'callable-iterator': 2, 'callable-ld': 1}[h['answer']]
        target = {'action': by_name[h['target']], 'none': None,
                  'callable': lambda action: names.get(action) in h['set'],
                  'matches': matches_action(by_name[h['target']])}[h['style']]
        once = {'handle_once': True} if h['once'] else {}
        if kind == 'io':
            def callback(fd):
                def called(event):
                    reacted(event)
                    io_fds[n].append((number(event), fd))
                    return answer() if h['answer'].startswith('callable') else \
                        (None if h['answer'] == 'empty' else plain)
                return called
            return OnProcessIO(target_action=target, **once, **{
                ('on_stdin', 'on_stdout', 'on_stderr')[fd]: callback(fd) for fd in h['fds']})
        if kind == 'shutdown':
            return OnShutdown(on_shutdown=plain, **once)
        if kind == 'include':
            handler = OnIncludeLaunchDescription(**once)
            original = handler.handle

            def handle(event, context):
                reacted(event)
                original(event, context)    # the default handler includes it already
                return None
            handler.handle = handle
            return handler
        if kind == 'named':
            return Handler(event_named(h['name']), lambda event, context: reacted(event), **once)
        cls, keyword = CLASSES[kind]
        return cls(target_action=target, **{keyword: plain}, **once)

    handlers = [build(n, h) for n, h in enumerate(case['handlers'])]
    recorder = Handler(lambda event: True, record)
    service.context.register_event_handler(recorder)
    entities = []
    for n, h in enumerate(case['handlers']):
        if h['via'] == 'context':
            service.context.register_event_handler(handlers[n])
        else:
            entities.append(RegisterEventHandler(handlers[n]))
    expected_signals = {}
    sent = []

    def step(t, what, p, how, exe):
        def perform(context):
            action = actions[p]
            if not all(getattr(a, '_subprocess_transport', a.process_details) is not None for a in actions):
                return None          # signals to processes which were not started are errors
            if what == 'signal':
                details = action.process_details
                matcher = {'action': matches_action(action), 'pid': matches_pid(details['pid']),
                           'name': matches_name(details['name']),
                           'executable': matches_executable(exe),
                           'all': lambda a: True, 'none': lambda a: False,
                           'set': lambda a: a in actions[:p + 1]}[how]
                number_ = signal.SIGUSR1 if len(sent) % 2 else signal.SIGUSR2
                sent.append(number_)
                expect = []
                for k, a in enumerate(actions):
                    accept = {'action': k == p, 'pid': k == p, 'name': k == p,
                              'executable': procs[k]['exe'].endswith(exe), 'all': True,
                              'none': False, 'set': k <= p}[how]
                    expect.append(accept)
                    obs.equal(bool(matcher(a)), accept, 'matcher-' + how,
                              'matcher %s for process %d, targeted %d, exe %r' % (how, k, p, exe))
                expected_signals[(loop.now, int(number_))] = expect
                return [EmitEvent(event=SignalProcess(
                    signal_number=number_, process_matcher=matcher))]
            if what == 'stdin':
                return [EmitEvent(event=ProcessStdin(text=b'x', **action.process_details))]
            if what == 'include':
                return [EmitEvent(event=IncludeLaunchDescription(
                    LaunchDescription([LogInfo(msg='x')])))]
            if what == 'mine':
                return [EmitEvent(event=MyEvent('x', t))]
            if what == 'stop':
                return [EmitEvent(event=ShutdownProcess(process_matcher=matches_action(action)))]
            if what == 'fake-timer':
                return [EmitEvent(event=TimerEvent(timer_action=TimerAction(
                    period=1., actions=[])))]
            # an event of a subclass: handlers of the class react, those of its name do not
            return [EmitEvent(event=FakeStart(**action.process_details))]
        return TimerAction(period=t, actions=[OpaqueFunction(function=perform)])

    for n, action in enumerate(actions):
        start = procs[n]['start']
        entities.append(TimerAction(period=start, actions=[action]) if start else action)
    entities.extend(plains)
    entities.extend(step(*s) for s in case['steps'])
    if case['end'] is not None:
        entities.append(TimerAction(period=case['end'], actions=[
            EmitEvent(event=Shutdown(reason='end'))]))
    try:
        service.include_launch_description(LaunchDescription(entities))
        result = execute(service, loop)
    finally:
        finish(loop)
    if not judge(result, obs, 0):
        return

    # the recorder against the journals of the processes
    journal = sorted(
        [('start', t.pid) for t in loop.processes] +
        [('exit', t.pid, t.returncode) for t in loop.processes] +
        [('io', t.pid, fd, data.decode()) for t in loop.processes for _, fd, data in t.sent])
    seen = []
    for e in events:
        if type(e) is ProcessStarted:
            seen.append(('start', e.pid))
        elif type(e) is ProcessExited:
            seen.append(('exit', e.pid, e.returncode))
        elif type(e) in (ProcessStdout, ProcessStderr):
            seen.append(('io', e.pid, 1 if type(e) is ProcessStdout else 2, e.text.decode()))
            obs.equal((e.from_stdin, e.from_stdout, e.from_stderr),
                      (False, type(e) is ProcessStdout, type(e) is ProcessStderr),
                      'io-direction', 'direction of %r' % type(e).__name__)
    obs.equal(sorted(seen), journal, 'ground-truth', 'process events')
    owners = {}
    for t in loop.processes:
        owners[t.pid] = actions[json.loads(t.cmd[-1])['id']]
    for e in events:
        if isinstance(e, (ProcessStarted, ProcessExited, ProcessStdout, ProcessStderr)):
            obs.expect(e.action is owners.get(e.pid), 'event-action',
                       'event %r of pid %r carries the action of another process' % (e, e.pid))

    reacting = 0
    for n, h in enumerate(case['handlers']):
        kind = h['kind']
        want, fds = [], []
        for e in events:
            if kind in KINDS:
                accept = isinstance(e, KINDS[kind])
                if accept:
                    name = names.get(e.action)
                    accept = {'action': name == h['target'], 'matches': name == h['target'],
                              'none': True, 'callable': name in h['set']}[h['style']]
            elif kind == 'shutdown':
                accept = isinstance(e, Shutdown)
            elif kind == 'include':
                accept = isinstance(e, IncludeLaunchDescription)
            else:
                accept = e.name == h['name']
            if not accept:
                obs.count('rejections')
                continue
            want.append(number(e))
            if h['once']:
                break
        if h['via'] == 'action' and kind == 'include':
            # registered by the first inclusion itself
            want = [k for k in want if k != number(events[0])] if not h['once'] else None
        if want is None:
            continue
        if h['style'] == 'none':
            obs.count('handlers_without_target')
        got = reactions[n]
        if kind == 'io':
            stream = {k: 0 if raw[k].from_stdin else 1 if raw[k].from_stdout else 2 for k in want}
            fds = [(k, stream[k]) for k in want if stream[k] in h['fds']]
            obs.equal(io_fds[n], fds, 'io-callbacks', 'callbacks of handler %r' % (h,))
            obs.count('io_callbacks', len(fds))
            want = [k for k, _ in fds]
        if kind in ('io', 'include', 'named') or h['answer'].startswith('callable'):
            obs.equal([(k, raw[k].name) for k in got], [(k, raw[k].name) for k in want],
                      'reactions', 'events handled by %r' % (h,))
        if kind not in ('include', 'named'):
            per = h['per']
            obs.equal(visits[n], [k for k in want for _ in range(per)], 'visits',
                      'entities visited for %r' % (h,))
        obs.count('reactions', len(want))
        reacting += bool(want)
    for t in loop.processes:
        k = json.loads(t.cmd[-1])['id']
        got = [(when, s) for when, s, alive in t.journal if s in (10, 12) and alive]
        end = t.exited_at
        want = [key for key, expect in expected_signals.items() if expect[k] and
                t.started_at < key[0] and (end is None or key[0] < end)]
        ambiguous = [key for key, expect in expected_signals.items()
                     if key[0] in (t.started_at, end)]
        obs.equal(sorted(g for g in got if g not in ambiguous),
                  sorted(w for w in want if w not in ambiguous), 'signals',
                  'signals delivered to process %d' % k)
        obs.count('signals_matched', len(want))
    if reacting >= 3:
        obs.sig([(case['handlers'][n]['kind'], len(r)) for n, r in enumerate(reactions)] +
                [[type(e).__name__, names.get(getattr(e, 'action', None))] for e in events])
