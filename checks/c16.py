"""C16: an error never goes unnoticed and never leaves processes behind."""
import asyncio
import json
import logging
import signal

import launch.logging
from launch import LaunchDescription
from launch.actions import (AppendEnvironmentVariable, EmitEvent, ExecuteProcess, GroupAction,
                            IncludeLaunchDescription, LogInfo, OpaqueCoroutine, OpaqueFunction,
                            RegisterEventHandler, SetEnvironmentVariable, SetLaunchConfiguration,
                            Shutdown, TimerAction)
from launch.condition import Condition
from launch.conditions import IfCondition
from launch.event_handlers import (OnExecutionComplete, OnProcessExit, OnProcessIO, OnProcessStart,
                                   OnShutdown)
from launch.events import Shutdown as ShutdownEvent
from launch.events.process import ProcessExited, ProcessStarted, ShutdownProcess, SignalProcess
from launch.launch_description_source import LaunchDescriptionSource
from launch.launch_description_sources import PythonLaunchDescriptionSource
from launch.substitution import Substitution
from launch.substitutions import FindExecutable, LaunchConfiguration
from vf.kit import Handler, LogTap, MyEvent, execute, finish, new_service

CASES = {'quick': 7000, 'thorough': 200000}
WALL = {'quick': 100, 'thorough': 780}
TIMEOUT = 60
KINDS = ['function', 'handler', 'matcher', 'condition', 'substitution', 'coroutine-start',
         'coroutine-end', 'callback', 'on-shutdown', 'process-matcher', 'built-in']
NEED = {**{'raised_' + k: 40 for k in KINDS}, 'processes_ended': 2500, 'in_shutdown': 600,
        'several': 1500, 'used_again': 2000, 'siblings': 300, 'failing_to_start': 30, 'cancels': 80}
RULE = ('a case runs a random launch description twice: first without errors, then with one to '
        'three errors raised at chosen calls of the code it is made of; non-trivial: an error was '
        'raised while a process ran')
ASSUMPTIONS = ['runs in virtual time with processes simulated below the asyncio subprocess API']


class Bomb(Exception):
    pass


ERRORS = [lambda m: Bomb(m), lambda m: RuntimeError(m), lambda m: KeyError(m),
          lambda m: ValueError('{} {x} %s %d ' + m), lambda m: AssertionError(m),
          lambda m: OSError(2, m), lambda m: TypeError(m), lambda m: AttributeError(m),
          lambda m: ZeroDivisionError('multi\nline\n' + m),
          lambda m: asyncio.CancelledError(m)]


# ---------------------------------------------------------------- generation

def gen_script(rng):
    out = [[rng.choice([0, .5, 2.]), rng.choice([1, 2]), 'text\n']] if rng.random() < .4 else []
    reaction = {}
    for number in ('2', '15'):
        if rng.random() < .4:
            reaction[number] = None if rng.random() < .5 else [rng.choice([0, .5, 3.]), 0]
    return {'out': out, 'exit': rng.choice([None, None, [rng.choice([0, .3, 1.5, 4.]),
                                                        rng.choice([0, 0, 1])]]), 'sig': reaction}


class Gen:

    def __init__(self, rng):
        self.rng, self.budget, self.tag = rng, rng.randint(4, 22), 0

    def nodes(self, depth):
        out = []
        for _ in range(self.rng.randint(1, 5)):
            if self.budget <= 0:
                break
            self.budget -= 1
            out.append(self.node(depth))
        return out

    def node(self, depth):
        rng = self.rng
        self.tag += 1
        kinds = ['function'] * 3 + ['process'] * 4 + ['set'] * 2 + ['setenv', 'log', 'emit',
                                                                 'coroutine', 'handler', 'on-shutdown', 'stop', 'on-complete']
        if depth < 3:
            kinds += ['group', 'timer', 'timer', 'include', 'on-start', 'on-exit', 'on-io',
                      'function-more']
        kind = rng.choice(kinds)
        node = {'k': kind, 'tag': self.tag, 'cond': rng.random() < .2}
        if kind == 'process':
            node.update(script=gen_script(rng), on_exit=rng.random() < .3,
                        sub=rng.choice([None, None, 'cmd', 'env', 'name', 't1', 'respawn']),
                        lives=rng.choice([0, 0, 0, 1, 2]))
        elif kind in ('group', 'timer', 'include', 'on-start', 'on-exit', 'on-io', 'handler',
                      'function-more', 'on-shutdown', 'on-complete'):
            node['nodes'] = self.nodes(depth + 1)
            node['flag'] = rng.random() < .5
            if kind == 'timer':
                node['t'] = rng.choice([0., .2, 1., 3.5])
        elif kind == 'coroutine':
            node.update(t=rng.choice([None, 0, .2, 1., 3.]))
        elif kind == 'stop':
            node.update(signal=rng.choice([None, 2, 15]))
        elif kind == 'emit':
            node.update(what=rng.choice(['a', 'b']))
        return node


def gen(rng, i, tier):
    gen = Gen(rng)
    nodes = gen.nodes(0)
    if rng.random() < .5:
        gen.budget = 4
        for _ in range(rng.randint(1, 3)):
            handler = {'k': 'handler', 'tag': 100 + _, 'cond': False, 'flag': False,
                       'nodes': gen.nodes(2)}
            nodes.insert(0, handler)
        nodes.append({'k': 'emit', 'tag': 200, 'cond': False, 'what': 'a'})
    if rng.random() < .5:
        nodes.insert(0, {'k': 'process', 'tag': 0, 'cond': False, 'lives': 0, 'on_exit': False,
                         'script': {'out': [], 'exit': None, 'sig': {}}, 'sub': None})
    return {'nodes': nodes, 'bombs': [[round(rng.random(), 4), round(rng.random(), 4)] for _ in range(
                rng.choice([1, 1, 1, 2, 3]))],
            'errors': [rng.randrange(len(ERRORS)) for _ in range(3)],
            'builtin': rng.randrange(10), 'siblings': rng.random() < .2,
            'stop': rng.choice([6., 6., 12.]), 'interactive': rng.random() < .3,
            'seed': rng.randrange(1 << 30)}


# ---------------------------------------------------------------- execution

class World:

    def __init__(self, case, bombs=()):
        self.case, self.bombs = case, set(bombs)
        self.hits = []             # (kind, is the run shutting down)
        self.raised = []           # (kind, message, number of events so far, is_shutdown)
        self.shutdown_calls = {}   # shutdown handlers
        self.registered = set()
        self.process_tags = 0
        self.shutdowns = 0
        self.late = []             # entities visited although a sibling before them raised
        self.more = []
        self.scripts = {}

    def site(self, kind, can_return=False):
        """Mark a place where the code of a user may raise."""
        number = len(self.hits)
        self.hits.append(kind)
        if number not in self.bombs:
            return None
        message = 'bomb-%d-%s' % (number, kind)
        if can_return and self.case['siblings'] or (can_return and self.case['builtin'] and
                                                    number % 2):
            return self.built_in(number)
        error = ERRORS[self.case['errors'][number % 3]](message)
        if isinstance(error, asyncio.CancelledError):
            # (cancelling a coroutine is no error)
            if kind not in ('function', 'handler', 'callback', 'on-shutdown'):
                error = Bomb(message)
            else:
                self.cancels += 1
        self.raised.append((kind, message, self.context.is_shutdown))
        raise error

    def built_in(self, number):
        """Return entities one of which fails."""
        bad, message = [
            (lambda: LogInfo(msg='never', condition=IfCondition('maybe')), 'maybe'),
            (lambda: AppendEnvironmentVariable('VF_E', FindExecutable(name='no-such-program-x')),
             'not found on the PATH'),
            (lambda: SetLaunchConfiguration('x', LaunchConfiguration('surely absent')),
             'surely absent'),
            (lambda: IncludeLaunchDescription(PythonLaunchDescriptionSource('/no/such/file.py')),
             '/no/such/file.py'),
            (lambda: TimerAction(period=LaunchConfiguration('tag'), actions=[]), ''),
            (lambda: 'not an entity', ''),
            (lambda: ExecuteProcess(cmd=['sim', LaunchConfiguration('surely absent')]),
             'surely absent'),
            (lambda: ExecuteProcess(cmd=['sim', self.script({'out': [[0, 1, 'x\n']], 'exit': None,
                                                             'sig': {}})],
                                    output_format='{nonsense}'), 'nonsense'),
            (lambda: LogInfo(msg=[LaunchConfiguration('surely absent')]), 'surely absent'),
            (lambda: None, None),
        ][self.case['builtin']]
        if self.case['builtin'] == 9:
            # A process which fails to be started, that is reported by its own logger.
            self.failing += 1
            return [SetLaunchConfiguration('emulate_tty', 'maybe'),
                    ExecuteProcess(cmd=['sim', self.script({'out': []})])]
        if self.context.is_shutdown and self.case['builtin'] == 7:
            return None      # is not started anymore
        self.raised.append(('built-in', message, self.context.is_shutdown))
        started = ExecuteProcess(cmd=['sim', self.script({'out': [], 'exit': None, 'sig': {}})])
        if self.context.is_shutdown:
            return [bad()]
        after = OpaqueFunction(function=lambda context: self.late.append(number))
        if self.case['builtin'] in (7,):
            return [started, bad()]
        self.siblings = True
        return [started, bad(), after]

    siblings = False
    cancels = 0
    failing = 0

    def script(self, script):
        self.process_tags += 1
        text = json.dumps({'tag': self.process_tags, **script})
        return text

    def text(self, text, kind='substitution'):
        world = self

        class Text(Substitution):
            def perform(self, context):
                world.site(kind)
                return text

            def describe(self):
                return 'Text'
        return Text()

    def condition(self):
        def predicate(context):
            self.site('condition')
            return True
        return Condition(predicate=predicate)

    def callback(self, node, kind='callback'):
        def function(*args):
            extra = self.site(kind, True)
            return extra if extra is not None else self.build(node['nodes'])
        return function

    def build(self, nodes):
        return [self.entity(n) for n in nodes]

    def entity(self, n):
        kind = n['k']
        kwargs = {'condition': self.condition()} if n['cond'] else {}
        if kind == 'function':
            return OpaqueFunction(function=lambda context: self.site('function', True), **kwargs)
        if kind == 'function-more':
            return OpaqueFunction(function=self.callback(n, 'function'), **kwargs)
        if kind == 'set':
            return SetLaunchConfiguration('c%d' % n['tag'], self.text('v'), **kwargs)
        if kind == 'setenv':
            return SetEnvironmentVariable(self.text('VF_E'), 'v', **kwargs)
        if kind == 'log':
            return LogInfo(msg=['message ', self.text('text')], **kwargs)
        if kind == 'emit':
            return EmitEvent(event=MyEvent(n['what'], n['tag']), **kwargs)
        if kind == 'coroutine':
            async def coroutine(context):
                self.site('coroutine-start')
                if n['t'] is not None:
                    await asyncio.sleep(n['t'])
                    self.site('coroutine-end')
            return OpaqueCoroutine(coroutine=coroutine, **kwargs)
        if kind == 'process':
            cmd = ['sim', self.script(n['script'])]
            sub = n['sub']
            if sub == 'cmd':
                cmd.insert(1, self.text('word'))
            elif sub == 'env':
                kwargs['additional_env'] = {'VF_X': self.text('x')}
            elif sub == 'name':
                kwargs['name'] = self.text('x')
            elif sub == 't1':
                kwargs['sigterm_timeout'] = self.text('2')
            if sub == 'respawn' and not kwargs.get('condition'):
                kwargs.update(respawn=True, respawn_max_retries=n['lives'])
            if n['on_exit']:
                kwargs['on_exit'] = lambda event, context: self.site('callback', True)
            return ExecuteProcess(cmd=cmd, **kwargs)
        if kind == 'group':
            return GroupAction(self.build(n['nodes']), scoped=n['flag'], **kwargs)
        if kind == 'include':
            return IncludeLaunchDescription(
                LaunchDescriptionSource(LaunchDescription(self.build(n['nodes'])), '/l.py'),
                launch_arguments=[('arg', self.text('value'))] if n['flag'] else [], **kwargs)
        if kind == 'timer':
            return TimerAction(period=self.text(str(n['t'])) if n['flag'] else n['t'],
                               actions=self.build(n['nodes']), **kwargs)
        if kind == 'on-start':
            return RegisterEventHandler(OnProcessStart(
                on_start=self.callback(n), handle_once=True), **kwargs)
        if kind == 'on-exit':
            return RegisterEventHandler(OnProcessExit(
                on_exit=self.callback(n), handle_once=True), **kwargs)
        if kind == 'on-io':
            return RegisterEventHandler(OnProcessIO(
                on_stdout=self.callback(n), on_stderr=self.callback(n), handle_once=True),
                **kwargs)
        if kind == 'on-complete':
            return RegisterEventHandler(OnExecutionComplete(
                on_completion=self.callback(n), handle_once=True), **kwargs)
        if kind == 'on-shutdown':
            return self.shutdown_handler(n['tag'], kwargs)
        if kind == 'handler':
            def matcher(event):
                if isinstance(event, MyEvent):
                    self.site('matcher')
                    return event.kind == 'a'
                return False

            def handle(event, context):
                extra = self.site('handler', True)
                return extra if extra is not None else self.build(n['nodes'])
            return RegisterEventHandler(Handler(matcher, handle, handle_once=True), **kwargs)
        if kind == 'stop':
            def process_matcher(action):
                self.site('process-matcher')
                return False
            return EmitEvent(event=ShutdownProcess(process_matcher=process_matcher)
                             if n['signal'] is None else SignalProcess(
                                 signal_number=signal.Signals(n['signal']),
                                 process_matcher=process_matcher), **kwargs)
        raise AssertionError(kind)

    def shutdown_handler(self, tag, kwargs):
        def on_shutdown(event, context):
            self.shutdown_calls[tag] = self.shutdown_calls.get(tag, 0) + 1
            self.site('on-shutdown')
            return None

        def register(context):
            # one which is registered in the course of the shutdown is not called anymore
            if not context.is_shutdown:
                self.registered.add(tag)
            return [RegisterEventHandler(OnShutdown(on_shutdown=on_shutdown))]
        return OpaqueFunction(function=register, **kwargs)


def perform(case, bombs=()):
    world = World(case, bombs)
    service, loop = new_service(noninteractive=not case['interactive'])
    world.context = service.context
    world.loop = loop
    world.started, world.exited = [], []

    def record(event, context):
        if isinstance(event, ProcessStarted):
            world.started.append(event.pid)
        elif isinstance(event, ProcessExited):
            world.exited.append(event.pid)
        elif isinstance(event, ShutdownEvent):
            world.shutdowns += 1

    service.context.register_event_handler(Handler(lambda event: True, record))
    world.shutdown_handler(1000, {}).execute(service.context)[0].execute(service.context)
    tap = LogTap()
    root = launch.logging.get_logger('launch')
    others = logging.getLogger('asyncio')
    root.addHandler(tap)
    others.addHandler(tap)
    old = root.level
    try:
        entities = world.build(case['nodes'])
        entities.insert(0, world.shutdown_handler(1001, {}))
        entities.append(TimerAction(period=case['stop'], actions=[Shutdown(reason='time is up')]))
        service.include_launch_description(LaunchDescription(entities))
        world.result = execute(service, loop)
        world.records = [r for r in tap.records if r[1] >= logging.ERROR]
        world.again = None
        world.first_calls, world.first_shutdowns = dict(world.shutdown_calls), world.shutdowns
        world.first_registered = set(world.registered)
        world.first_exits = sorted(world.started), sorted(world.exited)
        if bombs and world.result.error is None:
            # the service can be used again
            seen = []
            loop.fault = None
            ran = len(loop.processes)
            world.bombs = set()
            tap.records.clear()
            service.include_launch_description(LaunchDescription([
                SetLaunchConfiguration('emulate_tty', 'false'),
                ExecuteProcess(cmd=['sim', json.dumps({'exit': [1, 0]})]),
                TimerAction(period=2., actions=[OpaqueFunction(
                    function=lambda context: seen.append(1))]),
                TimerAction(period=20., actions=[Shutdown(reason='again')])]))
            again = execute(service, loop)
            world.again = (again, seen, loop.processes[ran:],
                           [r for r in tap.records if r[1] >= logging.ERROR])
            world.first = loop.processes[:ran]
        else:
            world.first = loop.processes
    finally:
        root.removeHandler(tap)
        others.removeHandler(tap)
        root.setLevel(old)
        world.left = finish(loop)
    return world


def run(case, obs):
    dry = perform(case)
    if dry.result.error is not None or dry.result.rc != 0:
        obs.fail('without-errors', 'a run without errors ended with %r %r %r' % (
            dry.result.rc, dry.result.error, dry.records))
        return
    bombs = set()
    for which, where in case['bombs']:
        # mostly where something rare happens
        kinds = sorted(set(dry.hits)) if which < .8 else dry.hits
        if which < .8 and len(kinds) > 1:
            kinds.remove('on-shutdown') if where < .8 else None
        kind = kinds[int(which * 1.25 % 1 * len(kinds))]
        places = [n for n, k in enumerate(dry.hits) if k == kind]
        bombs.add(places[min(int(where * len(places)), len(places) - 1)])
    bombs = sorted(bombs)
    world = perform(case, bombs)
    what = 'errors %r' % [(m, s) for _, m, s in world.raised]
    result = world.result
    if result.deadlock:
        obs.fail('hang', 'the run does not end after %s: %r; processes %r' % (
            what, result.error, [(t.script, t.journal) for t in world.first
                                 if t.returncode is None]))
        return
    if result.error is not None:
        obs.fail('raised', 'run() raised %r after %s' % (result.error, what))
        return
    obs.count('failing_to_start', world.failing)
    if not world.raised:
        obs.count('nothing_raised')
        return
    obs.expect(result.rc not in (0, None), 'return-code', 'run() returned %r after %s' % (
        result.rc, what))
    text = '\n'.join(r[2] for r in world.records)
    for kind, message, shutdown in world.raised:
        obs.expect(message in text if message else bool(text), 'unreported',
                   'no report of %r (%s) among %r' % (message, kind, world.records))
        obs.count('raised_' + kind)
        obs.count('in_shutdown', shutdown)
    obs.count('cancels', world.cancels)
    obs.count('several', len(world.raised) > 1)
    # one more if the time is up at that very moment
    obs.expect(1 <= world.first_shutdowns <= 2, 'unannounced',
               '%d shutdowns were announced after %s' % (world.first_shutdowns, what))
    for tag in world.first_registered | {1000}:
        obs.expect(1 <= world.first_calls.get(tag, 0) <= world.first_shutdowns, 'shutdown-handler',
                   'shutdown handler %r was called %r times, %d shutdowns were announced after %s' %
                   (tag, world.first_calls.get(tag, 0), world.first_shutdowns, what))
    running = [t for t in world.first if t.returncode is None or not t.notified or
               t.exited_at > result.ended_at + 1e-6]
    obs.expect(not running, 'left-running', 'after %s processes still run: %r' % (
        what, [(t.script, t.journal) for t in running]))
    obs.equal(world.first_exits[1], world.first_exits[0], 'exits', 'processes which exited')
    obs.expect(not world.late, 'siblings', 'entities after one which raised were visited: %r %s' % (
        world.late, what))
    obs.count('siblings', world.siblings)
    obs.count('processes_ended', len(world.first))
    if world.first:
        obs.sig([world.raised, len(world.first), [t.journal for t in world.first]])
    if world.again is not None:
        again, seen, processes, records = world.again
        if obs.expect(again.error is None and again.rc == 0, 'again', 'the second run after %s '
                      'ended with %r %r %r' % (what, again.rc, again.error, records)):
            obs.expect(seen == [1] and any(
                t.returncode == 0 and t.cmd[-1] == json.dumps({'exit': [1, 0]}) for t in processes),
                       'again', 'the second run after %s did not do its work: %r %r' % (
                           what, seen, processes))
            obs.count('used_again')
