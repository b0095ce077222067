"""C08: a timer fires exactly once, after its period, unless cancelled."""
import json

from launch.actions import (EmitEvent, ExecuteProcess, GroupAction, OpaqueFunction,
                            SetLaunchConfiguration, TimerAction)
from launch.actions import Shutdown as ShutdownAction
from launch.conditions import IfCondition
from launch.event_handlers import OnExecutionComplete
from launch.substitutions import LaunchConfiguration, TextSubstitution
from vf.kit import Handler, LaunchDescription, MyEvent, execute, finish, judge, new_service

CASES = {'quick': 20000, 'thorough': 400000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 40
NEED = {'fired': 20000, 'cancelled': 4000, 'cancelled_by_shutdown': 2000, 'survived_shutdown': 500,
        'repeated': 1000, 'cancelled_before_execution': 300}
RULE = ('a case is a random nesting of timers (numbers or substitutions as periods, evaluated in '
        'changing scopes; executed once or repeatedly, also while pending) with cancellations '
        'before, during and after waiting and shutdowns at random times; the virtual times at '
        'which each timer fired and the end of the run must equal those of a model; non-trivial: '
        'at least 2 timers fired and one was cancelled')
ASSUMPTIONS = ['virtual time', 'cancellation in the very instant of expiry is left open']


class Gen:

    def __init__(self, rng):
        self.rng, self.n, self.budget = rng, 0, rng.randint(3, 25)
        self.special = rng.random() < .8      # with cancellations, no ties

    def period(self):
        if self.special:
            return round(self.rng.uniform(.05, 30), 4)
        return self.rng.choice([0., .5, 1., 1., 2.5, 3600.])

    def nodes(self, depth, most):
        return [self.node(depth) for _ in range(self.rng.randint(0, most)) if self.budget > 0]

    def node(self, depth):
        rng = self.rng
        self.budget -= 1
        kind = rng.choice(['timer'] * 5 + ['scope', 'emit', 'proc', 'hold'] + ['cancel'] * 3)
        if depth > 4 and kind == 'timer':
            kind = 'emit'
        if kind == 'timer':
            self.n += 1
            node = {'k': 'timer', 'id': self.n, 'dt': self.period(),
                    'form': rng.choice(['float', 'float', 'text', 'cfg', 'split']),
                    'cos': rng.choice([None, None, True, False, 'true', 'false']),
                    'cond': rng.choice([None, None, None, None, 'true', 'false']),
                    'seq': rng.choice(['list', 'tuple', 'iterator'])}
            node['children'] = self.nodes(depth + 1, 3)
            return node
        if kind == 'scope':
            return {'k': 'scope', 'children': self.nodes(depth + 1, 3)}
        if kind == 'emit':
            return {'k': 'emit'}
        if kind in ('proc', 'hold'):
            return {'k': kind, 'dt': self.period() or 1}
        return {'k': 'cancel', 'id': rng.randint(1, 12)}


def gen(rng, i, tier):
    g = Gen(rng)
    case = {'nodes': g.nodes(0, 8), 'handler': [], 'end': None, 'pre': []}
    first = g.n
    case['handler'] = g.nodes(3, 3)

    def settle(nodes):
        # executions of one timer in the same instant must not cancel each other
        for node in nodes:
            if node['k'] == 'cancel':
                node['id'] = rng.randint(0, first)
            settle(node.get('children', ()))
    settle(case['handler'])
    if not g.special:
        def clean(nodes):
            out = []
            for node in nodes:
                if node['k'] == 'cancel':
                    continue
                node['children'] = clean(node.get('children', ()))
                out.append(node)
            return out
        case['nodes'], case['handler'] = clean(case['nodes']), clean(case['handler'])
    else:
        if rng.random() < .5:
            case['end'] = [round(rng.uniform(.1, 60), 4), rng.choice(['action', 'service'])]
        case['pre'] = [rng.randint(1, 12) for _ in range(rng.choice([0, 0, 1]))]
    return case


class Model:

    def __init__(self, case):
        self.case = case
        self.fired, self.pending, self.cancelled = [], [], set()
        self.completed = []
        self.now, self.seq, self.events, self.emitted = 0.0, 0, 0, 0
        self.down, self.queue = False, []
        self.depth = 0
        self.end = 0.0
        self.stats = dict.fromkeys(['fired', 'cancelled', 'cancelled_by_shutdown',
                                    'survived_shutdown', 'repeated',
                                    'cancelled_before_execution'], 0)
        self.seen = set()
        self.exists = set()
        todo = list(case['nodes']) + list(case['handler'])
        while todo:
            node = todo.pop()
            todo.extend(node.get('children', ()))
            if node['k'] == 'timer':
                self.exists.add(node['id'])

    def visit(self, nodes):
        for node in nodes:
            kind = node['k']
            if kind == 'timer':
                if node['cond'] == 'false':
                    continue
                if node['id'] in self.cancelled:
                    self.stats['cancelled_before_execution'] += 1
                    self.completed.append([self.now, node['id']])
                    continue
                self.stats['repeated'] += node['id'] in self.seen
                self.seen.add(node['id'])
                self.pending.append([self.now + node['dt'], self.seq, 'timer', node])
                self.seq += 1
            elif kind == 'scope':
                self.visit(node['children'])
            elif kind == 'emit':
                if self.emitted < 12:
                    self.emitted += 1
                    self.queue.append('event')
            elif kind in ('proc', 'hold'):
                if kind == 'hold' or not self.down:
                    self.pending.append([self.now + node['dt'], self.seq, kind, node])
                    self.seq += 1
            elif kind == 'cancel':
                self.cancel(node['id'])

    def cancel(self, uid):
        if uid not in self.exists:
            return
        self.cancelled.add(uid)
        left = [p for p in self.pending if p[2] != 'timer' or p[3]['id'] != uid]
        gone = len(self.pending) - len(left)
        self.stats['cancelled'] += gone
        self.completed.extend([self.now, uid] for _ in range(gone))
        self.pending = left

    def shutdown(self):
        for p in [p for p in self.pending if p[2] == 'timer']:
            if p[3]['cos'] not in (False, 'false'):
                if p in self.pending:
                    before = self.stats['cancelled']
                    self.cancel(p[3]['id'])
                    self.stats['cancelled_by_shutdown'] += self.stats['cancelled'] - before
            else:
                self.stats['survived_shutdown'] += 1
        # the handlers of timers which are over cancel them, too
        for uid, cos in self.cos.items():
            if cos not in (False, 'false') and uid in self.seen:
                self.cancelled.add(uid)
        self.pending = [p for p in self.pending if p[2] != 'proc']

    def run(self):
        self.cos = {}
        todo = list(self.case['nodes']) + list(self.case['handler'])
        while todo:
            node = todo.pop()
            todo.extend(node.get('children', ()))
            if node['k'] == 'timer':
                self.cos[node['id']] = node['cos']
        for uid in self.case['pre']:
            self.cancel(uid)
        self.visit(self.case['nodes'])
        if self.case['end']:
            self.pending.append([self.case['end'][0], self.seq, 'end', None])
            self.seq += 1
        while True:
            if self.queue:
                what = self.queue.pop(0)
                if what == 'event':
                    self.visit(self.case['handler'])
                else:
                    self.shutdown()
                continue
            if not self.pending:
                self.end = self.now
                if not self.down:
                    # idle: there is nothing left which could be cancelled
                    self.down = True
                return
            self.pending.sort(key=lambda p: p[:2])
            self.now, _, kind, node = self.pending.pop(0)
            if kind == 'timer':
                self.stats['fired'] += 1
                self.fired.append([self.now, node['id']])
                self.completed.append([self.now, node['id']])
                self.visit(node['children'])
            elif kind == 'end':
                self.down = True
                self.queue.append('shutdown')


def run(case, obs):
    model = Model(case)
    model.run()
    service, loop = new_service()
    start = loop.now
    fired, timers, completed = [], {}, []
    state = {'emitted': 0}

    def period(node):
        form, dt = node['form'], node['dt']
        if form == 'float':
            return dt
        text = repr(dt)
        if form == 'text':
            return TextSubstitution(text=text)
        if form == 'split':
            return [TextSubstitution(text=text[:1]), TextSubstitution(text=text[1:])]
        return LaunchConfiguration('period-%d' % node['id'])

    def entity(node):
        kind = node['k']
        if kind == 'timer':
            def fire(context):
                fired.append([round(loop.now - start, 6), node['id']])
            kwargs = {}
            if node['cos'] is not None:
                kwargs['cancel_on_shutdown'] = node['cos'] if isinstance(node['cos'], bool) else \
                    LaunchConfiguration('zzz', default=node['cos'])
            if node['cond'] is not None:
                kwargs['condition'] = IfCondition(node['cond'])
            children = [OpaqueFunction(function=fire)] + [entity(c) for c in node['children']]
            timer = TimerAction(period=period(node), actions={
                'list': list, 'tuple': tuple, 'iterator': iter}[node['seq']](children), **kwargs)
            timers[node['id']] = timer
            if node['form'] == 'cfg':
                return GroupAction([SetLaunchConfiguration(
                    'period-%d' % node['id'], repr(node['dt'])), timer])
            return timer
        if kind == 'scope':
            return GroupAction([entity(c) for c in node['children']])
        if kind == 'emit':
            def emit(context):
                if state['emitted'] < 12:
                    state['emitted'] += 1
                    return [EmitEvent(event=MyEvent('x', state['emitted']))]
            return OpaqueFunction(function=emit)
        if kind == 'proc':
            script = json.dumps({'exit': [node['dt'], 0]})
            return OpaqueFunction(function=lambda context: [
                ExecuteProcess(cmd=['sim', script], output='log')])

        if kind == 'hold':
            def hold(context):
                future = loop.create_future()
                loop.call_later(node['dt'], future.set_result, None)
                context.add_completion_future(future)
            return OpaqueFunction(function=hold)

        def cancel(context):
            if node['id'] in timers:
                timers[node['id']].cancel()
        return OpaqueFunction(function=cancel)

    entities = [entity(n) for n in case['nodes']]
    answers = [entity(n) for n in case['handler']]
    ids = {timer: uid for uid, timer in timers.items()}
    for uid in case['pre']:
        if uid in timers:
            timers[uid].cancel()
    service.context.register_event_handler(Handler(
        lambda e: isinstance(e, MyEvent), lambda event, context: answers))
    service.context.register_event_handler(OnExecutionComplete(
        target_action=lambda action: action in ids,
        on_completion=lambda event, context: completed.append(
            [round(loop.now - start, 6), ids[event.action]])))
    if case['end']:
        t, how = case['end']
        loop_end = ShutdownAction(reason='end') if how == 'action' else OpaqueFunction(
            function=lambda context: [ShutdownAction(reason='end')])
        entities.append(TimerAction(period=t, actions=[loop_end]))
    try:
        service.include_launch_description(LaunchDescription(entities))
        result = execute(service, loop)
    finally:
        finish(loop)
    if not judge(result, obs, 0):
        return
    for key, value in model.stats.items():
        obs.count(key, value)
    obs.equal(sorted(fired), sorted([round(t, 6), n] for t, n in model.fired), 'fired',
              'times at which timers fired')
    obs.expect([t for t, _ in fired] == sorted(t for t, _ in fired), 'order',
               'timers fired out of order: %r' % fired)
    ends = round(result.ended_at - start, 6)
    if not case['end']:
        obs.equal(ends, round(model.end, 6), 'end', 'end of the run')
    else:
        obs.expect(ends >= round(model.end, 6), 'end', 'the run ended at %r, before %r' % (
            ends, model.end))
    obs.equal(sorted(completed), sorted([round(t, 6), n] for t, n in model.completed),
              'completed', 'times at which timers were complete')
    if model.stats['fired'] >= 2 and model.stats['cancelled']:
        obs.sig(model.fired)
