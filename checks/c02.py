"""C02: entities are visited depth-first, in order, once, gated by conditions."""
import json
import warnings
from collections import deque

from launch.actions import (DeclareLaunchArgument, EmitEvent, ExecuteProcess, GroupAction,
                            IncludeLaunchDescription, LogInfo, OpaqueFunction,
                            RegisterEventHandler, SetLaunchConfiguration, TimerAction)
from launch.condition import Condition
from launch.conditions import (IfCondition, LaunchConfigurationEquals,
                               LaunchConfigurationNotEquals, UnlessCondition)
from launch.event_handlers import OnExecutionComplete
from launch.launch_description_source import LaunchDescriptionSource
from launch.substitutions import LaunchConfiguration, TextSubstitution
from vf.kit import (LaunchDescription, Visit, execute, finish, first_difference, judge,
                    new_service)

CASES = {'quick': 40000, 'thorough': 600000}
WALL = {'quick': 60, 'thorough': 700}
TIMEOUT = 40
NEED = {'visited': 20000, 'skipped_by_condition': 5000, 'completions': 3000, 'errors': 100,
        'asynchronous': 1000}
RULE = ('a case is a random tree of entities (plain, asynchronous, opaque functions, groups, '
        'includes, timers, processes, nested descriptions) with random conditions on launch '
        'configurations changed by the tree itself and handlers of completions; the trace of '
        'visits must equal that of a recursive model; non-trivial: at least 5 visits and one '
        'condition evaluated')
ASSUMPTIONS = ['virtual time', 'processes are simulated below the asyncio subprocess API']
VALUES = ['true', 'True ', ' 1', '0', 'FALSE', 'false', ' TrUe', '1', 'a', '']
NAMES = ['p', 'q', 'r']


class ModelError(Exception):
    pass


# ---------------------------------------------------------------- generation

def gen_condition(rng):
    r = rng.random()
    if r < .45:
        return None
    if r < .75:
        kind = rng.choice(['if', 'unless'])
        if rng.random() < .6:
            return [kind, [rng.choice(VALUES[:8])]]
        if rng.random() < .08:
            return [kind, [rng.choice(['yes', '', 'on', '2', 't', 'truefalse', 'None'])]]
        name = rng.choice(NAMES)
        if rng.random() < .2:
            return [kind, ['t', 'r'], ['cfgd', name, rng.choice(['ue', 'UE'])]] \
                if False else [kind, [['cfgd', name, rng.choice(['true', '0'])]]]
        return [kind, [['cfg', name]]]
    if r < .93:
        value = rng.choice([None, 'true', '0', 'a', ['cfgd', rng.choice(NAMES), 'true']])
        return [rng.choice(['lceq', 'lcne']), rng.choice(NAMES), value]
    return ['py', rng.choice(NAMES), rng.choice(VALUES[:6])]


class Gen:

    def __init__(self, rng):
        self.rng, self.n = rng, 0
        self.budget = rng.randint(5, 45)

    def delay(self):
        return round(self.rng.uniform(0.1, 4), 5)

    def nodes(self, depth, most=5):
        return [self.node(depth) for _ in range(self.rng.randint(0, most)) if self.budget > 0]

    def node(self, depth):
        rng = self.rng
        self.budget -= 1
        self.n += 1
        node = {'id': self.n, 'cond': gen_condition(rng)}
        kinds = ['mark'] * 5 + ['set'] * 3 + ['log', 'declare', 'async', 'proc', 'setp']
        if depth < 5:
            kinds += ['mark'] * 3 + ['group', 'include', 'opaque', 'ld', 'timer', 'onec', 'onec']
        kind = node['kind'] = rng.choice(kinds)
        if kind == 'set':
            node.update(name=rng.choice(NAMES), value=rng.choice(VALUES))
        elif kind == 'setp':
            node['kind'] = 'set'
            node.update(name=rng.choice(NAMES), value=rng.choice(['true', 'false']))
        elif kind == 'declare':
            node.update(name=rng.choice(NAMES), value=rng.choice(VALUES))
        elif kind == 'async':
            node['dt'] = self.delay()
        elif kind == 'proc':
            node['dt'] = self.delay()
        elif kind == 'timer':
            node.update(dt=self.delay(), children=self.nodes(depth + 1, 3))
        elif kind == 'group':
            node.update(scoped=rng.random() < .6, children=self.nodes(depth + 1))
        elif kind in ('include', 'opaque', 'ld'):
            node.update(children=self.nodes(depth + 1))
        elif kind == 'mark' and depth < 5:
            node.update(children=self.nodes(depth + 1, 3) if rng.random() < .5 else [],
                        shape=rng.choice(['list', 'ld', 'tuple', 'gen']))
        elif kind == 'onec':
            node.update(target=rng.choice([None, 'later', 'later', 'any']),
                        children=self.nodes(4, 2))
        return node


def walk(nodes):
    for node in nodes:
        yield node
        yield from walk(node.get('children', ()))


def gen(rng, i, tier):
    g = Gen(rng)
    tree = g.nodes(0, 7)
    everything = [n['id'] for n in walk(tree)]
    timers = {n['id'] for n in walk(tree) if n['kind'] == 'timer'}
    for node in walk(tree):
        if node['kind'] == 'onec':
            inner = {n['id'] for n in walk(node['children'])} | {node['id']}
            # no handler may be triggered by what it yields itself
            later = [k for k in everything if k > max(inner)]
            if node['target'] == 'later' and later:
                node['target'] = rng.choice(later)
            else:
                node['target'] = None
            if node['target'] is None or node['target'] in timers:
                node['children'] = []
    return {'tree': tree, 'config': {n: rng.choice(VALUES[:8]) for n in NAMES
                                     if rng.random() < .9}}


# ---------------------------------------------------------------- reference model

class Model:

    def __init__(self, case):
        self.case = case
        self.cfg = dict(case['config'])
        self.trace, self.queue, self.pending = [], deque(), []
        self.handlers = []      # (node of kind onec), most recent first
        self.now, self.seq = 0.0, 0
        self.failed = False
        self.unordered, self.expiry, self.registered = [], {}, {}
        self.kinds = {node['id']: node['kind'] for node in walk(case['tree'])}
        self.stats = dict.fromkeys(
            ['visited', 'skipped_by_condition', 'completions', 'asynchronous', 'errors'], 0)

    def text(self, parts):
        out = ''
        for part in parts:
            if isinstance(part, str):
                out += part
            elif part[0] == 'cfg':
                if part[1] not in self.cfg:
                    raise ModelError()
                out += self.cfg[part[1]]
            else:
                out += self.cfg.get(part[1], part[2])
        return out

    def holds(self, cond):
        if cond is None:
            return True
        kind = cond[0]
        if kind in ('if', 'unless'):
            text = self.text(cond[1]).strip().lower()
            if text not in ('true', '1', 'false', '0'):
                raise ModelError()
            return (text in ('true', '1')) == (kind == 'if')
        if kind == 'py':
            return self.cfg.get(cond[1]) == cond[2]
        value = None if cond[2] is None else \
            self.text([cond[2] if isinstance(cond[2], list) else cond[2]])
        return (self.cfg.get(cond[1]) == value) == (kind == 'lceq')

    def at(self, dt, what):
        self.pending.append((self.now + dt, self.seq, what))
        self.seq += 1

    def completed(self, node, dt=None):
        """The action of the node was executed; its completion is announced if anyone listens."""
        if any(h['target'] in (None, node['id']) for h in self.handlers):
            if dt is None:
                self.queue.append(('complete', node['id']))
            else:
                self.at(dt, ('complete', node['id']))
        elif dt is not None:
            self.at(dt, ('nothing',))

    def visit(self, node):
        kind = node['kind']
        if kind == 'ld':
            self.visit_all(node['children'])
            return
        if not self.holds(node['cond']):
            self.stats['skipped_by_condition'] += 1
            return
        self.stats['visited'] += 1
        children = node.get('children', [])
        if kind in ('mark', 'opaque', 'async'):
            self.trace.append(['visit', node['id'], sorted(self.cfg.items())])
        if kind == 'mark':
            self.completed(node)
        elif kind == 'set':
            self.cfg[node['name']] = node['value']
            self.completed(node)
        elif kind == 'declare':
            self.cfg.setdefault(node['name'], node['value'])
            self.completed(node)
        elif kind in ('log', 'opaque', 'include'):
            self.completed(node)
        elif kind == 'async':
            self.stats['asynchronous'] += 1
            self.completed(node, node['dt'])
        elif kind == 'proc':
            self.stats['asynchronous'] += 1
            self.trace.append(['spawn', node['id']])
            self.completed(node, node['dt'])
        elif kind == 'group':
            self.completed(node)
            saved = dict(self.cfg)
            self.visit_all(children)
            if node['scoped']:
                self.cfg = saved
            return
        elif kind == 'timer':
            self.stats['asynchronous'] += 1
            self.at(node['dt'], ('timer', node))
            self.expiry[node['id']] = self.now + node['dt']
            self.completed(node, node['dt'])
            return
        elif kind == 'onec':
            if node not in self.handlers:
                self.handlers.insert(0, node)
                self.registered[node['id']] = self.now
            return
        self.visit_all(children)

    def visit_all(self, nodes):
        for node in nodes:
            self.visit(node)

    def forbidden(self):
        """Return the ids which the failed handling of the description has skipped."""
        out = set()

        def collect(nodes):
            for node in nodes:
                out.add(node['id'])
                if node['kind'] not in ('timer', 'onec'):
                    collect(node.get('children', ()))
        collect(self.case['tree'])
        return out - {t[1] for t in self.trace if t[0] in ('visit', 'spawn')}

    def comparable(self, pairs):
        return sorted(p for p in pairs if self.registered.get(p[0]) != self.expiry.get(p[1]))

    def run(self):
        try:
            self.visit_all(self.case['tree'])
        except ModelError:
            self.failed = True
            self.stats['errors'] += 1
            return
        while self.queue or self.pending:
            if not self.queue:
                self.pending.sort(key=lambda p: p[:2])
                self.now = self.pending[0][0]
                while self.pending and self.pending[0][0] == self.now:
                    what = self.pending.pop(0)[2]
                    if what[0] != 'nothing':
                        self.queue.append(what)
                continue
            what = self.queue.popleft()
            try:
                if what[0] == 'timer':
                    self.visit_all(what[1]['children'])
                else:
                    for node in list(self.handlers):
                        if node['target'] in (None, what[1]):
                            self.stats['completions'] += 1
                            if self.kinds.get(what[1]) == 'timer':
                                # whether before or after what the timer yields is left open
                                self.unordered.append([node['id'], what[1]])
                                continue
                            self.trace.append(['completed', node['id'], what[1]])
                            self.visit_all(node['children'])
            except ModelError:
                self.failed = True
                self.stats['errors'] += 1
                return


# ---------------------------------------------------------------- execution

class Driver:

    def __init__(self, case):
        self.trace, self.actions, self.ids = [], {}, {}
        self.done_at = {}
        self.handlers = {}
        self.unordered = []

    def parts(self, parts):
        out = []
        for part in parts:
            if isinstance(part, str):
                out.append(TextSubstitution(text=part))
            elif part[0] == 'cfg':
                out.append(LaunchConfiguration(part[1]))
            else:
                out.append(LaunchConfiguration(part[1], default=part[2]))
        return out

    def condition(self, cond):
        if cond is None:
            return None
        kind = cond[0]
        if kind == 'if':
            return IfCondition(self.parts(cond[1]))
        if kind == 'unless':
            return UnlessCondition(self.parts(cond[1]))
        if kind == 'py':
            return Condition(predicate=lambda context: (
                context.launch_configurations.get(cond[1]) == cond[2]))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            value = self.parts([cond[2]]) if isinstance(cond[2], list) else cond[2]
            cls = LaunchConfigurationEquals if kind == 'lceq' else LaunchConfigurationNotEquals
            return cls(cond[1], value)

    def entity(self, node):
        kind, uid = node['kind'], node['id']
        children = [self.entity(child) for child in node.get('children', ())]
        if kind == 'ld':
            return LaunchDescription(children)
        condition = self.condition(node['cond'])

        def seen(context):
            self.trace.append(['visit', uid, sorted(context.launch_configurations.items())])

        if kind == 'mark':
            def visit(context):
                seen(context)
                shape = node.get('shape')
                if not children:
                    return None
                if shape == 'ld':
                    return [LaunchDescription(children)]
                if shape == 'gen':
                    return (child for child in children)
                return tuple(children) if shape == 'tuple' else children
            action = Visit(visit, condition=condition)
        elif kind == 'opaque':
            action = OpaqueFunction(
                function=lambda context: (seen(context), list(children))[1], condition=condition)
        elif kind == 'async':
            def future(context):
                f = context.asyncio_loop.create_future()

                def resolve():
                    self.done_at[uid] = context.asyncio_loop.time()
                    f.set_result(None)
                context.asyncio_loop.call_later(node['dt'], resolve)
                return f
            action = Visit(seen, future=future, condition=condition)
        elif kind == 'proc':
            script = json.dumps({'exit': [node['dt'], 0], 'sig': {'2': None, '15': None},
                                 'id': uid})
            action = ExecuteProcess(cmd=['sim', script], condition=condition, output='log')
        elif kind == 'set':
            action = SetLaunchConfiguration(node['name'], node['value'], condition=condition)
        elif kind == 'declare':
            action = DeclareLaunchArgument(
                node['name'], default_value=node['value'], condition=condition)
        elif kind == 'log':
            action = LogInfo(msg='x', condition=condition)
        elif kind == 'group':
            action = GroupAction(children, scoped=node['scoped'], condition=condition)
        elif kind == 'include':
            action = IncludeLaunchDescription(
                LaunchDescriptionSource(LaunchDescription(children)), condition=condition)
        elif kind == 'timer':
            action = TimerAction(
                period=node['dt'], actions=children, cancel_on_shutdown=False,
                condition=condition)
        elif kind == 'onec':
            def completed(event, context):
                if event.action not in self.ids:
                    return None
                if isinstance(event.action, TimerAction):
                    self.unordered.append([uid, self.ids[event.action]])
                    return None
                self.trace.append(['completed', uid, self.ids[event.action]])
                return children

            def register(context):
                if uid in self.handlers:
                    return None
                target = node['target']
                self.handlers[uid] = OnExecutionComplete(
                    target_action=None if target is None else (
                        self.actions[target] if target in self.actions else
                        (lambda action: self.ids.get(action) == target)),
                    on_completion=completed)
                return [RegisterEventHandler(self.handlers[uid])]
            return OpaqueFunction(function=register, condition=condition)
        self.actions[uid] = action
        self.ids[action] = uid
        return action


def run(case, obs):
    model = Model(case)
    model.run()
    driver = Driver(case)
    entities = [driver.entity(node) for node in case['tree']]
    service, loop = new_service()

    def spawned(cmd):
        driver.trace.append(['spawn', json.loads(cmd[-1])['id']])
        return None
    loop.fault = spawned
    try:
        service.context.launch_configurations.update(case['config'])
        service.include_launch_description(LaunchDescription(entities))
        result = execute(service, loop)
    finally:
        finish(loop)
    for key, value in model.stats.items():
        obs.count(key, value)
    # a process is spawned by a task of its own, i.e. after the current event was handled
    expected = [t for t in model.trace if t[0] != 'spawn']
    actual = [t for t in driver.trace if t[0] != 'spawn']
    spawned_expected = sorted(t[1] for t in model.trace if t[0] == 'spawn')
    spawned_actual = sorted(t[1] for t in driver.trace if t[0] == 'spawn')
    if model.failed:
        if not judge(result, obs, 1):
            return
        difference = first_difference(expected, actual[:len(expected)])
        obs.expect(difference is None, 'trace', difference)
        skipped = {t[1] for t in actual[len(expected):] if t[0] == 'visit'} & model.forbidden()
        obs.expect(not skipped, 'visited-after-error',
                   'visited although the handling had failed before: %r' % skipped)
    else:
        if not judge(result, obs, 0):
            return
        difference = first_difference(expected, actual)
        obs.expect(difference is None, 'trace', difference)
        # a handler registered in the very moment of the completion may or may not see it
        obs.equal(model.comparable(driver.unordered), model.comparable(model.unordered),
                  'timer-completions', 'completions of timers')
        obs.equal(spawned_actual, spawned_expected, 'spawned', 'processes started')
    if model.stats['visited'] >= 5 and model.stats['skipped_by_condition']:
        obs.sig(expected)
