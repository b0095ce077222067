"""C28: introspecting a launch description has no side effects and misses nothing."""
import random

from launch import LaunchContext, LaunchDescription, LaunchIntrospector, Substitution
from launch.action import Action
from launch.actions import (AppendEnvironmentVariable, DeclareLaunchArgument, EmitEvent, ExecuteProcess,
                            GroupAction, IncludeLaunchDescription, LogInfo, OpaqueCoroutine, OpaqueFunction,
                            PopEnvironment, PopLaunchConfigurations, PushEnvironment,
                            PushLaunchConfigurations, RegisterEventHandler, ResetEnvironment,
                            ResetLaunchConfigurations, SetEnvironmentVariable, SetLaunchConfiguration,
                            Shutdown, TimerAction, UnregisterEventHandler, UnsetEnvironmentVariable,
                            UnsetLaunchConfiguration)
from launch.conditions import IfCondition, LaunchConfigurationEquals, UnlessCondition
from launch.event_handler import EventHandler
from launch.event_handlers import (OnExecutionComplete, OnProcessExit, OnProcessIO, OnProcessStart,
                                   OnShutdown)
from launch.launch_description_source import LaunchDescriptionSource
from vf import kit
from vf.kit import MyEvent, execute, finish, first_difference, new_service

CASES = {'quick': 24000, 'thorough': 800000}
WALL = {'quick': 100, 'thorough': 800}
TIMEOUT = 60
NEED = {'afterwards': 2200, 'descriptions': 250000, 'launched': 8000, 'lines': 8000, 'reached': 55000, 'texts': 2600,
        'visits': 70000}
RULE = ('a case is a random description of all provided actions and event handlers; one copy is '
        'introspected in random ways before it is launched, another only launched; the calls made and '
        'the text produced by the introspection, what it reaches and both traces of the launches are '
        'judged; non-trivial: at least 8 entities were visited')
ASSUMPTIONS = ['virtual time, simulated processes',
               'locations of included files are evaluated when described, as documented']
SIMPLE = ['mark', 'mark', 'log', 'setc', 'unsetc', 'setenv', 'unsetenv', 'append', 'declare', 'emit', 'push',
          'pushenv', 'coroutine']
DEEP = ['group', 'group', 'timer', 'include', 'handler', 'handler', 'opaque', 'process', 'process', 'ld']
HANDLERS = ['custom', 'custom', 'shutdown', 'exit', 'start', 'io', 'complete']


class Gen:

    def __init__(self, rng):
        self.rng, self.n, self.inside, self.repeats = rng, 0, 0, 0
        self.budget = rng.choice([3, 10, 25, 40])

    def nodes(self, depth, most=5, least=0):
        out = []
        for _ in range(self.rng.randint(least, most)):
            if self.budget > 0:
                out.append(self.node(depth))
        return out

    def form(self, depth):
        """Entities given in one of the ways that are allowed."""
        how = self.rng.choice(['list', 'tuple', 'iterator', 'one', 'ld', 'function'])
        most = {'one': 1}.get(how, 4)
        nodes = self.nodes(depth, most, 1 if how == 'one' else 0)
        if how == 'one' and not nodes:
            how = 'list'
        return [how, nodes]

    def node(self, depth):
        rng = self.rng
        self.budget -= 1
        self.n += 1
        node = {'id': self.n, 'k': rng.choice(SIMPLE + (DEEP if depth < 5 else []))}
        if node['k'] == 'emit' and self.inside or node['k'] == 'process' and self.repeats or \
                node['k'] == 'handler' and self.inside > 1:
            node['k'] = 'mark'  # that would go on forever, or be executed more than once
        kind = node['k']
        if rng.random() < .2 and kind not in ('ld', 'declare'):
            node['cond'] = [rng.choice(['if', 'if', 'unless', 'equals']), rng.random() < .7]
        if kind == 'group':
            node.update(scoped=rng.random() < .6, forwarding=rng.random() < .6,
                        cfg=rng.random() < .4, nodes=self.nodes(depth + 1))
        elif kind == 'timer':
            node.update(period=rng.choice([0, .5, 1]), probe=rng.random() < .5, nodes=self.nodes(depth + 1))
        elif kind == 'include':
            node.update(how=rng.choice(['given', 'given', 'file', 'unknown']), nodes=self.nodes(depth + 1),
                        args=rng.random() < .4)
        elif kind == 'ld':
            node.update(nodes=self.nodes(depth + 1))
        elif kind == 'opaque':
            node.update(nodes=self.nodes(depth + 1))
        elif kind == 'process':
            node.update(shell=rng.random() < .3, cwd=rng.random() < .3, env=rng.choice([None, 'env', 'extra']),
                        words=rng.choice([1, 2, 3]), on_exit=self.form(depth + 1) if rng.random() < .6 else None)
        elif kind == 'handler':
            node.update(on=rng.choice(HANDLERS), once=self.inside > 0 or rng.random() < .3)
            self.inside += 1
            self.repeats += not node['once'] or self.inside > 1
            node['form'] = self.form(depth + 1)
            self.repeats -= not node['once'] or self.inside > 1
            self.inside -= 1
            if node['on'] == 'io':
                node['form'][0] = 'function'
        return node


def gen(rng, i, tier):
    g = Gen(rng)
    nodes = g.nodes(0, 8) if i % 50 else []
    ops = [rng.choice(['format', 'walk', 'walk_back', 'arguments', 'arguments_conditional', 'repr', 'one',
                       'description'])
           for _ in range(rng.choice([1, 2, 5]))]
    return {'nodes': nodes, 'ops': ops, 'seed': rng.randrange(1 << 30),
            'late': rng.random() < .3}


class Probe(Substitution):
    """Tells when it is evaluated."""

    def __init__(self, build, node, value):
        self.build, self.node, self.value = build, node, value

    def describe(self):
        return '<Probe %s>' % self.node

    def perform(self, context):
        self.build.note('perform', self.node)
        return self.value


class Mark(Action):
    """Some user's action."""

    def __init__(self, build, node, **kwargs):
        super().__init__(**kwargs)
        self.build, self.node = build, node

    def execute(self, context):
        self.build.note('execute', self.node)

    def __repr__(self):
        return '<Mark %d>' % self.node


class Source(LaunchDescriptionSource):
    """A launch file: each load makes another launch description."""

    def __init__(self, build, node, location):
        super().__init__(None, location, 'source %d' % node['id'])
        self.build, self.spec = build, node

    def _get_launch_description(self, location):
        build = self.build
        last, build.last_process = build.last_process, None
        try:
            return build.tag(LaunchDescription(build.entities(self.spec['nodes'])),
                             '%d.ld' % self.spec['id'])
        finally:
            build.last_process = last


class Build:
    """The description of a case, with a journal."""

    def __init__(self, case):
        self.journal = []
        self.names = {}        # id of entity -> what it is
        self.keep = []
        self.when = None
        self.calls = 0
        self.context = None
        self.last_process = None
        self.handlers = {}
        self.description = LaunchDescription(self.entities(case['nodes']))

    def note(self, what, node):
        self.journal.append((round(self.when(), 6) if self.when else None, what, node))

    def tag(self, entity, name):
        self.names[id(entity)] = name
        self.keep.append(entity)
        return entity

    def entities(self, nodes):
        return [self.tag(self.entity(node), str(node['id'])) for node in nodes]

    def form(self, form, node):
        how, nodes = form
        if how == 'function':
            yielded = self.entities(nodes)

            def function(*args):
                self.note('function', node['id'])
                return yielded
            return function
        entities = self.entities(nodes)
        if how == 'one':
            return entities[0]
        if how == 'ld':
            return self.tag(LaunchDescription(entities), '%d.form' % node['id'])
        return tuple(entities) if how == 'tuple' else iter(entities) if how == 'iterator' else entities

    def iterable(self, node):
        """Return the entities, possibly as something to be iterated over once."""
        entities = self.entities(node['nodes'])
        return [entities, tuple(entities), iter(entities)][node['id'] % 3]

    def entity(self, node):
        kind, n = node['k'], node['id']

        def probe(value, part=''):
            return Probe(self, '%d%s' % (n, part), value)

        kwargs = {}
        if 'cond' in node:
            how, value = node['cond']
            if how == 'if':
                kwargs['condition'] = IfCondition(probe(str(value), 'c'))
            elif how == 'unless':
                kwargs['condition'] = UnlessCondition(probe(str(not value), 'c'))
            else:
                kwargs['condition'] = LaunchConfigurationEquals(
                    'given', probe('yes' if value else 'no', 'c'))
        if kind == 'mark':
            return Mark(self, n, **kwargs)
        if kind == 'log':
            return LogInfo(msg=['text', probe('message'), 'end'], **kwargs)
        if kind == 'setc':
            return SetLaunchConfiguration(probe('name%d' % (n % 3), 'n'), probe('value'), **kwargs)
        if kind == 'unsetc':
            return UnsetLaunchConfiguration(probe('name%d' % (n % 3)), **kwargs)
        if kind == 'setenv':
            return SetEnvironmentVariable(probe('VF_N%d' % (n % 3), 'n'), probe('value'), **kwargs)
        if kind == 'unsetenv':
            return UnsetEnvironmentVariable(probe('VF_N%d' % (n % 3)), **kwargs)
        if kind == 'append':
            return AppendEnvironmentVariable(probe('VF_N%d' % (n % 3), 'n'), probe('value'),
                                             prepend=n % 2 == 0, **kwargs)
        if kind == 'declare':
            return DeclareLaunchArgument('arg%d' % (n % 5), default_value=probe('default'),
                                         description='argument %d' % n)
        if kind == 'emit':
            return EmitEvent(event=MyEvent('emit', n), **kwargs)
        if kind == 'push':
            return GroupAction([self.tag(PushLaunchConfigurations(), '%d.1' % n), self.tag(
                ResetLaunchConfigurations({'given': 'yes', probe('name0', 'n'): probe('value')}), '%d.2' % n),
                self.tag(PopLaunchConfigurations(), '%d.3' % n)], scoped=False, **kwargs)
        if kind == 'pushenv':
            return GroupAction([self.tag(PushEnvironment(), '%d.1' % n), self.tag(
                ResetEnvironment(), '%d.2' % n), self.tag(PopEnvironment(), '%d.3' % n)], scoped=False,
                **kwargs)
        if kind == 'coroutine':
            async def coroutine(context):
                self.note('coroutine', n)
            return OpaqueCoroutine(coroutine=coroutine, **kwargs)
        if kind == 'group':
            return GroupAction(
                self.iterable(node), scoped=node['scoped'], forwarding=node['forwarding'],
                launch_configurations={'given': 'yes', 'name1': probe('value')} if node['cfg'] else
                {'given': 'yes'}, **kwargs)
        if kind == 'timer':
            return TimerAction(period=[probe(str(node['period']))] if node['probe'] else float(node['period']),
                               actions=self.iterable(node), **kwargs)
        if kind == 'include':
            args = [('given', 'yes'), ('arg1', [probe('passed')])] if node['args'] else [('given', 'yes')]
            if node['how'] == 'given':
                source = LaunchDescriptionSource(self.tag(
                    LaunchDescription(self.iterable(node)), '%d.ld' % n))
            else:
                location = 'file %d' % n if node['how'] == 'file' else [probe('file', 'l'), Unknown(self)]
                source = Source(self, node, location)
            return IncludeLaunchDescription(source, launch_arguments=args, **kwargs)
        if kind == 'ld':
            return LaunchDescription(self.iterable(node))
        if kind == 'opaque':
            yielded = self.entities(node['nodes'])

            def function(context):
                self.note('function', n)
                return yielded
            return OpaqueFunction(function=function, **kwargs)
        if kind == 'process':
            more = {}
            if node['env']:
                more['env' if node['env'] == 'env' else 'additional_env'] = {
                    probe('VF_A', 'k'): probe('b', 'v')}
            if node['cwd']:
                more['cwd'] = [probe('/', 'd')]
            if node['on_exit'] is not None:
                more['on_exit'] = self.form(node['on_exit'], node)
            self.last_process = ExecuteProcess(
                cmd=[[probe('run', str(k))] for k in range(node['words'])], name='p%d' % n,
                shell=node['shell'], output='log', **more, **kwargs)
            return self.last_process
        # a handler
        on, form = node['on'], self.form(node['form'], node)
        more = {'handle_once': node['once']}
        if on == 'custom':
            if node['form'][0] == 'function':
                handler = kit.Handler(lambda e: isinstance(e, MyEvent), form, **more)
            else:
                handler = EventHandler(matcher=lambda e: isinstance(e, MyEvent), entities=form, **more)
        elif on == 'shutdown':
            handler = OnShutdown(on_shutdown=form, **more)
        elif on == 'exit':
            handler = OnProcessExit(target_action=self.last_process, on_exit=form, **more)
        elif on == 'start':
            handler = OnProcessStart(target_action=self.last_process, on_start=form, **more)
        elif on == 'io':
            handler = OnProcessIO(target_action=self.last_process, on_stdout=form, on_stderr=form, **more)
        else:
            target = self.tag(Mark(self, n * 1000), '%d.target' % n)
            handler = OnExecutionComplete(target_action=target, on_completion=form, **more)
            return GroupAction([self.tag(RegisterEventHandler(handler), '%d.handler' % n), target],
                               scoped=False, **kwargs)
        return RegisterEventHandler(handler, **kwargs)


class Unknown(Substitution):
    """Known at run time only."""

    def __init__(self, build):
        self.build = build

    def perform(self, context):
        if not context.launch_configurations.get('given'):
            raise RuntimeError('not known')
        return 'known'


def reachable(nodes, hidden=False, out=None):
    """Tell the names of all entities which are not hidden behind functions."""
    out = set() if out is None else out
    for node in nodes:
        n, kind = node['id'], node['k']
        out.add(str(n))
        if kind in ('push', 'pushenv'):
            out.update('%d.%d' % (n, k) for k in (1, 2, 3))
        forms = []
        if kind == 'include':
            if node['how'] == 'unknown':
                continue
            out.add('%d.ld' % n)
        if kind in ('group', 'timer', 'include', 'ld'):
            forms.append(['list', node['nodes']])
        if kind == 'process' and node['on_exit']:
            forms.append(node['on_exit'])
        if kind == 'handler':
            if node['on'] == 'complete':
                out.update(['%d.target' % n, '%d.handler' % n])
            forms.append(node['form'])
        for how, more in forms:
            if how == 'ld':
                out.add('%d.form' % n)
            if how != 'function':
                reachable(more, False, out)
    return out


def walk(build, entity, rng, obs, backwards, seen=None):
    """Describe the entity and everything below."""
    seen = [] if seen is None else seen
    seen.append(build.names.get(id(entity)))

    def text():
        if isinstance(entity, Action):
            value = entity.describe()
            obs.expect(isinstance(value, str) and value, 'describe', 'describe() gave %r' % value)

    def subs():
        value = entity.describe_sub_entities()
        obs.expect(isinstance(value, list), 'sub-entities', 'describe_sub_entities() gave %r' % (value,))
        if value and isinstance(entity, Action) and (
                entity.condition is not None or isinstance(entity, (TimerAction, RegisterEventHandler))):
            obs.fail('not-conditional', '%r of %r are described as visited always' % (value, entity))
        obs.count('described_conditionally', isinstance(entity, Action) and entity.condition is not None)
        return list(value)

    def conditional():
        out = []
        value = entity.describe_conditional_sub_entities()
        obs.expect(isinstance(value, list), 'sub-entities', 'conditional: %r' % (value,))
        for description, entities in value:
            obs.expect(isinstance(description, str) and description, 'condition-text', repr(description))
            out += list(entities)
        return out
    steps = [text, subs, conditional]
    if backwards:
        steps.reverse()
    below = []
    for step in steps:
        obs.count('descriptions')
        below += step() or []
    for sub in below:
        walk(build, sub, rng, obs, backwards, seen)
    return seen


def introspect(case, build, obs, late=False):
    rng = random.Random(case['seed'])
    description = build.description
    before = list(description.entities)
    texts = set()
    expected = reachable(case['nodes'])
    for op in case['ops']:
        obs.count('op_' + op)
        if op == 'format':
            texts.add(LaunchIntrospector().format_launch_description(description))
        elif op in ('walk', 'walk_back'):
            seen = walk(build, description, rng, obs, op == 'walk_back')
            got = {name for name in seen if name is not None}
            obs.count('reached', len(got))
            if not got >= expected or got != expected and not late:
                obs.fail('missed' if expected - got else 'surplus',
                         'not reached: %s, but reached: %s, of %d' % (
                             sorted(expected - got), sorted(got - expected), len(expected)))
                return
        elif op == 'arguments':
            description.get_launch_arguments()
        elif op == 'arguments_conditional':
            description.get_launch_arguments(conditional_inclusion=True)
        elif op == 'repr':
            obs.expect(isinstance(repr(description) + str(description), str), 'repr', 'no text')
        elif op == 'description':
            obs.expect(description.describe_sub_entities() == before, 'description', 'not its entities')
            obs.expect(not description.describe_conditional_sub_entities(), 'description', 'conditional')
        elif before:
            walk(build, rng.choice(before), rng, obs, False)
    obs.expect(len(texts) < 2, 'unstable', 'another text each time: %s' % texts)
    obs.expect(len(before) == len(description.entities) and
               all(a is b for a, b in zip(before, description.entities)), 'changed', 'other entities')
    for text in texts:
        judge_text(case, build, text, obs, late)


def mentions(build, entities, depth):
    """Yield (depth, texts which must be part of the line)."""
    for entity in entities:
        if isinstance(entity, LogInfo):
            yield depth, ['LogInfo(', '<Probe %s>' % build.names[id(entity)]]
        elif isinstance(entity, Shutdown):
            yield depth, ['Shutdown']
        elif isinstance(entity, EmitEvent):
            yield depth, ['EmitEvent(', entity.event.name]
        elif isinstance(entity, ExecuteProcess):
            yield depth, ['ExecuteProcess(', 'shell=%s' % entity.shell] + [
                '<Probe %s%d>' % (build.names[id(entity)], k) for k in range(len(entity.cmd))] + [
                '<Probe %sd>' % build.names[id(entity)]] * (entity.cwd is not None) + [
                '<Probe %s%s>' % (build.names[id(entity)], k) for k in 'kv'] * (entity.env is not None)
        elif isinstance(entity, RegisterEventHandler):
            yield depth, ['RegisterEventHandler(']
            handler = entity.event_handler
            yield depth + 1, [type(handler).__name__ + '(']
            yield from mentions(build, handler.describe()[1], depth + 2)
        else:
            yield depth, [repr(entity)]


def judge_text(case, build, text, obs, late):
    obs.count('texts')
    lines = text.split('\n')
    expected = list(mentions(build, build.description.entities, 0))
    obs.expect(lines[0] == str(build.description), 'text', 'first line: %r' % lines[0])
    lines = lines[1:] if expected else [x for x in lines[1:] if x]
    if not obs.equal(len(lines), len(expected), 'text-lines', 'lines for %d entities:\n%s' % (
            len(expected), text)):
        return
    columns = {}
    for line, (depth, parts) in zip(lines, expected):
        obs.count('lines')
        at = -1
        for part in parts:
            if late and part.startswith('<Probe') and 'ExecuteProcess' in line:
                continue  # maybe expanded
            if not obs.expect(part in line, 'text', '%r is not in %r' % (part, line)):
                return
        content = line.lstrip(' │├└─')
        columns.setdefault(depth, set()).add(len(line) - len(content))
    for depth, values in columns.items():
        obs.expect(len(values) == 1, 'indentation', 'entities of depth %d at columns %s:\n%s' % (
            depth, values, text))
    order = [min(values) for _, values in sorted(columns.items())]
    obs.expect(order == sorted(set(order)), 'indentation', 'columns %s:\n%s' % (order, text))


def spy(build):
    """Watch what introspection must not do."""
    undo = []

    def patch(cls, name):
        original = cls.__dict__.get(name)
        if original is None:
            return

        def watched(self, *args, **kwargs):
            build.note(name, type(self).__name__)
            return original(self, *args, **kwargs)
        setattr(cls, name, watched)
        undo.append((cls, name, original))

    def everything(cls):
        for sub in cls.__subclasses__():
            yield sub
            yield from everything(sub)
    patch(LaunchDescription, 'visit')
    patch(Action, 'visit')
    for cls in {Action} | set(everything(Action)):
        patch(cls, 'execute')
    for name in ('emit_event_sync', 'register_event_handler', 'unregister_event_handler'):
        patch(LaunchContext, name)
    return undo


def launch_it(build, obs):
    service, loop = new_service()
    build.when = loop.time
    loop.script_of = lambda cmd: {'out': [[.1, 1, 'x\n']], 'exit': [.2, 0]}
    build.journal.clear()
    original = {cls: cls.visit for cls in (Action, LaunchDescription)}
    visited = set()
    for cls in original:
        def visit(self, context, cls=cls):
            name = build.names.get(id(self))
            if name is not None:
                visited.add(name)
            build.note('visit', name or type(self).__name__)
            return original[cls](self, context)
        cls.visit = visit
    try:
        service.context.launch_configurations['given'] = 'yes'
        service.include_launch_description(build.description)
        run = execute(service, loop)
    finally:
        for cls, method in original.items():
            cls.visit = method
        finish(loop)
    configurations = dict(service.context.launch_configurations)
    left = sorted(k for k in service.context.environment if k.startswith('VF_N'))
    return run, visited, (configurations, left, [p.cmd for p in loop.processes])


def run(case, obs):
    plain, looked = Build(case), Build(case)
    undo = spy(looked)
    try:
        introspect(case, looked, obs)
    except Exception as exc:
        import traceback
        obs.fail('raised', 'introspection raised %s' % ''.join(traceback.format_exception(exc))[-1200:])
        return
    finally:
        for cls, name, original in undo:
            setattr(cls, name, original)
    bad = [entry for entry in looked.journal if not (entry[1] == 'perform' and str(entry[2]).endswith('l'))]
    obs.expect(not bad, 'side-effect', 'introspection made these calls: %s' % bad[:10])
    first, visited, end = launch_it(plain, obs)
    second, visited2, end2 = launch_it(looked, obs)
    obs.count('launched')
    obs.count('visits', len(visited))
    a, b = plain.journal, looked.journal
    difference = first_difference(a, b)
    obs.expect(difference is None, 'behaviour', 'launched after introspection: %s' % difference)
    obs.equal([second.rc, repr(second.error), second.deadlock, end2],
              [first.rc, repr(first.error), first.deadlock, end], 'outcome', 'outcome after introspection')
    # what the launch reaches was described
    expected = reachable(case['nodes'])
    behind = hidden(case['nodes'])
    strays = {name for name in visited if name not in expected and name not in behind}
    obs.expect(not strays, 'undescribed', 'visited but not described: %s' % sorted(strays))
    if case['late']:
        # afterwards, too
        looked.journal.clear()
        introspect(case, looked, obs, True)
        bad = [x for x in looked.journal if not (x[1] == 'perform' and str(x[2]).endswith('l'))]
        obs.expect(not bad, 'side-effect', 'introspection made these calls: %s' % bad[:10])
        obs.count('afterwards')
    if len(visited) >= 8:
        obs.sig([x[1:] for x in a])


def hidden(nodes):
    """Tell the names of entities which only functions and unknown files yield."""
    def names(nodes):
        out = set()
        for node in nodes:
            n = node['id']
            out.update([str(n), '%d.ld' % n, '%d.form' % n, '%d.target' % n, '%d.handler' % n,
                        '%d.1' % n, '%d.2' % n, '%d.3' % n])
            for form in children(node):
                out |= names(form[1])
        return out
    out = set()
    for node in nodes:
        for how, more in children(node):
            if how == 'function':
                out |= names(more)
                out.add('%d.ld' % node['id'])
            else:
                out |= hidden(more)
    return out


def children(node):
    kind = node['k']
    if kind in ('group', 'timer', 'ld'):
        yield ['list', node['nodes']]
    elif kind == 'opaque':
        yield ['function', node['nodes']]
    elif kind == 'include':
        yield ['function' if node['how'] == 'unknown' else 'list', node['nodes']]
    elif kind == 'process' and node['on_exit']:
        yield node['on_exit']
    elif kind == 'handler':
        yield node['form']
