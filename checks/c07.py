"""C07: launch arguments reach included descriptions, or the launch fails loudly."""
import contextlib
import io
import os
import re
import tempfile

from launch import LaunchDescription
from launch.actions import (DeclareLaunchArgument, GroupAction, IncludeLaunchDescription,
                            OpaqueFunction, ResetLaunchConfigurations, SetLaunchConfiguration,
                            TimerAction)
from launch.conditions import IfCondition
from launch.launch_description_source import LaunchDescriptionSource
from launch.launch_description_sources import (AnyLaunchDescriptionSource,
                                               PythonLaunchDescriptionSource)
from launch.substitutions import (LaunchConfiguration, ThisLaunchFile, ThisLaunchFileDir)
from launch_testing.print_arguments import print_arguments_of_launch_description
from vf import registry, scopes
from vf.kit import execute, finish, first_difference, judge, new_service

CASES = {'quick': 16000, 'thorough': 250000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 40
NEED = {'includes': 20000, 'declared': 20000, 'failed_required': 1000, 'failed_choices': 300,
        'locations': 3000, 'reported': 10000, 'listed': 8000, 'failed_include': 300}
RULE = ('a case is a random tree of launch files (loaded from disk or given) which declare and '
        'pass arguments through nested includes, groups, conditions and timers; the '
        'configurations and file locations seen everywhere, the reported arguments and where '
        'the launch fails must equal those of a model; non-trivial: at least 2 includes visited')
ASSUMPTIONS = ['virtual time']
NAMES = ['a', 'b', 'c', 'd']
VALUES = ['1', 'x', 'true', '', 'long value', '$(var a)']
BASE = tempfile.mkdtemp(prefix='c07-')


class Gen:

    def __init__(self, rng):
        self.rng, self.n, self.budget = rng, 0, rng.randint(4, 30)

    def value(self):
        rng = self.rng
        if rng.random() < .6:
            return [rng.choice(VALUES)]
        return [['cfg', [rng.choice(NAMES)], [rng.choice(VALUES)] if rng.random() < .8 else None],
                rng.choice(['', 'z'])]

    def nodes(self, depth, most=5):
        return [self.node(depth) for _ in range(self.rng.randint(0, most)) if self.budget > 0]

    def node(self, depth):
        rng = self.rng
        self.budget -= 1
        self.n += 1
        kinds = ['declare'] * 4 + ['snap'] * 2 + ['setc']
        if depth < 4:
            kinds += ['include'] * 4 + ['group', 'opaque']
            if rng.random() < .3:
                kinds += ['timer']
        if rng.random() < .1:
            kinds += ['reset']
        node = {'k': rng.choice(kinds), 'id': self.n}
        kind = node['k']
        if kind == 'declare':
            node.update(name=rng.choice(NAMES), cond=rng.choice([None] * 5 + ['true', 'false']),
                        default=rng.choice([None, self.value(), self.value(), self.value()]),
                        choices=None)
            if rng.random() < .3:
                node['choices'] = rng.sample(VALUES, rng.randint(1, 5))
        elif kind == 'setc':
            node.update(name=rng.choice(NAMES), value=self.value())
        elif kind == 'include':
            node.update(args=[[rng.choice(NAMES), self.value()]
                              for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                        cond=rng.choice([None] * 6 + ['true', 'false']),
                        source=rng.choice(['given', 'located', 'located', 'python', 'any',
                                           'hidden', 'missing']),
                        children=self.nodes(depth + 1))
        elif kind == 'group':
            node.update(scoped=rng.random() < .6, children=self.nodes(depth + 1),
                        cond=rng.choice([None] * 4 + ['true', 'false']))
        elif kind in ('opaque', 'timer'):
            node.update(children=self.nodes(depth + 1, 3))
        return node


def walk(nodes):
    for node in nodes:
        yield node
        yield from walk(node.get('children', ()))


def gen(rng, i, tier):
    g = Gen(rng)
    tree = g.nodes(0, 7)
    for node in walk(tree):
        if node['k'] == 'include' and rng.random() < .8:
            # mostly give what is required
            for child in walk(node['children']):
                if child['k'] == 'declare' and child['default'] is None and rng.random() < .9:
                    node['args'].append([child['name'], [rng.choice(
                        child['choices'] or VALUES)]])
    return {'tree': tree, 'config': {n: rng.choice(VALUES[:5]) for n in NAMES
                                     if rng.random() < .5}}


# ---------------------------------------------------------------- static view

def declarations(nodes, conditional=False, chain=(), seen=None, out=None):
    """Return (node, conditional, chain of includes) of the declarations which can be seen."""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    for node in nodes:
        kind = node['k']
        if kind == 'reset':
            return out
        if kind == 'declare':
            if node['name'] not in seen:
                seen.add(node['name'])
                out.append((node, conditional or node['cond'] is not None, chain))
        elif kind == 'include' and node['source'] != 'hidden':
            declarations(node['children'], conditional or node['cond'] is not None,
                         chain + (node,), seen, out)
        elif kind == 'group':
            declarations(node['children'], conditional or node['cond'] is not None, chain, seen,
                         out)
        elif kind == 'timer':
            declarations(node['children'], True, chain, seen, out)
    return out


class Ambiguous(Exception):
    pass


def required_missing(node):
    """Tell whether an include lacks a required argument of what it includes."""
    given = {name for name, _ in node['args']}
    nested = {name for child in walk(node['children']) if child['k'] == 'include'
              for name, _ in child['args']}
    missing = unclear = False
    for declared, conditional, chain in declarations(node['children']):
        if conditional or declared['default'] is not None or declared['name'] in given:
            continue
        name = declared['name']
        if any(name == k for include in chain for k, _ in include['args']):
            continue
        if chain or name in nested:
            unclear = True    # whether the includer of the includer is to blame is left open
        else:
            missing = True
    if unclear and not missing:
        raise Ambiguous()
    return missing


# ---------------------------------------------------------------- model

class ModelError(Exception):
    pass


class Model:

    def __init__(self, case, paths):
        self.cfg, self.paths, self.trace = dict(case['config']), paths, []
        self.loc = None
        self.timers, self.now = [], 0.0
        self.stats = dict.fromkeys(['includes', 'declared', 'failed_required', 'failed_choices',
                                    'locations', 'failed_include'], 0)

    def text(self, parts):
        try:
            return scopes.resolve(parts, self.cfg, {})
        except scopes.ModelError:
            raise ModelError()

    def visit(self, nodes):
        for node in nodes:
            kind = node['k']
            if node.get('cond') == 'false':
                continue
            if kind == 'snap':
                self.trace.append([node['id'], dict(self.cfg), self.loc])
                self.stats['locations'] += self.loc is not None
            elif kind == 'setc':
                self.cfg[node['name']] = self.text(node['value'])
            elif kind == 'reset':
                self.cfg = {}
            elif kind == 'declare':
                name = node['name']
                self.stats['declared'] += 1
                if name not in self.cfg:
                    if node['default'] is None:
                        self.stats['failed_required'] += 1
                        raise ModelError()
                    self.cfg[name] = self.text(node['default'])
                if node['choices'] is not None and self.cfg[name] not in node['choices']:
                    self.stats['failed_choices'] += 1
                    raise ModelError()
            elif kind == 'include':
                self.stats['includes'] += 1
                if required_missing(node):
                    self.stats['failed_include'] += 1
                    raise ModelError()
                saved = self.loc
                for name, value in node['args']:
                    self.cfg[name] = self.text(value)
                path = self.paths.get(node['id'])
                self.loc = None if path is None else [path, os.path.dirname(path)]
                self.visit(node['children'])
                self.loc = saved
            elif kind == 'group':
                saved = dict(self.cfg)
                self.visit(node['children'])
                if node['scoped']:
                    self.cfg = saved
            elif kind == 'opaque':
                self.visit(node['children'])
            elif kind == 'timer':
                self.timers.append((self.now + node['id'], node['children'], self.loc))

    def run(self, nodes):
        try:
            self.visit(nodes)
            while self.timers:
                self.timers.sort(key=lambda t: t[0])
                self.now, children, self.loc = self.timers.pop(0)
                self.visit(children)
        except ModelError:
            return False
        return True


# ---------------------------------------------------------------- execution

def make_paths(case):
    """Create the files whose locations matter."""
    paths = {}
    count = 0
    for node in walk(case['tree']):
        if node['k'] == 'include' and node['source'] in ('located', 'python', 'any', 'hidden'):
            count += 1
            directory = os.path.join(BASE, 'd%d' % (count % 3))
            os.makedirs(directory, exist_ok=True)
            path = os.path.join(directory, 'f%d.launch.py' % count)
            if not os.path.exists(path):
                with open(path, 'w') as f:
                    f.write('import vf.registry\n\n\ndef generate_launch_description():\n'
                            '    return vf.registry.make(%r)\n' % path)
            paths[node['id']] = path
    return paths


def about(node):
    return 'what %d does%s' % (node['id'], '.' if node['id'] % 2 else '')


def listing(obs, description, expected):
    """Compare the printed list of the arguments with the declarations."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_arguments_of_launch_description(launch_description=description)
    blocks = re.split(r"(?m)^ *'(\w+)':(\*?)$", out.getvalue())
    obs.equal([(n['name'], bool(c)) for n, c, _ in expected],
              [(name, star == '*') for name, star in zip(blocks[1::3], blocks[2::3])],
              'listed', 'the arguments which are listed (and marked as conditional)')
    obs.equal(any(c for _, c, _ in expected), '\n* ' in blocks[-1], 'listed', 'the note on conditional ones')
    obs.expect(expected or len(blocks) == 1 and 'No arguments' in blocks[0], 'listed',
               'listed though there is no argument: %r' % out.getvalue())
    for (node, _, _), text in zip(expected, blocks[3::3]):
        text, _, default = text.partition('(default: ')
        obs.count('listed')
        obs.expect(bool(default) == (node['default'] is not None), 'listed',
                   'the default of %s: %r' % (node['name'], default))
        obs.expect(about(node) in text or not node['id'] % 3, 'listed',
                   'the description of %s: %r' % (node['name'], text))
        if default and all(isinstance(v, str) for v in node['default']):
            obs.expect(''.join(node['default']) in default, 'listed',
                       'the default of %s: %r' % (node['name'], default))
        for choice in node['choices'] or ():
            obs.expect(repr(choice) in text, 'listed', '%r is no choice of %s: %r' % (
                choice, node['name'], text))


class Driver:

    def __init__(self, obs, paths):
        self.obs, self.paths, self.trace = obs, paths, []

    def entities(self, nodes):
        return [self.entity(node) for node in nodes]

    def snap(self, context, node):
        view = context.get_locals_as_dict()
        loc = None
        if 'current_launch_file_path' in view:
            loc = [view['current_launch_file_path'], view.get('current_launch_file_directory')]
            self.obs.equal([ThisLaunchFile().perform(context),
                            ThisLaunchFileDir().perform(context)], loc, 'this-launch-file',
                           'substitutions of the launch file')
        self.trace.append([node['id'], dict(context.launch_configurations), loc])

    def entity(self, node):
        kind = node['k']
        condition = None
        if node.get('cond') is not None:
            condition = IfCondition(node['cond'])
        if kind == 'snap':
            return OpaqueFunction(function=lambda context: self.snap(context, node))
        if kind == 'setc':
            return SetLaunchConfiguration(node['name'], scopes.some(node['value']))
        if kind == 'reset':
            return ResetLaunchConfigurations()
        if kind == 'declare':
            kwargs = {'condition': condition}
            if node['id'] % 3:
                kwargs['description'] = about(node)
            if node['default'] is not None:
                kwargs['default_value'] = scopes.some(node['default'])
            if node['choices'] is not None:
                kwargs['choices'] = node['choices']
                if isinstance(kwargs.get('default_value'), str) and \
                        kwargs['default_value'] not in node['choices']:
                    try:
                        DeclareLaunchArgument(node['name'], **kwargs)
                        self.obs.fail('bad-default', 'a default which is no choice is accepted')
                    except RuntimeError:
                        pass
                    kwargs['default_value'] = scopes.substitutions(node['default'])
            return DeclareLaunchArgument(node['name'], **kwargs)
        if kind == 'include':
            source = node['source']
            path = self.paths.get(node['id'])
            if source in ('python', 'any', 'hidden'):
                registry.makers[path] = lambda: LaunchDescription(self.entities(node['children']))
                if source == 'hidden':   # cannot be found without a context
                    source = PythonLaunchDescriptionSource(
                        [LaunchConfiguration('_dir'), os.path.relpath(path, BASE)])
                elif source == 'python':
                    source = PythonLaunchDescriptionSource(path)
                else:
                    source = AnyLaunchDescriptionSource(path)
            else:
                kwargs = {} if source == 'given' else {
                    'location': path if source == 'located' else '/nonexistent/x.launch.py'}
                source = LaunchDescriptionSource(
                    LaunchDescription(self.entities(node['children'])), **kwargs)
            return IncludeLaunchDescription(
                source, condition=condition,
                launch_arguments=[(n, scopes.some(v)) for n, v in node['args']])
        children = self.entities(node['children'])
        if kind == 'group':
            return GroupAction(children, scoped=node['scoped'], condition=condition)
        if kind == 'opaque':
            return OpaqueFunction(function=lambda context: children)
        return TimerAction(period=float(node['id']), actions=children)


def run(case, obs):
    paths = make_paths(case)
    case['config']['_dir'] = BASE + '/'
    # the configurations which lead to hidden files must not be reset
    if any(n['k'] == 'reset' for n in walk(case['tree'])):
        for node in walk(case['tree']):
            if node.get('source') == 'hidden':
                node['source'] = 'python'
    model = Model(case, paths)
    try:
        ok = model.run(case['tree'])
    except Ambiguous:
        obs.count('ambiguous')
        return
    driver = Driver(obs, paths)
    description = LaunchDescription(driver.entities(case['tree']))
    reported = description.get_launch_arguments()
    expected = declarations(case['tree'])
    obs.equal([(a.name, a._conditionally_included, a.default_value is None, a.choices)
               for a in reported],
              [(n['name'], bool(c), n['default'] is None, n['choices'])
               for n, c, _ in expected], 'reported', 'declared arguments')
    obs.count('reported', len(expected))
    listing(obs, description, expected)
    nested = description.get_launch_arguments_with_include_launch_description_actions()
    obs.equal([(a.name, bool(chain)) for a, chain in nested],
              [(n['name'], bool(chain)) for n, _, chain in expected], 'reported-nesting',
              'whether declared arguments are nested in includes')
    service, loop = new_service()
    try:
        service.context.launch_configurations.update(case['config'])
        service.include_launch_description(description)
        result = execute(service, loop)
    finally:
        finish(loop)
    for key, value in model.stats.items():
        obs.count(key, value)
    if not judge(result, obs, 0 if ok else 1):
        return
    known = [t[2] is None for t in model.trace]
    actual = [t if not k else t[:2] + [None] for t, k in zip(
        driver.trace, known + [True] * len(driver.trace))]
    if not ok and model.now == 0:
        # entities of the failed description may not be visited, those of timers may
        late = {n['id'] for t in walk(case['tree']) if t['k'] == 'timer'
                for n in walk(t['children'])}
        actual = [t for t in actual if t[0] not in late]
        wanted = [t for t in model.trace if t[0] not in late]
        difference = first_difference(wanted, actual)
    elif not ok:
        difference = first_difference(model.trace, actual[:len(model.trace)])
    else:
        difference = first_difference(model.trace, actual)
    obs.expect(difference is None, 'state', difference)
    if model.stats['includes'] >= 2:
        obs.sig([[t[0], sorted(t[1].items())] for t in model.trace])
