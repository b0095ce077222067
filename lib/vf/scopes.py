"""Programs of actions on launch configurations and environment, and a reference model of them."""
import json
import os

from launch import LaunchDescription
from launch.actions import (AppendEnvironmentVariable, ExecuteProcess, GroupAction,
                            IncludeLaunchDescription, OpaqueFunction, PopEnvironment,
                            PopLaunchConfigurations, PushEnvironment, PushLaunchConfigurations,
                            ResetEnvironment, ResetLaunchConfigurations, SetEnvironmentVariable,
                            SetLaunchConfiguration, TimerAction, UnsetEnvironmentVariable,
                            UnsetLaunchConfiguration)
from launch.launch_description_source import LaunchDescriptionSource
from launch.substitutions import EnvironmentVariable, LaunchConfiguration, TextSubstitution

from .kit import execute, finish, first_difference, judge, new_service

CONFIGS = ['a', 'b', 'c', 'ab']
ENVS = ['VFA', 'VFB', 'VFC', 'VFAB']
TEXTS = ['', '0', 'x', 'true', ' s p ', 'a:b', 'ü', '${HOME}', '$(var a)', 'b', 'a', "it's", '-']


class ModelError(Exception):
    pass


# ---------------------------------------------------------------- values

def gen_value(rng, depth=0, safe=True):
    """Return a list of parts: text, or ['cfg'|'env', name value, default value or null]."""
    parts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3]) if depth == 0 else 1):
        r = rng.random()
        if r < .55 or depth > 2:
            parts.append(rng.choice(TEXTS))
        else:
            kind = rng.choice(['cfg', 'env'])
            name = [rng.choice(CONFIGS if kind == 'cfg' else ENVS)]
            if rng.random() < .12:
                name = ['a', ['cfg', ['zzz'], ['b']]] if kind == 'cfg' else \
                    ['VFA', ['cfg', ['zzz'], ['B']]]
            default = gen_value(rng, depth + 1) if safe or rng.random() < .7 else None
            parts.append([kind, name, default])
    return parts


def resolve(parts, cfg, env):
    out = ''
    for part in parts:
        if isinstance(part, str):
            out += part
            continue
        kind, name, default = part
        name = resolve(name, cfg, env)
        if kind == 'env':    # evaluates its default in any case
            default = None if default is None else resolve(default, cfg, env)
        space = cfg if kind == 'cfg' else env
        if name in space:
            out += space[name]
        elif default is None:
            raise ModelError('%s %s' % (kind, name))
        else:
            out += default if kind == 'env' else resolve(default, cfg, env)
    return out


def substitutions(parts):
    out = []
    for part in parts:
        if isinstance(part, str):
            out.append(TextSubstitution(text=part))
            continue
        kind, name, default = part
        default = None if default is None else substitutions(default)
        if kind == 'cfg':
            out.append(LaunchConfiguration(substitutions(name), default=default))
        else:
            out.append(EnvironmentVariable(substitutions(name), default_value=default))
    return out


def some(rng_free_parts):
    """Return a value in one of the accepted forms."""
    parts = rng_free_parts
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    subs = substitutions(parts)
    return subs[0] if len(subs) == 1 else subs


def key(parts):
    """Return a value which can be the key of a dictionary."""
    if len(parts) == 1 and isinstance(parts[0], str):
        return parts[0]
    return tuple(substitutions(parts))


# ---------------------------------------------------------------- programs

def gen_name(rng, names):
    if rng.random() < .1:
        return [names[0], ['cfg', ['zzz'], [names[3][len(names[0]):]]]]
    return [rng.choice(names)]


def no_env(parts):
    return [part if isinstance(part, str) else
            ['cfg', no_env(part[1]), part[2] and no_env(part[2])] for part in parts]


def gen_dict(rng, safe):
    out = []
    for name in rng.sample(CONFIGS, rng.randint(0, 3)):
        out.append([[name], gen_value(rng, safe=safe)])
    return out


class Gen:

    def __init__(self, rng, weights, unbalanced=.0, safe=True):
        self.rng, self.weights, self.unbalanced, self.safe = rng, weights, unbalanced, safe
        self.budget = rng.randint(8, 50)
        self.tag = 0

    def nodes(self, depth, most=6):
        out, opened = [], []
        rng = self.rng
        unbalanced = 0 if depth else self.unbalanced
        for _ in range(rng.randint(1, most)):
            if self.budget <= 0:
                break
            node = self.node(depth)
            kind = node['k']
            if kind in ('popc', 'pope'):
                if opened and rng.random() >= unbalanced:
                    node = {'k': opened.pop()}
                elif rng.random() >= unbalanced:
                    continue
            elif kind in ('pushc', 'pushe'):
                opened.append('popc' if kind == 'pushc' else 'pope')
            out.append(node)
        if not unbalanced or rng.random() < .5:
            out.extend({'k': k} for k in reversed(opened))
        out.append(self.snap())
        return out

    def snap(self):
        self.tag += 1
        return {'k': 'snap', 'tag': self.tag}

    def node(self, depth):
        rng = self.rng
        self.budget -= 1
        weights = {k: v for k, v in self.weights.items()
                   if depth < 4 or k not in ('group', 'include', 'timer', 'repeat')}
        kind = rng.choices(list(weights), list(weights.values()))[0]
        node = {'k': kind}
        if kind == 'setc':
            node.update(name=gen_name(rng, CONFIGS), value=gen_value(rng, safe=self.safe))
        elif kind == 'unsetc':
            node.update(name=gen_name(rng, CONFIGS))
        elif kind == 'sete':
            node.update(name=gen_name(rng, ENVS), value=gen_value(rng, safe=self.safe))
        elif kind == 'unsete':
            node.update(name=gen_name(rng, ENVS))
        elif kind == 'append':
            node.update(name=gen_name(rng, ENVS), value=gen_value(rng, safe=self.safe),
                        prepend=rng.choice([None, True, False, ['true'], ['no'],
                                            [['cfg', ['zzz'], ['True']]],
                                            [['cfg', ['zzz'], ['off']]]]),
                        sep=rng.choice([None, None, [';'], [''], gen_value(rng)]))
        elif kind == 'resetc':
            node.update(keep=rng.choice([None, gen_dict(rng, self.safe)]))
        elif kind == 'group':
            node.update(scoped=rng.random() < .75, forwarding=rng.random() < .6,
                        conf=rng.choice([None, gen_dict(rng, self.safe)]),
                        lazy=rng.random() < .2, children=self.nodes(depth + 1))
            if node['conf'] and node['scoped'] and not node['forwarding']:
                # in which environment these are evaluated is left open
                node['conf'] = [[k, no_env(v)] for k, v in node['conf']]
        elif kind == 'include':
            node.update(args=[[gen_name(rng, CONFIGS), gen_value(rng, safe=self.safe)]
                              for _ in range(rng.randint(0, 2))], children=self.nodes(depth + 1))
        elif kind == 'repeat':
            node.update(children=self.nodes(depth + 1, 3), times=rng.choice([2, 2, 3]))
        elif kind == 'timer':
            node.update(dt=round(rng.uniform(.1, 9), 4), children=self.nodes(depth + 1, 4))
        elif kind in ('snap', 'proc'):
            self.tag += 1
            node['tag'] = self.tag
        return node


# ---------------------------------------------------------------- reference model

class Model:

    def __init__(self, cfg, env):
        self.cfg, self.env, self.initial = dict(cfg), dict(env), dict(env)
        self.cstack, self.estack = [], []
        self.trace, self.timers, self.seq, self.now = [], [], 0, 0.0
        self.executed = 0
        self.scoped = 0

    def text(self, parts):
        return resolve(parts, self.cfg, self.env)

    def visit_all(self, nodes):
        for node in nodes:
            self.visit(node)

    def visit(self, node):
        kind = node['k']
        cfg, env, text = self.cfg, self.env, self.text
        self.executed += 1
        if kind == 'snap':
            self.trace.append(['snap', node['tag'], dict(cfg), dict(env)])
        elif kind == 'proc':
            self.trace.append(['proc', node['tag'], dict(env)])
        elif kind == 'setc':
            name, value = text(node['name']), text(node['value'])
            cfg[name] = value
        elif kind == 'unsetc':
            cfg.pop(text(node['name']), None)
        elif kind == 'sete':
            name, value = text(node['name']), text(node['value'])
            env[name] = value
        elif kind == 'unsete':
            env.pop(text(node['name']), None)
        elif kind == 'append':
            name, value = text(node['name']), text(node['value'])
            prepend = node['prepend']
            if isinstance(prepend, list):
                prepend = text(prepend) in ('true', 'True')
            sep = os.pathsep if node['sep'] is None else text(node['sep'])
            if name not in env:
                env[name] = value
            elif prepend:
                env[name] = value + sep + env[name]
            else:
                env[name] = env[name] + sep + value
        elif kind == 'pushc':
            self.cstack.append(dict(cfg))
        elif kind == 'pushe':
            self.estack.append(dict(env))
        elif kind == 'popc':
            if not self.cstack:
                raise ModelError('pop')
            self.cfg = self.cstack.pop()
        elif kind == 'pope':
            if not self.estack:
                raise ModelError('pop')
            self.env = self.estack.pop()
        elif kind == 'resete':
            self.env = dict(self.initial)
        elif kind == 'resetc':
            self.cfg = {text(k): text(v) for k, v in node['keep'] or []}
        elif kind == 'group':
            conf = node['conf'] or []
            saved = dict(cfg), dict(env)
            if node['scoped'] and not node['forwarding']:
                self.cfg = {text(k): text(v) for k, v in conf}
                self.env = dict(self.initial)
            else:
                for k, v in conf:
                    name, value = self.text(k), self.text(v)
                    self.cfg[name] = value
            self.visit_all(node['children'])
            if node['scoped']:
                self.scoped += 1
                self.cfg, self.env = saved
        elif kind == 'include':
            for k, v in node['args']:
                name, value = self.text(k), self.text(v)
                self.cfg[name] = value
            self.visit_all(node['children'])
        elif kind == 'repeat':
            for _ in range(node['times']):
                self.visit_all(node['children'])
        elif kind == 'timer':
            self.timers.append((self.now + node['dt'], self.seq, node['children']))
            self.seq += 1
        else:
            raise AssertionError(kind)

    def run(self, nodes):
        """Return whether everything was visited without an error."""
        try:
            self.visit_all(nodes)
            while self.timers:
                self.timers.sort(key=lambda t: t[:2])
                self.now, _, children = self.timers.pop(0)
                self.visit_all(children)
        except ModelError:
            return False
        return True


# ---------------------------------------------------------------- execution

class Driver:

    def __init__(self, obs):
        self.obs, self.trace = obs, []
        self.groups = 0

    def state(self, context):
        return dict(context.launch_configurations), dict(os.environ)

    def snap(self, context, tag):
        cfg, env = self.state(context)
        self.trace.append(['snap', tag, cfg, env])
        self.obs.count('snapshots')
        for name in CONFIGS:
            self.obs.equal(LaunchConfiguration(name, default=['<', name, '>']).perform(context),
                           cfg.get(name, '<%s>' % name), 'read-configuration',
                           'LaunchConfiguration(%r)' % name)
        for name in ENVS:
            self.obs.equal(EnvironmentVariable(name, default_value='<>').perform(context),
                           env.get(name, '<>'), 'read-environment',
                           'EnvironmentVariable(%r)' % name)
        self.obs.expect(dict(context.environment) == env, 'context-environment',
                        'context.environment differs from the environment of the process')

    def entities(self, nodes):
        return [self.entity(node) for node in nodes]

    def entity(self, node):
        kind = node['k']
        if kind == 'snap':
            return OpaqueFunction(function=lambda context: self.snap(context, node['tag']))
        if kind == 'proc':
            script = json.dumps({'exit': [.01, 0], 'tag': node['tag']})
            return OpaqueFunction(function=lambda context: [
                ExecuteProcess(cmd=['sim', script], output='log')])
        if kind == 'setc':
            return SetLaunchConfiguration(some(node['name']), some(node['value']))
        if kind == 'unsetc':
            return UnsetLaunchConfiguration(some(node['name']))
        if kind == 'sete':
            return SetEnvironmentVariable(some(node['name']), some(node['value']))
        if kind == 'unsete':
            return UnsetEnvironmentVariable(some(node['name']))
        if kind == 'append':
            kwargs = {}
            if node['prepend'] is not None:
                kwargs['prepend'] = node['prepend'] if isinstance(node['prepend'], bool) else \
                    substitutions(node['prepend'])
            if node['sep'] is not None:
                kwargs['separator'] = some(node['sep'])
            return AppendEnvironmentVariable(some(node['name']), some(node['value']), **kwargs)
        if kind == 'pushc':
            return PushLaunchConfigurations()
        if kind == 'pushe':
            return PushEnvironment()
        if kind == 'popc':
            return PopLaunchConfigurations()
        if kind == 'pope':
            return PopEnvironment()
        if kind == 'resete':
            return ResetEnvironment()
        if kind == 'resetc':
            if node['keep'] is None:
                return ResetLaunchConfigurations()
            return ResetLaunchConfigurations({key(k): some(v) for k, v in node['keep']})
        children = self.entities(node['children'])
        if kind == 'group':
            conf = node['conf']
            if conf is not None:
                conf = {key(k): some(v) for k, v in conf}
            group = GroupAction(
                (c for c in children) if node['lazy'] else children,
                scoped=node['scoped'], forwarding=node['forwarding'], launch_configurations=conf)
            if not node['scoped']:
                return group
            before = []

            def enter(context):
                before.append(self.state(context))

            def leave(context):
                # judged without any model: what was before a scoped group is there after it
                self.groups += 1
                cfg, env = self.state(context)
                was = before.pop()
                self.obs.equal(cfg, was[0], 'group-configurations',
                               'configurations after a scoped group')
                self.obs.expect(env == was[1], 'group-environment',
                                'environment after a scoped group differs: %r' % sorted(
                                    set(env.items()) ^ set(was[1].items())))
            return LaunchDescription([
                OpaqueFunction(function=enter), group, OpaqueFunction(function=leave)])
        if kind == 'include':
            return IncludeLaunchDescription(
                LaunchDescriptionSource(LaunchDescription(children)),
                launch_arguments=[(some(k), some(v)) for k, v in node['args']])
        if kind == 'repeat':
            # the very same objects are visited again in another state
            return OpaqueFunction(function=lambda context: children * node['times'])
        return TimerAction(period=node['dt'], actions=children)


def perform(case, obs):
    """Execute a case and compare it to the model, return the model."""
    for name in list(os.environ):
        if name.startswith('VF'):
            del os.environ[name]
    os.environ.update(case['env'])
    model = Model(case['cfg'], dict(os.environ))
    service, loop = new_service()
    # changes made after the launch system was created are no part of its initial environment
    os.environ.update(case.get('late', {}))
    model.env.update(case.get('late', {}))
    ok = model.run(case['nodes'])
    driver = Driver(obs)
    spawned = []

    def seen(cmd):
        return None
    loop.fault = seen
    try:
        service.context.launch_configurations.update(case['cfg'])
        service.include_launch_description(LaunchDescription(driver.entities(case['nodes'])))
        result = execute(service, loop)
        after = dict(service.context.launch_configurations), dict(os.environ)
    finally:
        finish(loop)
    if not judge(result, obs, 0 if ok else 1):
        return model, False
    for transport in loop.processes:
        spawned.append([transport.script['tag'], dict(transport.env)])
    expected = [t for t in model.trace if t[0] == 'snap']
    difference = first_difference(
        [brief(t, model.initial) for t in expected],
        [brief(t, model.initial) for t in driver.trace[:None if ok else len(expected)]])
    obs.expect(difference is None, 'state', difference)
    want = sorted(([t[1], t[2]] for t in model.trace if t[0] == 'proc'), key=lambda t: t[0])
    if ok:
        obs.equal([[t, brief_env(e, model.initial)] for t, e in sorted(
            spawned, key=lambda t: t[0])], [[t, brief_env(e, model.initial)] for t, e in want],
            'child-environment', 'environment of child processes')
        obs.count('children', len(want))
        obs.equal(after[0], model.cfg, 'final-configurations', 'configurations after the run')
        obs.equal(brief_env(after[1], model.initial), brief_env(model.env, model.initial),
                  'final-environment', 'environment after the run')
    obs.count('executed', model.executed)
    obs.count('scoped_groups', driver.groups)
    obs.count('errors', int(not ok))
    return model, ok


def brief_env(env, initial):
    """Return the difference of an environment from the initial one (comparable and short)."""
    return sorted([k, env.get(k)] for k in set(env) | set(initial)
                  if env.get(k) != initial.get(k) or k.startswith('VF'))


def brief(entry, initial):
    return [entry[0], entry[1], sorted(entry[2].items()), brief_env(entry[3], initial)]
