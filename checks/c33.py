"""C33: objects of the Python API accept what is documented, tell it, and leave it alone."""
import logging
import random
import signal
import warnings

from launch import Condition, EventHandler, LaunchContext, LaunchDescription, LaunchDescriptionSource
from launch import LaunchIntrospector
from launch.actions import (AppendEnvironmentVariable, DeclareLaunchArgument, EmitEvent, ExecuteProcess,
                            GroupAction, IncludeLaunchDescription, LogInfo, OpaqueCoroutine,
                            OpaqueFunction, RegisterEventHandler, ResetEnvironment,
                            ResetLaunchConfigurations, SetEnvironmentVariable, SetLaunchConfiguration,
                            Shutdown, TimerAction, UnregisterEventHandler, UnsetEnvironmentVariable,
                            UnsetLaunchConfiguration)
from launch.conditions import IfCondition, LaunchConfigurationEquals, UnlessCondition
from launch.event_handlers import (OnExecutionComplete, OnProcessExit, OnProcessIO, OnProcessStart,
                                   OnShutdown)
from launch.events import ExecutionComplete, TimerEvent
from launch.events import IncludeLaunchDescription as IncludeEvent
from launch.events import Shutdown as ShutdownEvent
from launch.events.process import (ProcessExited, ProcessStarted, ProcessStderr, ProcessStdin,
                                   ProcessStdout, ShutdownProcess, SignalProcess)
from launch.substitutions import (AllSubstitution, AndSubstitution, AnonName, AnySubstitution, Command,
                                  EnvironmentVariable, EqualsSubstitution, FileContent, FindExecutable,
                                  IfElseSubstitution, LaunchConfiguration, LocalSubstitution,
                                  NotEqualsSubstitution, NotSubstitution, OrSubstitution,
                                  PathJoinSubstitution, PythonExpression, TextSubstitution)
from launch.utilities import (ensure_argument_type, is_a, is_a_subclass, isclassinstance,
                              normalize_to_list_of_entities, normalize_to_list_of_substitutions,
                              perform_substitutions)
from launch.utilities.type_utils import perform_typed_substitution
from vf.kit import execute, finish, judge, LogTap, MyEvent, new_service

CASES = {'quick': 8000, 'thorough': 300000}
WALL = {'quick': 90, 'thorough': 600}
TIMEOUT = 60
NEED = {'accepted': 40000, 'rejected': 15000, 'told': 90000, 'arguments_kept': 50000, 'launched': 1500,
        'defaults': 11000, 'deprecated': 150, 'utilities': 6000}
RULE = ('a case creates many random objects of the Python API from the documented forms of their '
        'arguments, and others with one argument of a wrong type; what was accepted, what the objects '
        'tell about themselves and the given containers (also after describing and launching) are '
        'compared with what was given; non-trivial: at least 5 classes')
ASSUMPTIONS = ['only arguments whose types the constructors are documented to check are given wrongly']


class Obj:
    pass


def function(*args):
    return None


async def coroutine(*args):
    return None


WRONG = {
    'int': 5, 'zero': 0, 'float': 2.5, 'object': Obj(), 'bytes': b'ab', 'ints': [1, 2],
    'mixed': ['a', 3], 'nones': [None], 'function': function, 'class': Obj, 'none': None, 'str': 'text',
    'dict': {'a': 'b'}, 'nested': ['a', ['b']], 'true': True,
}
NO_SUBST = ['int', 'zero', 'float', 'object', 'bytes', 'ints', 'mixed', 'nones', 'function', 'class',
            'none', 'nested', 'true']


class Given:
    """An argument as it was given, and what should be told about it."""

    def __init__(self, value, tells=None, keep=None):
        self.value, self.tells = value, tells
        self.keep = None if keep is None else (keep, snapshot(keep))


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snapshot(v) for v in x]
    return x if isinstance(x, (str, int, float, bool, type(None))) else id(x)


def word(rng):
    return rng.choice(['a', 'name', 'x y', '', '/p/q', '1', 'ü', 'true'])


def subst(rng, text=None):
    """Something that is SomeSubstitutionsType, and the text it stands for."""
    how = rng.choice(['str', 'one', 'list', 'tuple', 'iterator', 'strs', 'configuration'])
    text = word(rng) if text is None else text
    cut = rng.randint(0, len(text))
    parts = [TextSubstitution(text=text[:cut]), text[cut:]]
    if how == 'str':
        return Given(text, text)
    if how == 'one':
        return Given(TextSubstitution(text=text), text)
    if how == 'configuration':
        return Given(LaunchConfiguration('none', default=text), text)
    if how == 'iterator':
        return Given(iter(parts), text)
    if how == 'strs':
        parts = [text[:cut], text[cut:]]
    value = tuple(parts) if how == 'tuple' else parts
    return Given(value, text, value)


def typed(rng, text):
    given = subst(rng, text)
    while not (isinstance(given.value, (TextSubstitution, LaunchConfiguration)) or isinstance(
            given.value, (list, tuple)) and not all(isinstance(v, str) for v in given.value)):
        given = subst(rng, text)    # texts are values, not substitutions, where there is a type
    return given


def operand(rng):
    given = subst(rng)
    while not isinstance(given.value, (str, TextSubstitution, LaunchConfiguration)):
        given = subst(rng)      # other values than substitutions are compared as texts
    return given


def actions(rng):
    n = rng.randint(0, 3)
    value = [LogInfo(msg='m') for _ in range(n)]
    how = rng.choice(['list', 'tuple', 'iterator'])
    if how == 'iterator':
        return Given(iter(value), value)
    value = value if how == 'list' else tuple(value)
    return Given(value, list(value), value)


def same(rng, value):
    return Given(value, value, value if isinstance(value, (list, dict, tuple)) else None)


PROCESS = ExecuteProcess(cmd=['true'])
ACTION = LogInfo(msg='target')
EVENT = MyEvent('x', 1)
HANDLER = EventHandler(matcher=lambda event: False)
DESCRIPTION = LaunchDescription()
SOURCE = LaunchDescriptionSource(DESCRIPTION)


def timer_period(rng):
    t = rng.choice([0.0, .5, 2.25])
    if rng.random() < .5:
        return Given(t, t)
    given = typed(rng, str(t))
    given.tells = t
    return given


def boolean(rng):
    b = rng.random() < .5
    if rng.random() < .5:
        return Given(b, b)
    given = typed(rng, rng.choice(['true', 'True'] if b else ['false', 'False']))
    given.tells = b
    return given


def text_list(rng):
    value = [word(rng) for _ in range(rng.randint(1, 3))]
    return Given(value, value, value)


def on_event(rng):
    r = rng.random()
    if r < .3:
        return Given(function, [])
    if r < .5:
        return Given(ACTION, [ACTION])
    return actions(rng)


def env(rng):
    value = {word(rng) + str(k): word(rng) for k in range(rng.randint(0, 3))}
    return Given(value, sorted(value.items()), value)


def pairs(rng):
    value = [(word(rng), word(rng)) for k in range(rng.randint(0, 3))]
    how = rng.choice(['list', 'tuple', 'iterator', 'items'])
    if how == 'items':
        return Given(dict(value).items(), list(dict(value).items()))
    if how == 'iterator':
        return Given(iter(value), value)
    value = value if how == 'list' else tuple(value)
    return Given(value, list(value), value)


def modules(rng):
    value = rng.sample(['math', 'os', 'json'], rng.randint(1, 2))
    return Given(value, ''.join(value), value)


def choices(rng):
    value = rng.sample(['a', 'b', 'name', '1'], rng.randint(1, 3))
    return Given(value, value, value)


def cmd(rng):
    value = [subst(rng, w) for w in ['prog', 'x', '-v'][:rng.randint(1, 3)]]
    words = [v.tells for v in value]
    value = [v.value for v in value]
    if rng.random() < .3:
        return Given(iter(value), words)
    return Given(value, words, value)


def signals(rng):
    value = rng.choice([signal.SIGINT, signal.SIGKILL, signal.SIGUSR1, 'SIGKILL', 'SIGINT'])
    return Given(value, value)


def of(*values):
    return lambda rng: same(rng, rng.choice(values))


def dicts(rng):
    value = {'k%d' % k: rng.choice([1, 'v', None]) for k in range(rng.randint(0, 2))}
    return Given(value, value, value)


def args(rng):
    value = rng.choice([[], [1, 2], ['a']])
    value = rng.choice([value, tuple(value), set(value)])
    return Given(value, value, value if isinstance(value, (list, tuple)) else None)


def configurations(rng):
    value = {word(rng): word(rng) for k in range(rng.randint(0, 3))}
    return Given(value, value, value)


# for each argument: how it is made, what is wrong for it, how it is told ('' if it is not), and
# whether it may be left out (with what is told, then)
R = 'required'
NO_FUNCTION = ['int', 'float', 'object', 'str', 'ints', 'none', 'dict', 'true', 'bytes']
NO_ITERABLE = ['int', 'float', 'object', 'function', 'true', 'class']
NO_DICT = ['int', 'float', 'object', 'function', 'true', 'ints', 'str', 'class']
NO_BOOL_SUBST = ['float', 'object', 'function', 'bytes', 'none', 'class', 'ints']
NO_TARGET = ['int', 'float', 'object', 'str', 'ints', 'dict', 'bytes', 'true']
NO_ENTITIES = ['ints', 'mixed', 'nones', 'nested', 'dict']
COND = {'condition': (of(None, IfCondition('true')), [], 'condition', None)}


def s(tell, default=R, bad=NO_SUBST):
    return (subst, bad, tell, default)


def target(actions):
    return (of(None, function, *actions), NO_TARGET, '', None)


CLASSES = [
    (OpaqueFunction, {'function': (of(function, len, Obj), NO_FUNCTION, '', R),
                      'args': (args, NO_ITERABLE, '', None), 'kwargs': (dicts, NO_DICT, '', None), **COND}),
    (OpaqueCoroutine, {'coroutine': (of(coroutine), NO_FUNCTION + ['function', 'class'], '', R),
                       'args': (args, NO_ITERABLE, '', None), 'kwargs': (dicts, NO_DICT, '', None),
                       'ignore_context': (of(True, False), ['int', 'str', 'none', 'ints'], '', False), **COND}),
    (EmitEvent, {'event': (of(EVENT), ['int', 'none', 'str', 'object', 'function', 'class', 'ints'],
                           'event', R), **COND}),
    (Shutdown, {'reason': s('', ''), **COND}),
    (TimerAction, {'period': (timer_period, ['object', 'none', 'function', 'bytes', 'ints', 'mixed'],
                              'period', R),
                   'actions': (actions, NO_ITERABLE, 'actions', R), 'cancel_on_shutdown': (
                       boolean, NO_BOOL_SUBST, '', True), **COND}),
    (DeclareLaunchArgument, {'name': (of('a', 'b c'), [], 'name', R), 'default_value': s(
        'default_value', None, [x for x in NO_SUBST if x != 'none']),
        'description': (of('text', 'more'), [], 'description', None), **COND}),
    (SetLaunchConfiguration, {'name': s('name'), 'value': s('value'), **COND}),
    (UnsetLaunchConfiguration, {'name': s('name'), **COND}),
    (SetEnvironmentVariable, {'name': s('name'), 'value': s('value'), **COND}),
    (UnsetEnvironmentVariable, {'name': s('name'), **COND}),
    (AppendEnvironmentVariable, {'name': s('name'), 'value': s('value'), 'separator': s('separator', ':'),
                                 'prepend': (boolean, NO_BOOL_SUBST, 'prepend', False), **COND}),
    (LogInfo, {'msg': s('msg'), **COND}),
    (RegisterEventHandler, {'event_handler': (of(HANDLER), [], 'event_handler', R), **COND}),
    (UnregisterEventHandler, {'event_handler': (of(HANDLER), [], 'event_handler', R), **COND}),
    (GroupAction, {'actions': (actions, [], 'get_sub_entities()', R), 'scoped': (of(False), [], '', R),
                   **COND}),
    (ResetEnvironment, COND),
    (ResetLaunchConfigurations, {'launch_configurations': (configurations, [], '', None), **COND}),
    (IncludeLaunchDescription, {'launch_description_source': (of(SOURCE), ['int', 'object', 'ints'],
                                                              'launch_description_source', R),
                                'launch_arguments': (pairs, ['int', 'object', 'function'],
                                                     'launch_arguments', []), **COND}),
    (ExecuteProcess, {'cmd': (cmd, ['int', 'object', 'ints', 'nones', 'none', 'function'], 'cmd', R),
                      'cwd': s('cwd', None, [x for x in NO_SUBST if x != 'none']),
                      'env': (env, [], 'env', None),
                      'shell': (of(True, False), [], 'shell', False),
                      'respawn': (boolean, NO_BOOL_SUBST, '', False),
                      'sigterm_timeout': s('sigterm_timeout', '', [x for x in NO_SUBST if x != 'none']),
                      'sigkill_timeout': s('sigkill_timeout', '', [x for x in NO_SUBST if x != 'none']),
                      'on_exit': (on_event, [], 'get_sub_entities()', []),
                      **COND}),
    (ExecuteProcess, {'cmd': (cmd, [], 'cmd', R), 'additional_env': (env, [], 'additional_env', None),
                      'name': s('name', None, [x for x in NO_SUBST if x != 'none'])}),
    (LaunchDescription, {'initial_entities': (actions, ['int', 'object', 'function'], 'entities', []),
                         'deprecated_reason': (of('why'), [], 'deprecated_reason', None)}),
    (IfCondition, {'predicate_expression': s('')}),
    (UnlessCondition, {'predicate_expression': s('')}),
    (LaunchConfigurationEquals, {'launch_configuration_name': (of('a'), [], '', R), 'expected_value': s(
        '', R, [x for x in NO_SUBST if x != 'none'])}),
    (Condition, {'predicate': (of(function), [], '', R)}),
    (EventHandler, {'matcher': (of(function), [], '', R), 'entities': (actions, [], 'entities', None),
                    'handle_once': (of(True, False), [], 'handle_once', False)}),
    (OnProcessExit, {'target_action': target([PROCESS]), 'on_exit': (
        on_event, NO_ENTITIES, 'describe()[1]', R), 'handle_once': (of(True, False), [], 'handle_once', False)}),
    (OnProcessStart, {'target_action': target([PROCESS]), 'on_start': (
        on_event, NO_ENTITIES, 'describe()[1]', R)}),
    (OnProcessIO, {'target_action': target([PROCESS]), 'on_stdout': (of(function), [], '', None)}),
    (OnExecutionComplete, {'target_action': target([PROCESS, ACTION]), 'on_completion': (
        on_event, NO_ENTITIES, 'describe()[1]', R)}),
    (OnShutdown, {'on_shutdown': (on_event, [], 'describe()[1]', R),
                  'handle_once': (of(True, False), [], 'handle_once', False)}),
    (SignalProcess, {'signal_number': (signals, ['int', 'float', 'none', 'object', 'bytes', 'ints'],
                                       'signal', R),
                     'process_matcher': (of(function), [], 'process_matcher', R)}),
    (ShutdownProcess, {'process_matcher': (of(function), [], 'process_matcher', R)}),
    (ShutdownEvent, {'reason': (of('why', ''), [], 'reason', 'reason not given'),
                     'due_to_sigint': (of(True, False), [], 'due_to_sigint', False)}),
    (ExecutionComplete, {'action': (of(ACTION), [], 'action', R)}),
    (TimerEvent, {'timer_action': (of(TimerAction(period=1.0, actions=[])), [], 'timer_action', R)}),
    (IncludeEvent, {'launch_description': (of(DESCRIPTION), [], 'launch_description', R)}),
    (TextSubstitution, {'text': (of('a', '', 'ü'), ['int', 'none', 'bytes', 'ints', 'object', 'float'],
                                 'text', R)}),
    (LocalSubstitution, {'expression': (of('a.b'), ['int', 'none', 'bytes', 'ints', 'object', 'float'],
                                        'expression', R),
                         'description': (of('text'), [], 'description', None)}),
    (PythonExpression, {'expression': s('expression'), 'python_modules': (
        modules, NO_SUBST, 'python_modules', 'math')}),
    (LaunchConfiguration, {'variable_name': s('variable_name')}),
    (EnvironmentVariable, {'name': s('name'), 'default_value': s(
        'default_value', None, [x for x in NO_SUBST if x != 'none'])}),
    (FindExecutable, {'name': s('name')}),
    (FileContent, {'path': s('path')}),
    (Command, {'command': s('command'), 'on_stderr': (
        lambda rng: subst(rng, rng.choice(['fail', 'warn', 'ignore', 'capture'])), NO_SUBST, 'on_stderr',
        'fail')}),
    (AnonName, {'name': s('name')}),
    (NotSubstitution, {'value': s('value')}),
    (AndSubstitution, {'left': s('left'), 'right': s('right')}),
    (OrSubstitution, {'left': s('left'), 'right': s('right')}),
    (EqualsSubstitution, {'left': (operand, [], 'left', R), 'right': (operand, [], 'right', R)}),
    (NotEqualsSubstitution, {'left': (operand, [], 'left', R), 'right': (operand, [], 'right', R)}),
    (IfElseSubstitution, {'condition': s('condition'), 'if_value': (
        lambda rng: subst(rng, 'yes'), NO_SUBST, 'if_value', R), 'else_value': s('else_value', '')}),
    (PathJoinSubstitution, {'substitutions': (text_list, ['int', 'object', 'ints', 'nones', 'none'],
                                              'substitutions', R)}),
]
EVENTS = [
    (ProcessStarted, {}), (ProcessExited, {'returncode': (of(0, 1, -9), [], 'returncode', R)}),
    (ProcessStdout, {'text': (of(b'', b'x'), [], 'text', R)}),
    (ProcessStderr, {'text': (of(b'', b'x'), [], 'text', R)}),
    (ProcessStdin, {'text': (of(b'', b'x'), [], 'text', R)}),
]
for cls, spec in EVENTS:
    CLASSES.append((cls, {
        'action': (of(PROCESS), [], 'action', R), 'name': (of('n', 'm'), [], 'process_name', R),
        'cmd': (of(['a'], ['b', 'c']), [], 'cmd', R), 'cwd': (of(None, '/d'), [], 'cwd', R),
        'env': (of(None, {'A': 'b'}), [], 'env', R), 'pid': (of(1, 77), [], 'pid', R), **spec}))
STREAMS = {ProcessStdin: 0, ProcessStdout: 1, ProcessStderr: 2}
POSITIONAL = (AnySubstitution, AllSubstitution)


def gen(rng, i, tier):
    return {'seed': rng.randrange(1 << 40), 'objects': rng.choice([10, 25, 40]),
            'launch': rng.random() < .6}


def tell(obj, how, context):
    if how.endswith('()'):
        value = getattr(obj, how[:-2])()
    elif how == 'describe()[1]':
        value = obj.describe()[1]
    else:
        value = getattr(obj, how)
    return value


def comparable(value, expected, context, cls, how):
    """Bring what an object tells into the form of what was given."""
    if value is None or value is expected:
        return value
    if how in ('period', 'prepend'):
        return perform_typed_substitution(context, value, float if how == 'period' else bool)
    if how == 'cmd' and cls is ExecuteProcess:
        return [perform_substitutions(context, word) for word in value]
    if how in ('env', 'additional_env') and cls is ExecuteProcess:
        return sorted((perform_substitutions(context, list(k)), perform_substitutions(context, list(v)))
                      for k, v in value)
    if how in ('actions', 'entities', 'launch_arguments', 'get_sub_entities()', 'describe()[1]'):
        return list(value)
    if how == 'substitutions':
        return [perform_substitutions(context, [sub]) for sub in value]
    if isinstance(expected, str) and not isinstance(value, str):
        return perform_substitutions(context, list(value))
    return value


def run(case, obs):
    rng = random.Random(case['seed'])
    context = LaunchContext()
    kept, made, classes = [], [], set()
    warnings.simplefilter('ignore')
    for number in range(case['objects']):
        if rng.random() < .04:
            cls, n = rng.choice(POSITIONAL), rng.randint(0, 4)
            given = [subst(rng) for _ in range(n)]
            obj = cls(*[g.value for g in given])
            obs.equal([perform_substitutions(context, a) for a in obj.args], [g.tells for g in given], 'args',
                      'args of %s' % cls.__name__)
            continue
        if rng.random() < .06:
            declared(rng, obs)
            continue
        if rng.random() < .1:
            utilities(rng, obs, context)
            continue
        cls, spec = rng.choice(CLASSES)
        name = cls.__name__
        given = {key: p[0](rng) for key, p in spec.items() if p[3] is R or rng.random() < .6}
        values = {key: g.value for key, g in given.items()}
        wrong = [key for key, p in spec.items() if p[1]]
        if wrong and rng.random() < .4:
            key = rng.choice(wrong)
            bad = rng.choice(spec[key][1])
            values[key] = WRONG[bad]
            try:
                obj = cls(**values)
            except (TypeError, ValueError, RuntimeError):
                obs.count('rejected')
            except Exception as exc:
                obs.fail('rejection', '%s(%s=<%s>): %r' % (name, key, bad, exc))
            else:
                obs.fail('accepted-wrong', '%s(%s=<%s>) was accepted: %r' % (name, key, bad, obj))
            continue
        try:
            obj = cls(**values)
        except Exception as exc:
            obs.fail('not-accepted', '%s(%r): %r' % (name, values, exc))
            continue
        obs.count('accepted')
        classes.add(name)
        expected = {}
        for key, (_, _, how, default) in spec.items():
            if not how:
                continue
            if key not in given:
                obs.count('defaults')
            expected[how] = given[key].tells if key in given else default
        if cls is ExecuteProcess:
            for how, default in (('sigterm_timeout', None), ('sigkill_timeout', None)):
                if expected.get(how) == '':
                    expected.pop(how)       # a default that depends on the launch
        if cls is DeclareLaunchArgument and expected['description'] is None:
            expected.pop('description')
        if cls is SignalProcess:
            obs.equal(obj.signal_name, getattr(expected['signal'], 'name', expected['signal']), 'told',
                      'signal_name')
        if cls in STREAMS:
            obs.equal([obj.from_stdin, obj.from_stdout, obj.from_stderr],
                      [STREAMS[cls] == fd for fd in range(3)], 'told', 'stream of %s' % name)
        for how, what in expected.items():
            value = comparable(tell(obj, how, context), what, context, cls, how)
            obs.equal(value, what, 'told', '%s of %s' % (how, name))
            obs.count('told')
        made.append((obj, cls, expected))
        kept += [g.keep for g in given.values() if g.keep]

    def look(when):
        for value, before in kept:
            obs.equal(snapshot(value), before, 'modified', 'an argument ' + when)
            obs.count('arguments_kept')
    look('after the construction')
    entities = [obj for obj, cls, _ in made
                if cls in (LaunchDescription, GroupAction, TimerAction,
                           SetLaunchConfiguration, LogInfo, RegisterEventHandler,
                           IncludeLaunchDescription, ResetLaunchConfigurations)]
    description = LaunchDescription(entities)
    LaunchIntrospector().format_launch_description(description)
    description.get_launch_arguments()
    for obj, cls, expected in made:
        if cls is LaunchDescription:
            added = [LogInfo(msg='added'), LogInfo(msg='added')]
            obj.add_action(added[0])
            obj.add_entity(added[1])
            obs.equal(list(obj.entities), expected['entities'] + added, 'told', 'entities after adding two')
            expected['entities'] = expected['entities'] + added
    look('after describing it')
    if case['launch']:
        deprecated = sum(1 for obj, cls, expected in made
                         if cls is LaunchDescription and expected['deprecated_reason'])
        launch(entities, obs, rng.choice([None, [], ['a:=b'], ('x', 'y'), ['--flag', '']]), deprecated, rng)
        look('after the launch')
        obs.count('launched')
        for obj, cls, expected in made:
            for how, what in expected.items():
                if cls in (LaunchDescription, TimerAction, RegisterEventHandler, SetLaunchConfiguration,
                           IncludeLaunchDescription):
                    value = comparable(tell(obj, how, context), what, context, cls, how)
                    obs.equal(value, what, 'told-later', '%s of %s after the launch' % (how, cls.__name__))
    if len(classes) >= 5:
        obs.sig(tuple(sorted(classes)))


def launch(entities, obs, argv, deprecated, rng):
    service, loop = new_service(argv=argv)
    tap = LogTap()
    logger = logging.getLogger()
    level = logger.level
    logger.addHandler(tap)
    try:
        obs.equal(list(service.context.argv), list(argv or []), 'told', 'argv of the context')
        # a description that comes from a file names it
        path = rng.choice(['/some/old.launch.py', 'old.launch.xml'])
        old = [IncludeLaunchDescription(LaunchDescriptionSource(
            LaunchDescription(deprecated_reason='why: ' + path), path)) for _ in range(rng.randint(0, 2))]
        service.include_launch_description(LaunchDescription(entities + old))
        result = execute(service, loop)
    finally:
        logger.removeHandler(tap)
        logger.setLevel(level)
        finish(loop)
    judge(result, obs)
    named = [text for _, _, text in tap.records if path in text and 'deprecated' in text]
    obs.equal(len(named), len(old), 'deprecated', 'warnings about deprecated launch files')
    for text in named:
        obs.expect(path + ']' in text and 'why: ' + path in text, 'deprecated', 'the warning: ' + text)
    warned = sum(1 for _, level, text in tap.records
                 if level == logging.WARNING and 'deprecated' in text and 'why' in text
                 and path not in text)
    obs.equal(warned, deprecated, 'deprecated', 'warnings about deprecated descriptions')
    obs.count('deprecated', deprecated)


class Base:
    pass


class Derived(Base):
    pass


TYPES = [int, str, bool, float, dict, list, tuple, Base, Derived, Obj, type(None)]
VALUES = [5, True, 2.5, 'a', None, {}, [1], (2,), Base(), Derived(), Obj(), Base, Derived, int, function]


def outcome(function, *args):
    try:
        return ['value', function(*args)]
    except TypeError:
        return ['TypeError']
    except Exception as exc:
        return [type(exc).__name__]


def utilities(rng, obs, context):
    """Helpers which the constructors, and those of other packages, rely on."""
    obs.count('utilities')
    value = rng.choice(VALUES)
    types = rng.sample(TYPES, rng.randint(0, 4))
    form = rng.choice(['one', 'list', 'tuple', 'set', 'iterator'])
    if form == 'one':
        types = [rng.choice(TYPES)]
    given = {'one': types[0] if types else None, 'list': types, 'tuple': tuple(types), 'set': set(types),
             'iterator': iter(types)}[form]
    right = isinstance(value, tuple(types))
    named = rng.choice([[], ['caller'], [None]])
    expected = ['value', None] if right else ['TypeError']
    if form != 'iterator' or right:
        obs.equal(outcome(ensure_argument_type, value, given, 'argument', *named), expected, 'utility',
                  'ensure_argument_type(%r, %r)' % (value, given))
    if not right and form != 'iterator':
        try:
            ensure_argument_type(value, given, 'some_argument', 'some_caller')
        except TypeError as exc:
            obs.expect('some_argument' in str(exc) and 'some_caller' in str(exc), 'utility',
                       'the message does not tell the argument and the caller: %s' % exc)
    wrong = rng.choice([(value, 5, 'name', 'c'), (value, types, 5, 'c'), (value, types, 'name', 5),
                        (value, None, 'name'), (value, types, None), (value, types, b'n')])
    obs.equal(outcome(ensure_argument_type, *wrong), ['TypeError'], 'utility',
              'ensure_argument_type%r' % (wrong,))
    cls = rng.choice(TYPES)
    obs.equal(outcome(is_a, value, cls), ['value', isinstance(value, cls)], 'utility',
              'is_a(%r, %r)' % (value, cls))
    derived = isinstance(value, cls) or isinstance(value, type) and issubclass(value, cls)
    obs.equal(outcome(is_a_subclass, value, cls), ['value', derived], 'utility',
              'is_a_subclass(%r, %r)' % (value, cls))
    obs.equal(outcome(is_a, value, rng.choice([5, 'int', None])), ['RuntimeError'], 'utility',
              'is_a with something that is not a class')
    obs.equal(isclassinstance(value), True, 'utility', 'isclassinstance(%r)' % (value,))
    nested, flat = [], []
    for _ in range(rng.randint(0, 5)):
        some = [LogInfo(msg='m') for _ in range(rng.randint(0, 3))]
        how = rng.choice(['one', 'list', 'tuple', 'iterator', 'description'])
        if how in ('one', 'description'):
            nested.append(LogInfo(msg='m') if how == 'one' else LaunchDescription(some))
            flat.append(nested[-1])
        else:
            nested.append({'list': list, 'tuple': tuple, 'iterator': iter}[how](some))
            flat += some
    given = iter(nested) if rng.random() < .3 else nested
    obs.equal(outcome(normalize_to_list_of_entities, given), ['value', flat], 'utility',
              'normalize_to_list_of_entities')
    text = subst(rng)
    normal = normalize_to_list_of_substitutions(text.value)
    obs.equal([type(normal), perform_substitutions(context, normal)], [list, text.tells], 'utility',
              'normalize_to_list_of_substitutions')
    bad = rng.choice([n for n in NO_SUBST])
    obs.equal(outcome(normalize_to_list_of_substitutions, WRONG[bad]), ['TypeError'], 'utility',
              'normalize_to_list_of_substitutions(<%s>)' % bad)


def declared(rng, obs):
    """Arguments with choices."""
    given = choices(rng)
    default = rng.choice(['a', 'b', 'name', '1', 'c', None])
    empty = rng.random() < .2
    if empty:
        given = Given([], [], [])
    bad = empty or default is not None and default not in given.tells
    try:
        obj = DeclareLaunchArgument('n', default_value=default, choices=given.value)
    except RuntimeError:
        obs.expect(bad, 'choices', 'default %r of choices %r was refused' % (default, given.tells))
        obs.count('rejected')
        return
    obs.expect(not bad, 'choices', 'default %r of choices %r was accepted' % (default, given.tells))
    obs.equal(list(obj.choices), given.tells, 'told', 'choices')
    obs.equal(snapshot(given.keep[0]), given.keep[1], 'modified', 'the choices')
    obs.count('accepted')
