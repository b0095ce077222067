"""C37: a launch leaves the program as it found it, so that it can launch again and again."""
import asyncio
import collections
import gc
import json
import logging
import os
import shutil
import signal
import sys
import tempfile
import threading
import types
import unittest
import warnings
import weakref

import launch
import launch.logging
import launch_testing.actions
from launch import LaunchDescription, LaunchService
from launch.actions import (DeclareLaunchArgument, EmitEvent, ExecuteProcess, GroupAction, IncludeLaunchDescription,
                            LogInfo, OpaqueCoroutine, OpaqueFunction, RegisterEventHandler, SetEnvironmentVariable,
                            SetLaunchConfiguration, Shutdown, TimerAction, UnregisterEventHandler)
from launch.conditions import IfCondition
from launch.event_handlers import (OnExecutionComplete, OnProcessExit, OnProcessIO, OnProcessStart, OnShutdown)
from launch.events import Shutdown as ShutdownEvent
from launch.events.process import ProcessExited, ProcessIO, ProcessStarted, ShutdownProcess, SignalProcess
from launch.launch_description_sources import AnyLaunchDescriptionSource
from launch.substitutions import Command, EqualsSubstitution, LaunchConfiguration, PythonExpression
from launch_testing.legacy import LaunchTestService
from launch_testing.loader import LoadTestsFromPythonModule
from launch_testing.test_runner import LaunchTestRunner
from vf.kit import Handler, MyEvent

CASES = {'quick': 420, 'thorough': 12000}
WALL = {'quick': 110, 'thorough': 780}
TIMEOUT = 100
HANG = 90
ENDINGS = ['none', 'timer', 'event', 'sigint', 'thread', 'thread-event', 'error']
WAYS = ['run', 'run', 'run', 'own-loop', 'thread-first', 'test-service', 'launch_test']
NEED = {'launches': 600, 'processes': 700, 'objects_gone': 4000, 'compared': 300, 'descriptors_seen': 4000, 'daemons': 80, 'loops': 40,
        **{'ending_' + e: 30 for e in ENDINGS}, **{'way_' + w: 40 for w in WAYS}}
RULE = ('a case performs the same random launch several times in one process, with real processes; before and '
        'after each one descriptors, threads, children, tasks, signal handlers, the environment and living '
        'objects are compared; non-trivial: a process was started or an error was raised')
ASSUMPTIONS = ['loggers and log files, which belong to the logging configuration of the program, are let go '
               'with launch.logging.reset()']


def gen_part(rng, n, stay):
    kind = rng.choice(['process', 'process', 'process', 'stay', 'stay', 'missing', 'timer', 'group', 'coroutine',
                       'include', 'handlers', 'command', 'events', 'chain', 'respawn', 'condition', 'cancelled',
                       'shutdown-process', 'late-handler', 'crash', 'daemon', 'daemon'])
    if kind in ('stay',) and not stay:
        kind = 'process'
    return {'kind': kind, 'n': n, 'output': rng.choice(['log', 'screen', 'both', 'own_log', 'full', 'log']),
            'cached': rng.random() < .4, 'tty': rng.random() < .2, 'shell': rng.random() < .2,
            'code': rng.choice([0, 0, 3]), 'size': rng.choice([1, 3, 400]), 'format': rng.choice(['xml', 'yaml', 'py', 'bad']),
            'signals': rng.choice(['die', 'die', 'ignore']), 'flag': rng.random() < .5}


def gen(rng, i, tier):
    way = rng.choice(WAYS)
    ending = rng.choice(ENDINGS)
    if way in ('thread-first', 'launch_test', 'test-service') and ending in ('sigint',):
        ending = 'timer'
    if way == 'launch_test':
        ending = rng.choice(['none', 'timer', 'error'])
    stay = ending != 'none' or way == 'launch_test'
    return {'parts': [gen_part(rng, n, stay) for n in range(rng.choice([0, 1, 1, 2, 3, 5]))], 'way': way, 'ending': ending,
            'rounds': 3, 'before': rng.random() < .2, 'cached': rng.random() < .5, 'fails': rng.random() < .3, 'debug': rng.random() < .2, 'when': rng.choice([0., .02, .08]),
            'idle': ending == 'none' or rng.random() < .6}


def failing(case):
    return case['way'] == 'test-service'


class Boom(Exception):
    pass


def boom(context):
    raise Boom('boom')


def plain(number):
    return lambda context: None


async def short(context):
    await asyncio.sleep(.01)


async def tidy(context):
    # it ends after everything else
    try:
        await asyncio.sleep(60)
    finally:
        await asyncio.sleep(.2)


async def long(context):
    await asyncio.sleep(60)


FILES = {
    'a.xml': '<launch><arg name="x" default="1"/><executable cmd="echo $(var x)" name="inxml"/></launch>',
    'a.yaml': 'launch:\n- arg: {name: x, default: "1"}\n- executable: {cmd: "echo $(var x)", name: inyaml}\n',
    'a.py': 'import launch\nfrom launch.actions import *\n\n\ndef generate_launch_description():\n'
            '    return launch.LaunchDescription([ExecuteProcess(cmd=["echo", "x"], name="inpy")])\n',
    'a.bad': '<launch><nonsense/></launch>'}


class Journal:
    def __init__(self):
        self.lines = collections.defaultdict(list)
        self.keep = []

    def event(self, event, context):
        name = event.process_name.rsplit('-', 1)[0]
        if isinstance(event, ProcessIO):
            kind = 'out' if event.from_stdout else 'err'
            if event.text:
                self.lines[name + ' ' + kind].append(event.text.decode())
        elif isinstance(event, ProcessExited):
            self.lines[name].append('exit %d' % event.returncode)
        else:
            self.lines[name].append('start')

    def result(self):
        return {k: ''.join(v) if k.endswith(('out', 'err')) else v for k, v in sorted(self.lines.items())}


def process(p, cmd, **more):
    if p['output'] in ('both', 'own_log'):
        more['output'] = {'both': ['screen', 'own_log'] if p['output'] == 'own_log' else 'log'}
    else:
        more['output'] = p['output']
    return ExecuteProcess(cmd=cmd, name='p%d' % p['n'], cached_output=p['cached'], emulate_tty=p['tty'], **more)


def build(p, case, base, journal):
    """Return the entities of a part."""
    kind, n = p['kind'], p['n']
    script = 'i=0; while [ $i -lt %d ]; do echo o$i; echo e$i >&2; i=$((i+1)); done; exit %d' % (p['size'], p['code'])
    if kind == 'process':
        if p['shell']:
            return [process(p, [script], shell=True)]
        return [process(p, ['sh', '-c', script])]
    if kind == 'stay':
        trap = "trap '' INT TERM; " if p['signals'] == 'ignore' else ''
        return [process(p, ['sh', '-c', trap + 'exec sleep 60'], sigterm_timeout='.05', sigkill_timeout='.05')]
    if kind == 'missing':
        # osrf_pycommon does not close the terminals of a process that cannot be started
        return [process(dict(p, tty=False), [os.path.join(base, 'missing')])]
    if kind == 'daemon':
        # another process inherits the output
        return [process(p, ['sh', '-c', 'sleep 987 & echo d'], **({'respawn': True, 'respawn_max_retries': 1} if p['flag'] else {}))]
    if kind == 'crash':
        return [process(p, ['sh', '-c', 'kill -9 $$'], on_exit=[LogInfo(msg='crashed')])]
    if kind == 'timer':
        return [TimerAction(period=.01, actions=[LogInfo(msg='x'), process(p, ['true'])]),
                TimerAction(period=.005, actions=[OpaqueFunction(function=plain(n))])]
    if kind == 'cancelled':
        timer = TimerAction(period=50., actions=[LogInfo(msg='never')])
        return [timer, TimerAction(period=.01, actions=[OpaqueFunction(function=lambda context: timer.cancel())])]
    if kind == 'group':
        return [GroupAction([SetEnvironmentVariable('VF_C37_%d' % n, 'x'), SetLaunchConfiguration('c', 'v'),
                             DeclareLaunchArgument('a', default_value='1'), process(p, ['sh', '-c', 'echo $VF_C37_%d' % n])],
                            scoped=True, forwarding=p['flag'])]
    if kind == 'coroutine':
        long_one = p['flag'] and case['ending'] != 'none'
        return [OpaqueCoroutine(coroutine=(tidy if p['cached'] else long) if long_one else short)]
    if kind == 'include':
        if p['format'] == 'bad' and case['ending'] != 'error':
            return []
        path = os.path.join(base, 'a.' + p['format'])
        return [IncludeLaunchDescription(AnyLaunchDescriptionSource(path),
                                         launch_arguments=[('x', '%d' % n)] if p['format'] != 'py' else [])]
    if kind == 'handlers':
        log = LogInfo(msg='log')
        gone = RegisterEventHandler(OnProcessStart(on_start=[LogInfo(msg='never')]))
        return [RegisterEventHandler(OnProcessIO(on_stdout=lambda event: None, on_stderr=lambda event: None)),
                RegisterEventHandler(OnShutdown(on_shutdown=[LogInfo(msg='down')])), gone,
                UnregisterEventHandler(gone.event_handler),
                RegisterEventHandler(OnExecutionComplete(target_action=log, on_completion=[OpaqueFunction(function=plain(n))])), log]
    if kind == 'chain':
        second = ExecuteProcess(cmd=['true'], name='second%d' % n)
        first = process(p, ['true'], on_exit=[second])
        return [first, RegisterEventHandler(OnProcessExit(target_action=second, on_exit=[LogInfo(msg='x')]))]
    if kind == 'late-handler':
        one = process(p, ['sh', '-c', 'echo x'])
        return [RegisterEventHandler(OnProcessStart(target_action=one, on_start=[
            RegisterEventHandler(OnProcessExit(target_action=one, on_exit=[LogInfo(msg='y')]))])), one]
    if kind == 'command':
        return [LogInfo(msg=[Command(['echo hi']), PythonExpression(['1+', '1'])]),
                SetLaunchConfiguration('k', Command(['printf', ' x']))]
    if kind == 'events':
        return [EmitEvent(event=MyEvent('c37', n)), TimerAction(period=.01, actions=[EmitEvent(event=MyEvent('c37', n))])]
    if kind == 'respawn':
        # an exit code of 0 also lets it start anew
        return [process(p, ['sh', '-c', 'echo r'], respawn=True, respawn_max_retries=2, respawn_delay=.01)]
    if kind == 'condition':
        return [process(p, ['true'], condition=IfCondition(EqualsSubstitution(LaunchConfiguration('no', default='1'),
                                                                              '1' if p['flag'] else '2')))]
    if kind == 'shutdown-process':
        one = process(p, ['sleep', '60'], sigterm_timeout='.1', sigkill_timeout='.1')
        return [one, RegisterEventHandler(OnProcessStart(target_action=one, on_start=[
            EmitEvent(event=ShutdownProcess(process_matcher=lambda action: action is one) if p['flag'] else
                      SignalProcess(signal_number=signal.SIGKILL, process_matcher=lambda action: action is one))]))]
    raise ValueError(kind)


def entities(case, base, journal, service=None):
    out = [RegisterEventHandler(Handler(
        lambda event: isinstance(event, (ProcessStarted, ProcessIO, ProcessExited)), journal.event))]
    for p in case['parts']:
        out += build(p, case, base, journal)
    ending = case['ending']
    if ending == 'timer':
        out.append(TimerAction(period=case['when'], actions=[Shutdown(reason='timer')]))
    elif ending == 'event':
        out.append(TimerAction(period=case['when'], actions=[EmitEvent(event=ShutdownEvent(reason='event'))]))
    elif ending == 'sigint':
        out.append(TimerAction(period=case['when'], actions=[
            OpaqueFunction(function=lambda context: os.kill(os.getpid(), signal.SIGINT))]))
    elif ending == 'error':
        out.append(TimerAction(period=case['when'], actions=[OpaqueFunction(function=boom)]))
    elif ending in ('thread', 'thread-event'):
        def start(context):
            def work():
                if ending == 'thread':
                    service.shutdown()
                else:
                    service.emit_event(ShutdownEvent(reason='thread'))
            thread = threading.Thread(target=work, name='c37')
            journal.keep.append(thread)
            thread.start()
        out.append(TimerAction(period=case['when'], actions=[OpaqueFunction(function=start)]))
    return out


def launch_test(case, base, journal, watched):
    module = types.ModuleType('vf_c37_module')

    def generate_test_description():
        description = LaunchDescription(entities(case, base, journal) + [launch_testing.actions.ReadyToTest()])
        watched.append(weakref.ref(description))
        watched.extend(weakref.ref(e) for e in description.entities)
        return description

    class TestIt(unittest.TestCase):
        def test_it(self, proc_output, proc_info):
            self.assertFalse(case['fails'])
    module.generate_test_description = generate_test_description
    module.TestIt = TestIt
    TestIt.__module__ = 'vf_c37_module'
    runner = LaunchTestRunner(test_runs=LoadTestsFromPythonModule(module), launch_file_arguments=[], debug=case['debug'])
    runner.validate()
    results = runner.run()
    watched.append(weakref.ref(runner))
    return all(r.wasSuccessful() for r in results.values())


def unhandled(loop, context):
    loop.default_exception_handler(context)


def perform(case, base, journal, watched, obs):
    """Launch once; return the result and references to the objects that took part."""
    if case['way'] == 'launch_test':
        return launch_test(case, base, journal, watched)
    service = LaunchService(argv=[], debug=case['debug'], noninteractive=True)
    description = LaunchDescription(entities(case, base, journal, service))
    watched += [weakref.ref(o) for o in (service, service.context, description, *description.entities)]
    service.include_launch_description(description)
    result = []
    if case['way'] == 'run':
        if case['before']:
            asyncio.run(asyncio.sleep(0))
        result.append(service.run(shutdown_when_idle=case.get('idle', True)))
        if case['before']:
            # it had to make a loop for the thread
            loop = asyncio.get_event_loop_policy().get_event_loop()
            loop.close()
            asyncio.set_event_loop(None)
    elif case['way'] == 'own-loop':
        loop = asyncio.new_event_loop()
        loop.set_debug(case['before'])
        handler = None if case['cached'] else unhandled
        loop.set_exception_handler(handler)
        try:
            result.append(loop.run_until_complete(service.run_async(shutdown_when_idle=case.get('idle', True))))
            watched.append(weakref.ref(loop))
            obs.equal((loop.get_debug(), loop.get_exception_handler()), (case['before'], handler), 'loop',
                      'debug mode and exception handler of the loop; %s' % json.dumps(case))
            obs.equal([repr(t) for t in asyncio.all_tasks(loop)], [], 'tasks', 'pending tasks; %s' % json.dumps(case))
            obs.count('loops')
        finally:
            loop.close()
    elif case['way'] == 'thread-first':
        def work():
            try:
                asyncio.run(service.run_async())
            except RuntimeError as exc:
                result.append('main thread' in str(exc))
        # it has to be run by the main thread, to refuse others must not have any effect
        thread = threading.Thread(target=work, name='c37')
        thread.start()
        thread.join()
        result.append(service.run())
    elif case['way'] == 'test-service':
        tests = LaunchTestService()
        action = ExecuteProcess(cmd=['sh', '-c', 'exit %d' % (1 if case['fails'] else 0)], name='thetest')
        tests.add_test_action(description, action)
        watched += [weakref.ref(tests), weakref.ref(action)]
        result.append(tests.run(service))
    for thread in journal.keep:
        thread.join()
    return result


def descriptors(logs):
    found = collections.Counter()
    for name in os.listdir('/proc/self/fd'):
        try:
            link = os.readlink('/proc/self/fd/' + name)
        except OSError:
            continue
        found['%s -> %s' % (name, link)] += 1
    return found


def end_daemons():
    """End the processes which are left on purpose (as orphans they come to us)."""
    count = 0
    for pid in children():
        with open('/proc/%s/cmdline' % pid) as f:
            if f.read() == 'sleep\x00987\x00':
                os.kill(int(pid), signal.SIGKILL)
                os.waitpid(int(pid), 0)
                count += 1
    return count


def children():
    with open('/proc/thread-self/children') as f:
        main = f.read().split()
    for task in os.listdir('/proc/self/task'):
        try:
            with open('/proc/self/task/%s/children' % task) as f:
                main += f.read().split()
        except OSError:
            pass
    return sorted(set(main))


HANDLED = [signal.SIGINT, signal.SIGTERM, signal.SIGQUIT, signal.SIGCHLD, signal.SIGHUP, signal.SIGUSR1]


def surroundings():
    wakeup = signal.set_wakeup_fd(-1)
    signal.set_wakeup_fd(wakeup)
    try:
        loop = asyncio.get_event_loop_policy()._local._loop
    except AttributeError:
        loop = None
    return {'signal handlers': [signal.getsignal(s) for s in HANDLED], 'wakeup descriptor': wakeup,
            'environment': dict(os.environ), 'directory': os.getcwd(), 'path': list(sys.path),
            'streams': [sys.stdin, sys.stdout, sys.stderr], 'excepthooks': [sys.excepthook, threading.excepthook],
            'blocked signals': sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
            'set_wakeup_fd': signal.set_wakeup_fd,
            'usable event loop': loop is None or not loop.is_closed(), 'umask': mask(),
            'switch interval': sys.getswitchinterval(), 'collector': gc.isenabled()}


def mask():
    old = os.umask(0o22)
    os.umask(old)
    return old


def census():
    return collections.Counter(
        '%s.%s' % (type(o).__module__, type(o).__qualname__) for o in gc.get_objects()
        if str(type(o).__module__).startswith(('launch', 'asyncio', '_asyncio', 'subprocess', 'concurrent', 'osrf',
                                               'threading', 'unittest')))


class Complaints(logging.Handler):
    """What the interpreter complains about when things are not finished properly."""

    def __init__(self):
        super().__init__()
        self.texts = []
        self.lost_exit_code = False

    def emit(self, record):
        text = record.getMessage()
        # asyncio in debug mode complains about what is slow; CPython 3.12 may lose the exit code of a process
        # that is signalled while it ends
        if not text.startswith('Executing ') and 'exit status already read' not in text:
            self.texts.append('asyncio: ' + text[:600])
        self.lost_exit_code = self.lost_exit_code or 'exit status already read' in text

    def unraisable(self, hook):
        self.texts.append('unraisable: %s %r' % (hook.err_msg, hook.exc_value))

    def __enter__(self):
        logger = logging.getLogger('asyncio')
        self.level = logger.level
        logger.setLevel(logging.WARNING)
        logger.addHandler(self)
        self.hook, sys.unraisablehook = sys.unraisablehook, self.unraisable
        self.warnings = warnings.catch_warnings(record=True)
        self.caught = self.warnings.__enter__()
        warnings.simplefilter('ignore')
        warnings.filterwarnings('always', category=ResourceWarning)
        warnings.filterwarnings('always', message='.*was never awaited', category=RuntimeWarning)
        return self

    def __exit__(self, *exc):
        gc.collect()
        self.warnings.__exit__(*exc)
        sys.unraisablehook = self.hook
        logger = logging.getLogger('asyncio')
        logger.removeHandler(self)
        logger.setLevel(self.level)
        self.texts += ['warning: %s' % w.message for w in self.caught
                       if not isinstance(w.message, ResourceWarning) or '.log' not in str(w.message)]


def run(case, obs):
    base = tempfile.mkdtemp(prefix='c37-', dir=os.getcwd())
    logs = os.path.join(base, 'log')
    scratch = os.path.join(base, 'tmp')
    os.mkdir(logs)
    os.mkdir(scratch)
    old_dir = os.environ.get('ROS_LOG_DIR'), os.environ.get('TMPDIR')
    os.environ.update(ROS_LOG_DIR=logs, TMPDIR=scratch)
    tempfile.tempdir = None
    for name, text in FILES.items():
        with open(os.path.join(base, name), 'w') as f:
            f.write(text)
    what = '; %s' % json.dumps(case)
    default = asyncio.new_event_loop()
    asyncio.set_event_loop(default)
    try:
        results, counts, lost, started = [], [], False, 0
        for n in range(case['rounds'] + 1):
            launch.logging.reset()
            gc.collect()
            around, open_before, threads = surroundings(), descriptors(logs), set(threading.enumerate())
            journal, watched = Journal(), []
            with Complaints() as complaints:
                result = perform(case, base, journal, watched, obs)
                obs.count('launches')
                obs.count('way_' + case['way'])
                obs.count('ending_' + case['ending'])
                # nothing is said about when threads end exactly
                for thread in set(threading.enumerate()) - threads:
                    thread.join(20)
                gc.collect()
            after = surroundings()
            place = ' after launch %d%s' % (n + 1, what)
            for key in around:
                obs.equal(after[key], around[key], 'surroundings', key + place)
            left = [t.name for t in set(threading.enumerate()) - threads if t.is_alive()]
            obs.equal(left, [], 'threads', 'threads' + place)
            obs.equal(complaints.texts, [], 'complaints', 'complaints' + place)
            alive = [repr(ref())[:100] for ref in watched if ref() is not None]
            obs.equal(alive, [], 'objects', 'living objects' + place)
            obs.count('objects_gone', len(watched) - len(alive))
            obs.equal(os.listdir(scratch), [], 'files', 'temporary files' + place)
            launch.logging.reset()
            gc.collect()
            now = descriptors(logs)
            obs.count('daemons', end_daemons())
            obs.equal(children(), [], 'children', 'children' + place)
            obs.count('descriptors_seen', len(now))
            obs.equal(sorted((now - open_before)), [], 'descriptors', 'new descriptors' + place)
            obs.equal(sorted((open_before - now)), [], 'closed', 'descriptors of the program' + place)
            results.append([result, journal.result()])
            counts.append(census())
            started += sum(v.count('start') for v in journal.lines.values())
            lost = lost or complaints.lost_exit_code
        obs.count('processes', started)
        grown = {k: [c[k] for c in counts] for k in counts[-1]
                 if all(b[k] > a[k] for a, b in zip(counts, counts[1:])) and k != 'launch.logging.LaunchLogger'}
        obs.equal(grown, {}, 'growth', 'objects that get more and more with each launch%s' % what)
        # what is cut off by the end of a launch, or lost by CPython, may differ
        if case['way'] != 'launch_test' and (case['ending'] != 'none' or failing(case)):
            results = [r[:1] for r in results]
        if case['way'] != 'launch_test' and not (case['way'] == 'test-service' and case['ending'] != 'none') and not lost:
            for n, r in enumerate(results[1:]):
                obs.equal(r, results[0], 'same', 'launch %d, compared with the first%s' % (n + 2, what))
                obs.count('compared')
        if case['ending'] == 'error' or started:
            obs.sig([case['way'], case['ending'], [[p['kind'], p['output'], p['tty'], p['cached']] for p in case['parts']]])
    finally:
        for name, value in zip(('ROS_LOG_DIR', 'TMPDIR'), old_dir):
            if value is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = value
        tempfile.tempdir = None
        asyncio.set_event_loop(None)
        default.close()
        launch.logging.reset()
        shutil.rmtree(base)
