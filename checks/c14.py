"""C14: the child runs with the command, directory and environment described."""
import json
import logging
import os
import random
import re
import shlex
import tempfile

import launch.logging
from launch import LaunchDescription
from launch.actions import (ExecuteLocal, ExecuteProcess, OpaqueFunction, SetEnvironmentVariable,
                            SetLaunchConfiguration, TimerAction, UnsetEnvironmentVariable,
                            UnsetLaunchConfiguration)
from launch.descriptions import Executable
from launch.events.process import ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout
from vf import subs
from vf.kit import Handler, LogTap, asyncio, execute, finish, judge, new_service

CASES = {'quick': 4000, 'thorough': 100000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 60
NEED = {'processes': 6000, 'prefixed': 1000, 'filtered_out': 200, 'with_env': 1500,
        'with_additional_env': 1500, 'with_cwd': 1500, 'respawned': 500, 'real_processes': 250,
        'names': 6000, 'shells': 300}
RULE = ('a case starts random processes (substitutions in command, arguments, prefix, name, '
        'directory and environment) between changes of configurations and environment and compares '
        'what each started program got with a reference; non-trivial: prefix or environment given')
ASSUMPTIONS = ['most cases run in virtual time with processes simulated below the asyncio '
               'subprocess API; some start real programs which record what they received']
WORDS = ['x', '--opt', 'two words', '', '/abs/path', "it's", 'dq"dq', 'back\\slash', '$HOME', '*',
         'caf\u00e9', 'new\nline', ';', '  ', '-', 'a=b', '{"a": 1}', '$(date)', '\u2603', '%s {line}']
NAMES = ['node', 'a-1', 'a', 'two words', 'dotted.name', 'x' * 60, 'n\u00e9', 'a-1-2']
PREFIXES = ['', 'wrap', 'wrap -x', "wrap 'two words' \"it's\"", ' wrap  a\\ b  ', "wrap ''",
            '/usr/bin/wrap --args']
FILTERS = ['', 'vf', 'vf-tool$', '.*other', 'tool', 'nothing', 'vf-(tool|plain)', '[a-z]+-tool']
VFENV = ['VF_A', 'VF_B', 'VF_C', 'VF_FLAG']
TOOL = '''#!/opt/venv/bin/python -IS
import json, os, sys
raw = lambda name: open('/proc/self/' + name, 'rb').read().split(b'\\0')[:-1]
with open(os.path.abspath(__file__) + '.got', 'a') as f:
    f.write(json.dumps([[x.hex() for x in raw('cmdline')][3:], [x.hex() for x in raw('environ')],
                        os.getcwd(), os.getpid()]) + '\\n')
print('hello')
'''


def gen_process(rng, g, real):
    def arg(depth=2):
        return g.arg(rng.choice([0, 1, depth])) if rng.random() < .4 else \
            g.lit(rng.choice(WORDS))

    def env():
        return [[g.lit(n), arg()] for n in rng.sample(
            VFENV + ['PATH' if rng.random() < .2 else 'VF_D'], rng.randint(0, 3))]

    p = {
        'k': 'process', 'program': rng.choice(['vf-tool', 'vf-tool', 'vf-other']),
        'program_parts': rng.choice([0, 0, 1, 2]),
        'args': [arg() for _ in range(rng.choice([0, 1, 2, 4]))],
        'extra': [arg() for _ in range(rng.choice([1, 2]))] if rng.random() < .25 else None,
        'prefix': rng.choice(PREFIXES) if rng.random() < .25 else None,
        'prefix_form': rng.choice([0, 0, 1]),
        'name': g.lit(rng.choice(NAMES)) if rng.random() < .5 else None,
        'cwd': rng.choice(['/', 'd1', 'd1/d 2', 'd1']) if rng.random() < .4 else None,
        'cwd_form': rng.choice([0, 1, 2]),
        'env': env() if rng.random() < .35 else None,
        'add': env() if rng.random() < .4 else None,
        'respawn': rng.choice([1, 2]) if rng.random() < .2 else 0,
        'shell': not real and rng.random() < .1, 'way': rng.choice([0, 0, 1, 2]),
    }
    return p


def gen(rng, i, tier):
    real = i % 14 == 3
    g = subs.Gen(rng, wrong=0, without=['local', 'filename', 'dirname'] +
                 (['command'] if rng.random() < .9 else []))
    steps = []
    for _ in range(rng.randint(2, 8)):
        roll = rng.random()
        if roll < .55:
            steps.append(gen_process(rng, g, real))
        elif roll < .65:
            steps.append({'k': 'config', 'name': 'launch-prefix', 'value': rng.choice(PREFIXES)})
        elif roll < .75:
            steps.append({'k': 'config', 'name': 'launch-prefix-filter',
                          'value': rng.choice(FILTERS)})
            if rng.random() < .5:
                steps.append({'k': 'config', 'name': 'launch-prefix',
                              'value': rng.choice(PREFIXES)})
                steps.append(gen_process(rng, g, real))
        elif roll < .8:
            steps.append({'k': 'config', 'name': rng.choice(subs.CONFIGS),
                          'value': rng.choice(WORDS)})
        elif roll < .83:
            steps.append({'k': 'unconfig', 'name': rng.choice(
                ['launch-prefix', 'launch-prefix-filter', 'a'])})
        else:
            steps.append({'k': rng.choice(['env', 'env', 'environ', 'unenv']),
                          'name': rng.choice(VFENV), 'value': rng.choice(WORDS)})
    return {'steps': steps, 'real': real, 'seed': rng.randrange(1 << 30), 'tier': tier}


def spread(rng, text, way):
    """A value with a text, given in one of several forms."""
    if way == 0:
        return text
    if way == 1 and len(text) > 1:
        k = rng.randrange(1, len(text))
        return [text[:k], subs.TextSubstitution(text=text[k:])]
    return [subs.LaunchConfiguration('surely absent', default=text)]


def run(case, obs):
    rng = random.Random(case['seed'])
    base = tempfile.mkdtemp(prefix='c14-')
    files, tools = subs.make_world(base)
    os.makedirs(os.path.join(base, 'd1', 'd 2'))
    build = subs.Builder(rng)
    for name in list(os.environ):
        if name.startswith('VF_'):
            del os.environ[name]
    if case['real']:
        service, loop = new_service(asyncio.new_event_loop())
    else:
        service, loop = new_service()
    os.environ['PATH'] = os.path.join(base, 'bin') + ':' + os.environ['PATH']
    os.environ['VF_A'] = 'from outside'
    configs = {'base': base}
    env = dict(os.environ)
    entities = [SetLaunchConfiguration('base', base)]
    expected = []
    events = []
    tap = LogTap()

    def record(event, context):
        if isinstance(event, ProcessStarted):
            # process loggers do not propagate to any common one
            for suffix in ('-stdout', ''):
                launch.logging.get_logger(event.process_name + suffix).addHandler(tap)
        events.append((type(event), event.action, event.process_name, list(event.cmd), event.cwd,
                       dict(event.env), event.pid, service.context.asyncio_loop.time(),
                       dict(event.action.process_details)))

    def settle(arg, state):
        # the value of an anonymous name is not known beforehand
        if 'anon' in set(subs.kinds(arg)):
            arg = [['text', 'no anon']]
        try:
            value = subs.Meaning(state).arg(arg)
        except subs.Failure:
            value = '\0'
        if '\0' in value:
            arg, value = [['text', 'plain']], 'plain'
        return build.arg(arg), value

    service.context.register_event_handler(Handler(
        lambda e: isinstance(e, (ProcessStarted, ProcessExited, ProcessStdout, ProcessStderr)),
        record))

    for n, step in enumerate(case['steps']):
        kind = step['k']
        if kind == 'config':
            value = step['value']
            if step['name'] == 'launch-prefix' and case['real']:
                value = value.replace('/usr/bin/wrap', 'wrap')
            configs[step['name']] = value
            entities.append(SetLaunchConfiguration(step['name'], value))
            continue
        if kind == 'unconfig':
            configs.pop(step['name'], None)
            entities.append(UnsetLaunchConfiguration(step['name']))
            continue
        if kind == 'env':
            env[step['name']] = step['value']
            entities.append(SetEnvironmentVariable(step['name'], step['value']))
            continue
        if kind == 'unenv':
            env.pop(step['name'], None)
            entities.append(UnsetEnvironmentVariable(step['name']))
            continue
        if kind == 'environ':
            env[step['name']] = step['value']
            entities.append(OpaqueFunction(
                function=lambda c, s=step: os.environ.__setitem__(s['name'], s['value'])))
            continue
        state = {'configs': dict(configs), 'env': dict(env), 'locals': {}, 'files': files,
                 'tools': tools, 'logdir': launch.logging.launch_config.log_dir, 'file': None,
                 'anon': lambda name: 'unknown'}
        where = os.path.join(base, 'p%d' % n)
        os.mkdir(where)
        program = os.path.join(where, step['program'])
        if case['real']:
            for name in (step['program'], 'wrap'):
                with open(os.path.join(where, name), 'w') as f:
                    f.write(TOOL)
                os.chmod(os.path.join(where, name), 0o755)
        cmd = [(spread(rng, program, step['program_parts']), program)]
        cmd += [settle(a, state) for a in step['args']]
        extra = None if step['extra'] is None else [settle(a, state) for a in step['extra']]
        words = [t for _, t in cmd + (extra or [])]
        fixed = 'launch-prefix' in configs and case['real'] and step['prefix'] is None
        kwargs = {}
        if step['prefix'] is not None:
            prefix = step['prefix'].replace('/usr/bin/wrap', 'wrap')
            if case['real']:
                prefix = prefix.replace('wrap', shlex.quote(os.path.join(where, 'wrap')))
            kwargs['prefix'] = spread(rng, prefix, step['prefix_form']) \
                if prefix else ''
            prefixed = shlex.split(prefix)
            applies = True
        else:
            prefixed = shlex.split(configs.get('launch-prefix', ''))
            applies = re.match(configs.get('launch-prefix-filter', ''), step['program']) is not None
            if prefixed and not applies:
                obs.count('filtered_out')
        prefix_words = prefixed if applies else []
        obs.count('prefixed', bool(prefix_words))
        want = prefix_words + words
        names = None
        if step['name'] is not None:
            kwargs['name'], text = settle(step['name'], state)
            names = [text]
        else:
            names = [os.path.basename(want[0]), step['program']]
        cwd = None
        if step['cwd'] is not None:
            cwd = os.path.join(base, step['cwd'])
            kwargs['cwd'] = spread(rng, cwd, step['cwd_form'])
            obs.count('with_cwd')
        final = dict(env)
        if step['env'] is not None:
            final = {}
            kwargs['env'] = {}
            for key, val in step['env']:
                v, t = settle(val, state)
                final[subs.Meaning(state).arg(key)] = t
                kwargs['env'][hashable(build.arg(key))] = v
            obs.count('with_env')
        if step['add'] is not None:
            kwargs['additional_env'] = {}
            for key, val in step['add']:
                v, t = settle(val, state)
                final[subs.Meaning(state).arg(key)] = t
                kwargs['additional_env'][hashable(build.arg(key))] = v
            obs.count('with_additional_env')
        if case['real'] and (fixed and prefix_words):
            # the program of the prefix is found with the PATH of the process
            if 'PATH' not in kwargs.get('additional_env', {}):
                kwargs.setdefault('additional_env', {})
                kwargs['additional_env'] = {**kwargs['additional_env'],
                                            'PATH': where + ':/usr/bin:/bin'}
                final['PATH'] = where + ':/usr/bin:/bin'
            elif not final['PATH'].startswith(where):
                kwargs['additional_env']['PATH'] = where
                final['PATH'] = where
        options = {'output': 'log'}
        if step['respawn']:
            options.update(respawn=True, respawn_max_retries=step['respawn'])
        if step['shell']:
            options['shell'] = True
            obs.count('shells')
        if extra is None and step['way'] < 2:
            action = ExecuteProcess(cmd=[c for c, _ in cmd], **kwargs, **options)
        else:
            action = ExecuteLocal(process_description=Executable(
                cmd=[c for c, _ in cmd], arguments=None if extra is None else
                [c for c, _ in extra], **kwargs), **options)
        entities.append(action)
        expected.append({'action': action, 'cmd': want, 'cwd': cwd, 'env': final, 'names': names,
                         'lives': 1 + step['respawn'], 'shell': step['shell'], 'where': where,
                         'named': step['name'] is not None})
        obs.count('processes')
        if prefix_words or step['env'] or step['add']:
            obs.sig([want, sorted((k, v) for k, v in final.items() if k.startswith('VF_')), cwd])
    # later changes must not matter, not even to restarted processes
    entities.append(SetEnvironmentVariable('VF_A', 'too late'))
    entities.append(SetLaunchConfiguration('launch-prefix', 'too late'))
    if not case['real']:
        loop.script_of = lambda cmd: {'out': [[0, 1, 'hello\n']], 'exit': [.1, 0]}
    here = os.getcwd()
    try:
        service.include_launch_description(LaunchDescription(entities))
        run_ = execute(service, loop)
        if not judge(run_, obs):
            return
        transports = list(getattr(loop, 'processes', []))
    finally:
        finish(loop)
    obs.equal(os.getcwd(), here, 'own-cwd', 'directory of the launch process')
    all_names = []
    for n, want in enumerate(expected):
        action = want['action']
        mine = [e for e in events if e[1] is action]
        starts = [e for e in mine if e[0] is ProcessStarted]
        what = 'process %d %r' % (n, want['cmd'])
        if not obs.equal(len(starts), want['lives'], 'starts', 'starts of ' + what):
            continue
        obs.count('respawned', len(starts) > 1)
        obs.equal({e[2] for e in mine}, {starts[0][2]}, 'name-changes', 'names of ' + what)
        name = starts[0][2]
        all_names.append(name)
        match = re.fullmatch(r'(.*)-([0-9]+)', name, re.S)
        if obs.expect(match is not None, 'name-form', 'name %r of %s' % (name, what)):
            obs.expect(match.group(1) in want['names'], 'name', 'name %r of %s, expected %r and a '
                       'serial number' % (name, what, want['names']))
        obs.count('names')
        for e in mine:
            obs.equal(e[3], want['cmd'], 'event-cmd', 'command in %s of %s' % (e[0].name, what))
            obs.equal(e[4], want['cwd'], 'event-cwd', 'directory in %s of %s' % (e[0].name, what))
            obs.equal(e[5], want['env'], 'event-env', 'environment in %s of %s' % (e[0].name, what))
            details = e[8]
            obs.equal([details['name'], list(details['cmd']), details['cwd'], dict(details['env'])],
                      [name, want['cmd'], want['cwd'], want['env']], 'details',
                      'process_details of ' + what)
        lines = [r[2] for r in tap.records if r[0] == name + '-stdout']
        obs.equal(lines, ['[%s] hello' % name] * want['lives'], 'prefix', 'logged lines of ' + what)
        infos = [r[2] for r in tap.records if r[0] == name]
        # a real process may be over before its start is handled
        obs.expect(case['real'] or any('finished cleanly' in r for r in infos), 'logger', 'no messages of %s in its '
                   'logger: %r' % (what, infos))
        pids = [e[6] for e in starts]
        if case['real']:
            got = []
            for tool in os.listdir(want['where']):
                if tool.endswith('.got'):
                    with open(os.path.join(want['where'], tool)) as f:
                        got += [[tool[:-4]] + json.loads(line) for line in f]
            obs.equal(sorted(g[4] for g in got), sorted(pids), 'real-pids', 'pids of ' + what)
            for g in got:
                argv = [bytes.fromhex(x).decode() for x in g[1]]
                obs.equal(argv, want['cmd'][1:], 'real-cmd', 'arguments received by ' + what)
                obs.equal(g[0], os.path.basename(want['cmd'][0]), 'real-program', 'program ' + what)
                vars_ = dict(bytes.fromhex(x).decode().split('=', 1) for x in g[2])
                obs.equal(vars_, want['env'], 'real-env', 'environment received by ' + what)
                obs.equal(g[3], os.path.realpath(want['cwd'] or here), 'real-cwd',
                          'directory of ' + what)
                obs.count('real_processes')
        else:
            got = [t for t in transports if t.pid in pids]
            obs.equal(len(got), len(starts), 'started', 'programs started for ' + what)
            for t in got:
                if want['shell']:
                    obs.equal((t.shell, t.cmd), (True, [' '.join(want['cmd'])]), 'shell',
                              'shell command of ' + what)
                else:
                    obs.equal((t.shell, t.cmd), (False, want['cmd']), 'cmd', 'command of ' + what)
                obs.equal(t.cwd, want['cwd'], 'cwd', 'directory of ' + what)
                obs.equal(dict(t.env), want['env'], 'env', 'environment of ' + what)
    obs.equal(len(set(all_names)), len(all_names), 'unique', 'distinct names of %r' % all_names)


def hashable(value):
    return tuple(value) if isinstance(value, list) else value
