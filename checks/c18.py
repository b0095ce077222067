"""C18: substitutions evaluate to their documented value, at the time of use."""
import os
import random
import tempfile

import launch.logging
from launch import LaunchContext
from launch.utilities import normalize_to_list_of_substitutions, perform_substitutions
from vf import subs
from vf.kit import LogTap

CASES = {'quick': 12000, 'thorough': 300000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 40
NEED = {'performed': 20000, 'failed': 1000, 'nested': 5000, 'kind_command': 500, 'kind_eval': 1000,
        'kind_config': 3000, 'kind_equals': 500, 'kind_if': 500, 'kind_anon': 100, 'kind_find': 100,
        'changed_value': 1000}
RULE = ('a case performs random nested substitutions in a sequence of states (configurations, '
        'environment, locals, files, programs, launch file) and compares each result, failure and '
        'the state afterwards with a reference evaluation; non-trivial: a nested substitution whose '
        'value changed with the state')
ASSUMPTIONS = ['defaults of environment variables do not fail by themselves']
VALUES = ['', 'value', 'true', '0', '12', '2.5', '/p/q', 'x y', 'a', 'b', 'num', '\u00e9', '$(var a)',
          "it's", 'on']


class Thing:
    def __init__(self, part):
        self.part = part


def gen_state(rng):
    return {
        'configs': {**{n: rng.choice(VALUES) for n in subs.CONFIGS if rng.random() < .5},
                    **({'num': rng.choice(subs.NUMBERS)} if rng.random() < .8 else {}),
                    **({'word': rng.choice(['w1', 'w 2', ''])} if rng.random() < .5 else {})},
        'env': {**{n: rng.choice(VALUES) for n in subs.ENVS[:4] if rng.random() < .5},
                **({'VF_PLAIN': rng.choice(['p', 'p q', ''])} if rng.random() < .5 else {})},
        'locals': {n: rng.choice(VALUES) for n in subs.LOCALS[:3]},
        'file': rng.choice([None, '/launch/dir/file.launch.py', '/other.xml']),
        'gone': rng.random() < .1, 'no_path': rng.random() < .1,
    }


def gen(rng, i, tier):
    g = subs.Gen(rng, wrong=rng.choice([0, .03, .08]),
                 without=['command'] if rng.random() < .6 else [])
    return {'args': [g.arg(rng.choice([1, 2, 3, 4, 5])) for _ in range(3)] +
            [[g.boolean(rng.choice([1, 2, 3]))] for _ in range(2)],
            'states': [gen_state(rng) for _ in range(rng.choice([1, 2, 3]))],
            'order': [rng.randrange(5) for _ in range(6)], 'seed': rng.randrange(1 << 30)}


def run(case, obs):
    rng = random.Random(case['seed'])
    base = tempfile.mkdtemp(prefix='c18-')
    files, tools = subs.make_world(base)
    build = subs.Builder(rng)
    args = [build.arg(arg) for arg in case['args']]
    path = os.environ['PATH']
    contexts = [LaunchContext(), LaunchContext()]
    anon = [{}, {}]
    values = {}
    tap = LogTap()
    logger = launch.logging.get_logger()
    logger.addHandler(tap)
    try:
        for number, state in enumerate(case['states']):
            which = rng.randrange(2) if number else 0
            context = contexts[which]
            # configurations of the names (anonymous ones stay)
            for name in list(context.launch_configurations):
                if not name.startswith('anon'):
                    del context.launch_configurations[name]
            configs = {**state['configs'], 'base': base}
            context.launch_configurations.update(configs)
            for name in list(os.environ):
                if name.startswith('VF_'):
                    del os.environ[name]
            context.environment.update(state['env'])
            os.environ['PATH'] = '/usr/bin:/bin' if state['no_path'] else \
                os.path.join(base, 'bin') + ':' + path
            context._push_locals()
            local = dict(state['locals'])
            things = {'thing': Thing(local['thing.part'])}
            context.extend_locals({**{k: v for k, v in local.items() if '.' not in k}, **things})
            if state['file']:
                context.extend_locals({
                    'current_launch_file_path': state['file'],
                    'current_launch_file_directory': os.path.dirname(state['file'])})
            now = dict(files)
            if state['gone']:
                del now[base + '/two.txt']
                os.rename(base + '/two.txt', base + '/hidden')
            world = {'configs': configs, 'env': dict(os.environ), 'locals': local, 'files': now,
                     'tools': tools, 'logdir': launch.logging.launch_config.log_dir,
                     'file': state['file'], 'anon': None}

            def anonymous(name, which=which, context=context):
                if name not in anon[which]:
                    value = subs.AnonName(name).perform(context)
                    anon[which][name] = value
                    plain = name.replace('.', '_').replace(':', '_').replace('-', '_')
                    obs.expect(value.startswith(plain) and not set(value) & set('.:-'), 'anon-name',
                               'anonymous name for %r: %r' % (name, value))
                    others = [v for a in anon for k, v in a.items()
                              if v == value and (a is not anon[which] or k != name)]
                    obs.expect(not others, 'anon-unique', 'anonymous name for %r is not unique: %r' %
                               (name, value))
                return anon[which][name]

            world['anon'] = anonymous
            for k in case['order']:
                meaning = subs.Meaning(world)
                try:
                    want = meaning.arg(case['args'][k])
                except subs.Failure as exc:
                    want = exc
                before = (dict(context.launch_configurations), dict(os.environ), os.getcwd(),
                          dict(context.get_locals_as_dict()))
                tap.records.clear()
                try:
                    way = rng.randrange(3)
                    if way == 0 or isinstance(args[k], (str, list, tuple)):
                        got = perform_substitutions(
                            context, normalize_to_list_of_substitutions(args[k]))
                    elif way == 1:
                        got = context.perform_substitution(args[k])
                    else:
                        got = args[k].perform(context)
                except Exception as exc:
                    got = exc
                after = (dict(context.launch_configurations), dict(os.environ), os.getcwd(),
                         dict(context.get_locals_as_dict()))
                for part in after[:1]:
                    for name in meaning.anon_used:
                        part.pop('anon' + name, None)
                for name in meaning.anon_used:
                    before[0].pop('anon' + name, None)
                obs.equal(after, before, 'effect', 'state after performing %r' % (case['args'][k],))
                if isinstance(want, subs.Failure):
                    obs.expect(isinstance(got, Exception), 'no-failure', '%r should fail (%s) but '
                               'gave %r' % (case['args'][k], want, got))
                    obs.count('failed')
                elif isinstance(got, Exception):
                    obs.fail('failure', '%r should give %r but failed: %r' % (
                        case['args'][k], want, got))
                else:
                    obs.equal(got, want, 'value', 'value of %r in %r' % (case['args'][k], state))
                    obs.count('performed')
                    for kind in set(subs.kinds(case['args'][k])):
                        obs.count('kind_' + kind)
                    obs.maximum('depth', subs.depth_of(case['args'][k]))
                    obs.count('nested', subs.depth_of(case['args'][k]) >= 3)
                    values.setdefault(k, set()).add(want)
                    if len(values[k]) > 1:
                        obs.count('changed_value')
                        obs.sig([case['args'][k], sorted(values[k])])
                    warned = sum(r[1] >= 30 and 'noise' in r[2] for r in tap.records)
                    obs.equal(warned, meaning.warned, 'warning', 'warnings about standard error '
                              'from %r' % (case['args'][k],))
                    obs.count('warned', warned)
            context._pop_locals()
            if state['gone']:
                os.rename(base + '/hidden', base + '/two.txt')
    finally:
        logger.removeHandler(tap)
        os.environ['PATH'] = path
