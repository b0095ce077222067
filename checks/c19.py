"""C19: substitution text parses to what was written."""
import os
import random
import tempfile

import launch.frontend.parse_substitution as parsing
import launch.logging
from launch import LaunchContext
from launch.utilities import perform_substitutions
from vf import subs

CASES = {'quick': 9000, 'thorough': 200000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 60
NEED = {'parsed': 8000, 'nested': 1500, 'quoted': 2000, 'escapes': 1500, 'rejected': 1500,
        'kind_any': 50, 'kind_if': 50, 'kind_eval': 50, 'kind_command': 5}
RULE = ('a case writes random literal text and nested substitutions as text of launch files in random '
        'styles (quoting, escaping), parses it, and compares the result of performing it in several '
        'states with that of the reference evaluation of what was written; damaged text must be '
        'rejected; non-trivial: text with a nested substitution')
ASSUMPTIONS = ['arguments are separated by one blank; substitutions within quotes have arguments '
               'without blanks (the grammar has no other form)']
VALUES = ['', 'value', 'true', '0', '12', '2.5', '/p/q', 'x y', 'a', 'b', 'num', '\u00e9', '$(var a)',
          "it's", 'on']
TEXTS = subs.TEXTS + ['$(', '$(var a)', '\\$', '\\\\', '\\"', "\\'", 'a b c', ' ', '(', '$', '\\ ']


def gen_state(rng):
    return {
        'configs': {**{n: rng.choice(VALUES) for n in subs.CONFIGS if rng.random() < .5},
                    **({'num': rng.choice(subs.NUMBERS)} if rng.random() < .8 else {})},
        'env': {**{n: rng.choice(VALUES) for n in subs.ENVS[:4] if rng.random() < .5},
                **({'VF_PLAIN': rng.choice(['p', 'p q', ''])} if rng.random() < .5 else {})},
        'file': rng.choice([None, '/launch/dir/file.launch.py', '/other.xml']),
    }


def gen(rng, i, tier):
    g = subs.Gen(rng, wrong=.02, texts=TEXTS,
                 without=['py', 'local', 'join'] + (['command'] if rng.random() < .8 else []))
    args = []
    while len(args) < 4:
        arg = g.arg(rng.choice([0, 1, 1, 2, 2, 3, 4]))
        try:
            text = subs.Writer(rng).top(arg)
        except subs.Unwritable:
            continue
        if len(text) < 400:
            args.append([arg, text])
    damaged = []
    while len(damaged) < 2:
        arg = [g.node(rng.choice([1, 2, 3]))]
        if arg[0][0] == 'text':
            continue
        try:
            text = subs.Writer(rng).top(arg)
        except subs.Unwritable:
            continue
        text = damage(rng, text)
        if text is not None and len(text) < 300:
            damaged.append(text)
    return {'args': args, 'states': [gen_state(rng) for _ in range(2)], 'damaged': damaged}


def damage(rng, text):
    """Damage the text of one substitution such that no reading makes sense of it."""
    kind = rng.choice(['cut', 'cut', 'unknown', 'empty', 'blank', 'arity', 'quote', 'digit', 'name'])
    end = len(text) - 1
    name = text[2:].split(' ')[0].split(')')[0]
    if kind == 'cut':
        # the substitution which starts at 0 only ends at the end
        return text[:rng.randint(2, end)]
    if kind == 'unknown':
        return '$(' + rng.choice(['vars', 'Var', 'envv', 'no-such', 'x', 'ev', 'equal']) + \
            text[2 + len(name):]
    if kind == 'empty':
        return rng.choice(['$()', 'x$()y', '$( )', "$('')", '$(()', '$($(var a) b)'])
    if kind == 'blank':
        return '$( ' + text[2:]
    if kind == 'digit':
        return '$(' + rng.choice(['1', '_', '-', '.', '"', "'"]) + text[2:]
    if kind == 'arity':
        return rng.choice(['$(var)', '$(env)', '$(not)', '$(not true true)', '$(and true)',
                           '$(or true true true)', '$(equals a)', '$(equals a b c)',
                           '$(not-equals a)', '$(if true)', '$(if a b c d)', '$(eval)',
                           '$(eval 1 math 2)', '$(command)', '$(command a warn c)',
                           '$(file-content)', '$(file-content a b)', '$(find-exec)',
                           '$(find-exec a b)', '$(anon)', '$(anon a b)', '$(dirname x)',
                           '$(filename x)', '$(log_dir x)', '$(var a b c)', '$(env a b c)'])
    if kind == 'quote':
        return '$(' + name + rng.choice([' "', " '", ' a"', ' "a\'']) + ')'
    return '$(' + name + rng.choice(['$', '=', '.', ',', '!']) + ' a)'


def run(case, obs):
    base = tempfile.mkdtemp(prefix='c19-')
    files, tools = subs.make_world(base)
    path = os.environ['PATH']
    parsed = []
    for arg, text in case['args']:
        try:
            parsed.append(parsing.parse_substitution(text))
        except Exception as exc:
            obs.fail('rejected', '%r, that is %r, was rejected: %r' % (text, arg, exc))
            return
        obs.count('parsed')
    built = [subs.Builder(random.Random(text)).arg(arg) for arg, text in case['args']]
    try:
        for state in case['states']:
            context = LaunchContext()
            configs = {**state['configs'], 'base': base}
            context.launch_configurations.update(configs)
            for name in list(os.environ):
                if name.startswith('VF_'):
                    del os.environ[name]
            os.environ.update(state['env'])
            os.environ['PATH'] = os.path.join(base, 'bin') + ':' + path
            if state['file']:
                context.extend_globals({
                    'current_launch_file_path': state['file'],
                    'current_launch_file_directory': os.path.dirname(state['file'])})
            world = {'configs': configs, 'env': dict(os.environ), 'locals': {}, 'files': files,
                     'tools': tools, 'logdir': launch.logging.launch_config.log_dir,
                     'file': state['file'],
                     'anon': lambda name: subs.AnonName(name).perform(context)}
            for (arg, text), subst in zip(case['args'], parsed):
                try:
                    want = subs.Meaning(world).arg(arg)
                except subs.Failure as exc:
                    want = exc
                try:
                    got = perform_substitutions(context, subst)
                except Exception as exc:
                    got = exc
                if isinstance(want, subs.Failure):
                    obs.expect(isinstance(got, Exception), 'no-failure', '%r should fail (%s) but '
                               'gave %r' % (text, want, got))
                elif isinstance(got, Exception):
                    obs.fail('failure', '%r should give %r but failed: %r' % (text, want, got))
                else:
                    obs.equal(got, want, 'value', 'value of %r' % text)
    finally:
        os.environ['PATH'] = path
    for (arg, text), subst, python in zip(case['args'], parsed, built):
        if len(arg) == 1 and arg[0][0] != 'text' and obs.equal(
                len(subst), 1, 'number', 'substitutions in %r' % text):
            same = type(python[0] if isinstance(python, (list, tuple)) else python)
            obs.expect(type(subst[0]) is same, 'type', '%r gave a %r' % (text, type(subst[0])))
        for kind in set(subs.kinds(arg)):
            obs.count('kind_' + kind)
        obs.count('nested', subs.depth_of(arg) >= 3)
        obs.count('quoted', '$(' in text and ('"' in text or "'" in text))
        obs.count('escapes', '\\' in text)
        obs.maximum('depth', subs.depth_of(arg))
        if subs.depth_of(arg) >= 3:
            obs.sig(text)
    for text in case['damaged']:
        try:
            result = parsing.parse_substitution(text)
        except Exception:
            obs.count('rejected')
        else:
            obs.fail('accepted', 'malformed %r was accepted: %r' % (
                text, [s.describe() for s in result]))
        # the parser still works
        obs.equal([s.perform(None) for s in parsing.parse_substitution('fine')], ['fine'],
                  'stuck', 'parsing after an error')
