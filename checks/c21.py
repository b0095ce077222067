"""C21: the same launch file in XML, YAML or Python behaves the same."""
import os
import random
import shutil
import tempfile

from vf import fronts
from vf.kit import first_difference

CASES = {'quick': 220, 'thorough': 8000}
WALL = {'quick': 120, 'thorough': 800}
TIMEOUT = 120
NEED = {'launches': 600, 'processes': 160, 'probes': 400, 'includes': 60, 'conditions': 250,
        'mixed_formats': 60, 'signals': 50, 'failed': 10}
RULE = ('a case is a random program of launch files with all exposed actions, attributes and '
        'substitutions; it is written in XML, in YAML, with the Python API and in mixed formats, with '
        'random spelling, file names and loaders, and launched in virtual time; logs and their '
        'destinations, events, processes with command, environment, signals and times, configurations '
        'and outcome must be equal; non-trivial: a program with processes, includes and conditions')
ASSUMPTIONS = ['descriptions made with the Python API are the reference, C01 to C19 judge those']


def gen(rng, i, tier):
    return {'program': fronts.gen(rng, rng.choice([0, 0, .003, .02])), 'seed': rng.randrange(1 << 30),
            'env': {n: rng.choice(fronts.TEXTS) for n in fronts.ENVS if rng.random() < .5},
            'args': [[n, rng.choice(fronts.TEXTS)] for n in fronts.NAMES if rng.random() < .3]}


def run(case, obs):
    files, procs = case['program']['files'], case['program']['procs']
    variants = ['py', 'xml', 'yaml', 'mixed', 'mixed']
    results = []
    # the same seed is used for things which have no equivalent in all formats
    for n, variant in enumerate(variants):
        rng = random.Random(case['seed'] + n)
        base = tempfile.mkdtemp(prefix='c21-')
        formats = [variant if variant != 'mixed' else rng.choice(['py', 'xml', 'yaml'])
                   for _ in files]
        try:
            try:
                layout = fronts.write(rng, files, base, formats)
            except fronts.Unwritable:
                obs.count('unwritable')
                return
            context = '%s %s' % (variant, layout.names)
            try:
                static = fronts.arguments_of(
                    fronts.source_for(rng, layout).try_get_launch_description_without_context())
                source = fronts.source_for(rng, layout)
            except Exception as exc:
                obs.fail('rejected', '%s: the file was rejected: %r\n%s' % (
                    context, exc, show(layout, files)))
                return
            entries, result = fronts.launch_it(
                source, layout, procs, [tuple(a) for a in case['args']], case['env'])
            text = show(layout, files)
        finally:
            shutil.rmtree(base)
        obs.count('launches')
        obs.count('mixed_formats', len(set(formats)) > 1)
        if result.deadlock or result.error is not None:
            obs.fail('run', '%s: run() did not end properly: %r' % (context, result.error))
            return
        results.append((context, static, entries, text))
    context, static, entries, _ = results[0]
    for other, static2, entries2, text in results[1:]:
        obs.equal(static2, static, 'arguments', '%s: declared arguments' % other)
        difference = first_difference(entries, entries2)
        if difference is not None:
            obs.fail('behaviour', '%s differs from Python: %s\n%s' % (other, difference, text))
            break
    nodes = [n for f in files for n in fronts.walk(f['nodes'])]
    conditions = sum(1 for n in nodes if 'if' in n[1] or 'unless' in n[1])
    obs.count('conditions', conditions)
    obs.count('includes', sum(1 for n in nodes if n[0] == 'include'))
    obs.count('probes', sum(1 for e in entries if e[1] == 'log' and 'probe' in e[4]))
    processes = [e for e in entries if e[0] == 'process']
    obs.count('processes', len(processes))
    obs.count('signals', sum(len(p[6]) for p in processes))
    obs.count('failed', [e for e in entries if e[0] == 'end'][0][1] != 0)
    for tag in {n[0] for n in nodes}:
        obs.count('tag_' + tag)
    if conditions and processes and len(files) > 1:
        obs.sig([e for e in entries if e[0] == 'process' or e[1] == 'log'][:50])


def show(layout, files):
    out = ''
    for n in range(len(files)):
        if layout.formats[n] != 'py' and os.path.exists(layout.path(n)):
            with open(layout.path(n)) as f:
                out += '--- %s\n%s\n' % (layout.names[n], f.read())
    return out[:1500]
