"""C36: add_launch_test of CMake registers exactly the launch tests it is given."""
import json
import os
import shutil
import subprocess
import tempfile
import xml.etree.ElementTree as ElementTree

from vf.real import PYTHON

CASES = {'quick': 220, 'thorough': 8000}
WALL = {'quick': 120, 'thorough': 700}
TIMEOUT = 100
HANG = 90
NEED = {'projects': 80, 'registered': 350, 'missing': 6, 'again': 40, 'executed': 15, 'passed': 8, 'failed': 4,
        'arguments': 500, 'subdirectories': 60, 'default_names': 100, 'evaluated': 6}
RULE = ('a case is a CMake project with launch tests in several folders, configured (once or again, '
        'with changes) by the real cmake; the registered tests, their commands, properties and files are '
        'compared with what was given, some of them are executed by ctest; non-trivial: two tests at least')
ASSUMPTIONS = ['ament_add_test is replaced by a function that adds the command as test; semicolons, unbalanced '
               'brackets and backslashes at the end are left out: lists of CMake cannot have them']

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''cmake_minimum_required(VERSION %(version)s)
project(%(project)s NONE)
enable_testing()
set(Python3_EXECUTABLE "%(python)s")
set(AMENT_TEST_RESULTS_DIR "${CMAKE_BINARY_DIR}/test_results")
function(ament_add_test name)
  cmake_parse_arguments(A "SKIP_TEST" "OUTPUT_FILE;RESULT_FILE;TIMEOUT;WORKING_DIRECTORY" "COMMAND;ENV;APPEND_ENV" ${ARGN})
  add_test(NAME "${name}" COMMAND ${A_COMMAND})
  set_tests_properties("${name}" PROPERTIES TIMEOUT "${A_TIMEOUT}" ENVIRONMENT "${A_ENV};VF_RESULT=${A_RESULT_FILE};VF_OUT=${A_OUTPUT_FILE};VF_REST=${A_UNPARSED_ARGUMENTS};VF_SKIP=${A_SKIP_TEST};VF_WD=${A_WORKING_DIRECTORY}")
endfunction()
include("%(repo)s/launch_testing_ament_cmake/cmake/add_launch_test.cmake")
'''
TEST = '''import json
import os
import unittest
import launch
import launch.actions
import launch_testing
import launch_testing.actions


def generate_test_description():
    return launch.LaunchDescription([
        launch.actions.ExecuteProcess(cmd=['sleep', '60'], output='log'), launch_testing.actions.ReadyToTest()])


class TestIt(unittest.TestCase):
    def test_it(self, test_args):
        with open(os.environ['VF_JOURNAL'], 'a') as f:
            f.write(json.dumps([__file__, test_args]) + chr(10))
        self.assertTrue(%s)
'''
VALUES = ['x', 'a b', '', '1', "it's", 'ü', '[1, 2]', '$HOME', '"q"', '#n', '(y)', '*', '@X@',
          'TARGET_X', 'a=b', ':=', '-x', '$$', '%d', '{}', '&|<>']
# CMake evaluates these once more (a known finding)
EVALUATED = ['${HOME}', 'a\\.b', '\\\\s+', '\\$x', 'a\\"b']
NAMES = ['a_test.py', 'b_launch_test.py', 'test_c.py', 'with space.py', 'ü.py', 'x.launch.py', 'src.py']
FOLDERS = ['', 'test', 'sub', 'sub/deep', 'my dir', 'src']
WORDS = 'abcdefgh'


def gen_call(rng, n, files):
    folder, name = rng.choice(files)
    call = {'file': [folder, name], 'from': rng.choice(['', '', folder.split('/')[0], folder]),
            'absolute': rng.random() < .25, 'target': None, 'timeout': rng.choice([None, None, 5, 300, 1]),
            'labels': rng.choice([[], [], ['l1'], ['l1', 'l 2']]), 'python': rng.random() < .15,
            'skip': rng.random() < .08, 'order': rng.random(),
            'args': [[rng.choice(['x', 'mode', 'speed', 'a.b']), rng.choice(VALUES)]
                     for _ in range(rng.choice([0, 1, 2, 4]))]}
    if rng.random() < .4 or ' ' in folder + name:
        # a name of a test with a space is cut by CMake, depending on its policies
        call['target'] = rng.choice(['target_%d', 'my-%d', 't.%d', 'ü%d']) % n
    return call


def gen(rng, i, tier):
    files = [[rng.choice(FOLDERS), name] for name in rng.sample(NAMES, rng.randint(1, 5))]
    if rng.random() < .4:
        # the same name in several folders
        files += [[folder, files[0][1]] for folder in FOLDERS if folder != files[0][0]][:rng.randint(1, 3)]
    calls = [gen_call(rng, n, files) for n in range(rng.choice([1, 2, 3, 5, 8]))]
    used, unique = set(), []
    for call in calls:
        key = tuple(call['file']) if call['target'] is None else call['target']
        if key not in used:
            used.add(key)
            unique.append(call)
    case = {'files': files, 'calls': unique, 'project': rng.choice(['my_pkg', 'pkg2', 'A-b']),
            'version': rng.choice(['3.5', '3.10', '3.16', '3.20', '3.25']), 'again': rng.random() < .5,
            'missing': rng.random() < .12, 'space': rng.random() < .2, 'run': rng.random() < .15,
            'fails': rng.random() < .35, 'gone': rng.random() < .25}
    if case['run']:
        case['calls'] = case['calls'][:2]
        for call in case['calls']:
            # an empty value is refused by launch_test
            call['args'] = [a for a in call['args'] if a[1] not in ('', ':=')]
            call['timeout'] = None
            call['python'] = call['skip'] = False
        case['missing'] = False
    elif rng.random() < .08:
        case['calls'][-1]['args'].append(['x', rng.choice(EVALUATED)])
    return case


def quote(text):
    return '"%s"' % text.replace('\\', '\\\\').replace('"', '\\"').replace('$', '\\$')


def command(call, path):
    """How the test is added."""
    parts = []
    if call['target']:
        parts.append('TARGET ' + quote(call['target']))
    if call['timeout']:
        parts.append('TIMEOUT %d' % call['timeout'])
    if call['labels']:
        parts.append('LABELS ' + ' '.join(quote(label) for label in call['labels']))
    if call['python']:
        parts.append('PYTHON_EXECUTABLE /usr/bin/env')
    if call['args']:
        parts.append('ARGS ' + ' '.join(quote('%s:=%s' % tuple(a)) for a in call['args']))
    n = int(call['order'] * 100)
    parts = parts[n % (len(parts) or 1):] + parts[:n % (len(parts) or 1)]
    if call['skip']:
        parts.insert(0, 'SKIP_TEST')
    return 'add_launch_test(%s %s)\n' % (quote(path), ' '.join(parts))


def write(case, source, missing):
    """Write the project; return the folders with a CMakeLists.txt of their own."""
    texts = {'': HEAD % {'version': case['version'], 'project': case['project'], 'python': PYTHON, 'repo': REPO}}
    for call in case['calls']:
        folder, name = call['file']
        place = call['from'] if folder == call['from'] or folder.startswith(call['from'] + '/') else ''
        if call['absolute']:
            path = os.path.join(source, folder, name)
        else:
            path = os.path.relpath(os.path.join(folder, name), place or '.')
        texts.setdefault(place, '')
        texts[place] += command(call, path)
    if missing:
        texts[''] += 'add_launch_test(not_there_test.py)\n'
    for place in texts:
        if place:
            texts[''] += 'add_subdirectory(%s)\n' % quote(place)
    for place, text in texts.items():
        os.makedirs(os.path.join(source, place), exist_ok=True)
        with open(os.path.join(source, place, 'CMakeLists.txt'), 'w') as f:
            f.write(text)
    return [place for place in texts if place]


def default_name(call):
    return os.path.join(*call['file']).replace('/', '_')


def environment():
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'TMPDIR')}
    env.update(LC_ALL='C.UTF-8', PYTHONIOENCODING='utf-8', CTEST_OUTPUT_ON_FAILURE='1')
    return env


def execute(args, cwd, **more):
    done = subprocess.run(args, cwd=cwd, env=dict(environment(), **more), stdin=subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=80)
    return done.returncode, done.stdout.decode(errors='replace')


def judge(case, source, build, obs, what):
    code, out = execute(['ctest', '--show-only=json-v1'], build)
    if not obs.expect(code == 0, 'ctest', 'ctest: %d, %s%s' % (code, out[-800:], what)):
        return
    tests = {}
    for t in json.loads(out)['tests']:
        tests.setdefault(t['name'], []).append(t)
    expected = {call['target'] or default_name(call): call for call in case['calls']}
    obs.equal(sorted((n, len(ts)) for n, ts in tests.items()), sorted((n, 1) for n in expected), 'tests',
              'registered tests%s' % what)
    for name, call in expected.items():
        if name not in tests:
            continue
        test = tests[name][0]
        properties = {p['name']: p['value'] for p in test['properties']}
        env = dict(e.partition('=')[::2] for e in properties.get('ENVIRONMENT', []))
        result = '%s/test_results/%s/%s.xunit.xml' % (build, case['project'], name)
        wanted = ['/usr/bin/env' if call['python'] else PYTHON, '-m', 'launch_testing.launch_test',
                  os.path.join(source, *call['file'])] + ['%s:=%s' % tuple(a) for a in call['args']]
        got, options = test['command'], test['command'][len(wanted):]
        if any(a[1] in EVALUATED for a in call['args']):
            obs.count('evaluated')
            obs.equal(got[len(wanted) - 1:][:1], wanted[-1:], 'args-evaluated', 'command of %s%s' % (name, what))
            wanted = wanted[:-1]
        obs.equal(got[:len(wanted)], wanted, 'command', 'command of %s%s' % (name, what))
        obs.equal(sorted(options), sorted(['--junit-xml=' + result, '--package-name=' + case['project']]),
                  'options', 'options of %s%s' % (name, what))
        obs.equal(properties.get('TIMEOUT'), float(call['timeout'] or 60), 'timeout', 'timeout of %s%s' % (name, what))
        obs.equal(sorted(properties.get('LABELS', [])), sorted(call['labels'] or ['launch_test']), 'labels',
                  'labels of %s%s' % (name, what))
        obs.equal(env.get('VF_RESULT'), result, 'result-file', 'result file of %s%s' % (name, what))
        obs.equal(env.get('VF_OUT'), '%s/launch_test/%s.txt' % (build, name), 'output-file', 'output file of %s%s' % (
            name, what))
        obs.equal([env.get('VF_SKIP'), env.get('VF_REST'), env.get('PYTHONDONTWRITEBYTECODE')],
                  ['TRUE' if call['skip'] else 'FALSE', '', '1'], 'forwarded', 'other arguments of %s%s' % (name, what))
        obs.count('registered')
        obs.count('arguments', len(call['args']))
        obs.count('default_names', call['target'] is None)


def run_tests(case, base, source, build, obs, what):
    journal = os.path.join(base, 'journal')
    env = {'PYTHONPATH': ':'.join([os.path.join(REPO, p) for p in ('launch', 'launch_testing', 'launch_xml', 'launch_yaml')] +
                                  [os.path.join(VERIF, 'lib', 'stubs')]),
           'ROS_LOG_DIR': os.path.join(base, 'log'), 'VF_JOURNAL': journal}
    for call in case['calls']:
        os.makedirs(os.path.join(build, 'test_results', case['project']), exist_ok=True)
    code, out = execute(['ctest', '-j', '2'], build, **env)
    what += '\n' + out[-1500:]
    obs.equal(code == 0, not case['fails'], 'outcome', 'ctest succeeded%s' % what)
    lines = []
    if os.path.exists(journal):
        with open(journal) as f:
            lines = [json.loads(line) for line in f]
    wanted = [[os.path.join(source, *call['file']), dict(call['args'])] for call in case['calls']]
    obs.equal(sorted(map(repr, lines)), sorted(map(repr, wanted)), 'executed', 'executed tests and arguments%s' % what)
    for call in case['calls']:
        path = '%s/test_results/%s/%s.xunit.xml' % (build, case['project'], call['target'] or default_name(call))
        if obs.expect(os.path.exists(path), 'result', 'no result file %s%s' % (path, what)):
            root = ElementTree.parse(path).getroot()
            obs.equal((root.get('tests'), root.get('failures'), root.get('errors')),
                      ('1', '1' if case['fails'] else '0', '0'), 'report', 'counts in %s%s' % (path, what))
        obs.count('executed')
        obs.count('failed' if case['fails'] else 'passed')


def run(case, obs):
    base = os.path.realpath(tempfile.mkdtemp(prefix='c36-', dir=os.getcwd()))
    try:
        source = os.path.join(base, 'the source' if case['space'] else 'src')
        build = os.path.join(base, 'build')
        os.makedirs(source)
        for folder, name in case['files']:
            os.makedirs(os.path.join(source, folder), exist_ok=True)
            with open(os.path.join(source, folder, name), 'w') as f:
                f.write(TEST % ('False' if case['fails'] else 'True'))
        places = write(case, source, case['missing'])
        what = '; %s' % json.dumps(case, ensure_ascii=False)
        code, out = execute(['cmake', '-S', source, '-B', build], base)
        if case['missing']:
            obs.count('missing')
            obs.expect(code != 0 and 'not_there_test.py' in out, 'missing', 'a missing file: %d, %s%s' % (
                code, out[-800:], what))
            places = write(case, source, False)
            code, out = execute(['cmake', '-S', source, '-B', build], base)
        if not obs.expect(code == 0, 'configure', 'cmake: %d, %s%s' % (code, out[-1500:], what)):
            return
        obs.count('projects')
        obs.count('subdirectories', len(places))
        judge(case, source, build, obs, what)
        if case['again']:
            obs.count('again')
            if case['gone'] and len(case['calls']) > 1 and not case['run']:
                case = dict(case, calls=case['calls'][1:] + [dict(case['calls'][0], target='new_name')])
                write(case, source, False)
            code, out = execute(['cmake', '-S', source, '-B', build], base)
            if obs.expect(code == 0, 'configure-again', 'cmake: %d, %s%s' % (code, out[-1500:], what)):
                judge(case, source, build, obs, '; again' + what)
        if case['run']:
            run_tests(case, base, source, build, obs, what)
        if len(case['calls']) > 1:
            obs.sig([case['version'], len(places), [[c['target'] is None, c['absolute'], len(c['args'])]
                                                    for c in case['calls']]])
    finally:
        shutil.rmtree(base)
