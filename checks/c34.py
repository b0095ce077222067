"""C34: installed extensions of the launch file frontends are found, used and isolated."""
import importlib
import io
import os
import random
import sys
import tempfile
import warnings

from launch import LaunchDescription
from launch.actions import IncludeLaunchDescription
import launch.frontend.expose as expose
from launch.frontend import InvalidFrontendLaunchFileError, Parser
from launch.launch_description_sources import (AnyLaunchDescriptionSource,
                                               FrontendLaunchDescriptionSource)
from launch_xml import Parser as XmlParser
from launch_yaml import Parser as YamlParser
from vf.kit import execute, finish, judge, new_service

CASES = {'quick': 1400, 'thorough': 20000}
WALL = {'quick': 90, 'thorough': 600}
TIMEOUT = 60
NEED = {'extensions': 600, 'broken': 450, 'actions': 500, 'parsed': 600, 'not_parsed': 450, 'attempts': 1000,
        'names': 12000, 'launched': 350, 'parsers': 450}
RULE = ('a case installs packages with random entry points for actions, substitutions and parsers, '
        'some of which cannot be loaded, and uses them in launch files of several formats; which were '
        'loaded, in which order parsers were tried, the warnings and the journal of the launch are '
        'compared with a model; non-trivial: at least one working extension and one broken or a parser')
ASSUMPTIONS = ['extensions which fail do so when they are imported']

BREAK = ['raise', 'syntax', 'missing-attribute', 'missing-module', 'taken', 'system']
MODULE = '''
import vf_journal
vf_journal.ENTRIES.append(['import', {name!r}])
from launch import Action, Substitution
from launch.frontend import expose_action, expose_substitution
from launch.utilities import normalize_to_list_of_substitutions, perform_substitutions


class Act(Action):
    def __init__(self, *, text, **kwargs):
        super().__init__(**kwargs)
        self.text = normalize_to_list_of_substitutions(text)

    @classmethod
    def parse(cls, entity, parser):
        _, kwargs = super().parse(entity, parser)
        kwargs['text'] = parser.parse_substitution(entity.get_attr('text'))
        return cls, kwargs

    def execute(self, context):
        vf_journal.ENTRIES.append(['execute', {name!r}, perform_substitutions(context, self.text)])


class Sub(Substitution):
    def __init__(self, text):
        super().__init__()
        self.text = normalize_to_list_of_substitutions(text)

    @classmethod
    def parse(cls, data):
        return cls, {{'text': data[0]}}

    def perform(self, context):
        return '<{name}:' + perform_substitutions(context, self.text) + '>'


'''
PARSER = '''
import vf_journal
import json
from launch import frontend
from launch_yaml.entity import Entity


class Parser(frontend.Parser):
    @classmethod
    def load(cls, file):
        vf_journal.ENTRIES.append(['load', {name!r}])
        first, rest = file.read().split('\\n', 1)
        if first != '%{magic}':
            raise RuntimeError('this is not for {name}')
        tree = json.loads(rest)
        (type_name, data), = tree.items()
        return Entity(data, type_name), cls()

    @classmethod
    def get_file_extensions(cls):
        return {extensions!r}
'''
ENDINGS = ['json', 'launch.json', 'vf', 'a.vf', 'xml', 'launch', 'yaml', 'launch.toml']
KNOWN = {'xml': {'launch.xml', 'xml', 'launch'},
         'yaml': {'launch.yaml', 'launch.yml', 'yaml', 'yml', 'launch'}}


def gen(rng, i, tier):
    extensions = []
    for n in range(rng.choice([0, 1, 2, 3, 4])):
        broken = rng.choice(BREAK) if rng.random() < .35 else None
        extensions.append({
            'name': 'vf_e%d' % n, 'broken': broken, 'dist': rng.randint(0, 2),
            'how': rng.choice(['class', 'class', 'function', 'again', 'two-names']),
            'attr': rng.random() < .5, 'entry': rng.choice(['e%d', 'Z%d', 'a_%d', 'x-%d']) % n,
            'twice': broken is None and rng.random() < .15})
    parsers = []
    for n in range(rng.choice([0, 1, 1, 2, 3])):
        parsers.append({
            'name': 'vf_p%d' % n, 'broken': rng.choice(BREAK[:4]) if rng.random() < .25 else None,
            'dist': rng.randint(0, 2), 'entry': rng.choice(['p%d', 'a%d', 'z%d', 'x%d', 'yy%d']) % n,
            'magic': 'm%d' % rng.randint(0, n), 'endings': sorted(rng.sample(ENDINGS, rng.randint(0, 3)))})
    files = []
    works = [n for n, e in enumerate(extensions) if not e['broken']]
    for n in range(rng.randint(1, 4)):
        files.append({'format': rng.choice(['xml', 'yaml', 'yaml'] + ['m%d' % k for k in range(3)] * 2),
                      'ending': rng.choice(ENDINGS + ['launch.xml', 'yml', 'nothing', '']),
                      'stream': rng.random() < .25,
                      'uses': [[rng.choice(works) if works and rng.random() < .9 else
                                 rng.randint(0, max(1, len(extensions))), rng.choice(['act', 'sub', 'both']),
                                rng.choice(['hi', 'a b', '1'])] for _ in range(rng.randint(1, 3))]})
    return {'extensions': extensions, 'parsers': parsers, 'files': files, 'seed': rng.randrange(1 << 30)}


def write(path, text):
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def module(e):
    name = e['name']
    if e['broken'] == 'syntax':
        return 'import vf_journal\nthis is no python\n'
    text = MODULE.format(name=name)
    if e['broken'] == 'raise':
        return text + 'raise ValueError("no")\n'
    if e['broken'] == 'system':
        return text + 'import vf_no_such_module\n'
    if e['broken'] == 'taken':
        return text + "expose_action('log')(Act)\n"
    if e['how'] == 'function':
        text += "expose_action('%s')(lambda entity, parser: Act.parse(entity, parser))\n" % name
    else:
        text += "expose_action('%s')(Act)\n" % name
    if e['how'] == 'again':
        text += "expose_action('%s')(Act)\nexpose_substitution('%s')(Sub)\n" % (name, name)
    if e['how'] == 'two-names':
        text += "expose_action('%s_too')(Act)\n" % name
    return text + "expose_substitution('%s')(Sub)\n" % name


def install(case, folder):
    dists = {}
    for e in case['extensions']:
        if e['broken'] != 'missing-module':
            write(os.path.join(folder, e['name'] + '.py'), module(e))
        value = e['name'] + (':nothing' if e['broken'] == 'missing-attribute' else ':Act' if e['attr'] else '')
        groups = dists.setdefault(e['dist'], {})
        lines = groups.setdefault('launch.frontend.launch_extension', [])
        lines.append('%s = %s' % (e['entry'], value))
        if e['twice']:
            lines.append('%s-again = %s' % (e['entry'], value))
    for p in case['parsers']:
        text = PARSER.format(name=p['name'], magic=p['magic'], extensions=set(p['endings']))
        if not p['endings']:
            text = text.replace('return set()', 'return super().get_file_extensions()')
        if p['broken'] == 'raise':
            text += 'raise ValueError("no")\n'
        elif p['broken'] == 'syntax':
            text += 'this is no python\n'
        if p['broken'] != 'missing-module':
            write(os.path.join(folder, p['name'] + '.py'), text)
        value = p['name'] + (':nothing' if p['broken'] == 'missing-attribute' else ':Parser')
        dists.setdefault(p['dist'], {}).setdefault('launch.frontend.parser', []).append(
            '%s = %s' % (p['entry'], value))
    for n, groups in dists.items():
        info = os.path.join(folder, 'vf_dist%d-1.0.dist-info' % n)
        os.mkdir(info)
        write(os.path.join(info, 'METADATA'), 'Metadata-Version: 2.1\nName: vf-dist%d\nVersion: 1.0\n' % n)
        write(os.path.join(info, 'entry_points.txt'), ''.join(
            '[%s]\n%s\n' % (group, ''.join(line + '\n' for line in lines)) for group, lines in groups.items()))
    write(os.path.join(folder, 'vf_journal.py'), 'ENTRIES = []\n')


def content(file, extensions):
    """The text of a launch file, what it does, and whether it can be parsed."""
    items, does, fine = [], [], True
    for n, kind, text in file['uses']:
        if n < len(extensions):
            e = extensions[n]
        else:
            e = {'name': 'vf_unknown', 'broken': 'x', 'how': None}
        if e['broken'] == 'missing-attribute':
            fine = fine and None    # it was imported, nevertheless
        elif e['broken']:
            fine = False
        value = text if kind == 'act' else '$(%s %s)' % (e['name'], "'%s'" % text)
        told = text if kind == 'act' else '<%s:%s>' % (e['name'], text)
        if kind == 'sub':
            items.append(['let', {'name': 'vf', 'value': value}])
        else:
            name = e['name'] + ('_too' if e['how'] == 'two-names' and len(text) == 2 else '')
            items.append([name, {'text': value}])
            does.append(['execute', e['name'], told])
    if file['format'] == 'xml':
        body = '<launch>%s</launch>' % ''.join(
            '<%s %s/>' % (tag, ' '.join('%s="%s"' % a for a in attrs.items())) for tag, attrs in items)
    else:
        import json
        body = json.dumps({'launch': [{tag: attrs} for tag, attrs in items]})
        if file['format'] != 'yaml':
            body = '%%%s\n%s' % (file['format'], body)
    return body, does, fine


class Installed:
    """Puts a folder on the path, with the frontends as in a fresh process."""

    def __init__(self, folder):
        self.folder = folder

    def __enter__(self):
        self.methods = dict(expose.action_parse_methods), dict(expose.substitution_parse_methods)
        Parser.load_launch_extensions()
        Parser.load_parser_implementations()
        self.state = [(cls, {n: cls.__dict__[n] for n in ('extensions_loaded', 'frontend_parsers')
                             if n in cls.__dict__}) for cls in (Parser, XmlParser, YamlParser)]
        for cls, state in self.state:
            for n in state:
                if cls is Parser:
                    setattr(cls, n, {'extensions_loaded': False, 'frontend_parsers': None}[n])
                else:
                    delattr(cls, n)
        sys.path.insert(0, self.folder)
        importlib.invalidate_caches()
        return self

    def __exit__(self, *args):
        sys.path.remove(self.folder)
        for cls, state in self.state:
            for n in ('extensions_loaded', 'frontend_parsers'):
                if n in state:
                    setattr(cls, n, state[n])
                elif n in cls.__dict__:
                    delattr(cls, n)
        for methods, before in zip((expose.action_parse_methods, expose.substitution_parse_methods),
                                   self.methods):
            methods.clear()
            methods.update(before)
        for name in [n for n in sys.modules if n.startswith('vf_')]:
            del sys.modules[name]
        importlib.invalidate_caches()


def run(case, obs):
    with tempfile.TemporaryDirectory(dir=os.getcwd()) as folder:
        packages = os.path.join(folder, 'packages')
        os.mkdir(packages)
        install(case, packages)
        observe(case, obs, folder, packages)


def observe(case, obs, folder, packages):
    with Installed(packages), warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        import vf_journal
        used(case, obs, vf_journal.ENTRIES, folder)
    told = [str(w.message) for w in caught]
    works = [e for e in case['extensions'] if not e['broken']]
    if works and (len(works) < len(case['extensions']) or case['parsers']):
        obs.sig(repr([case['extensions'], case['parsers']]))
    for what, entries in (('launch extension', case['extensions']), ('parser extension', case['parsers'])):
        for e in entries:
            warned = any('Failed to load the %s: %s\n' % (what, e['entry']) in text for text in told)
            obs.equal(warned, bool(e['broken']), 'warning', 'a warning about the %s %s' % (what, e))
            obs.count('broken', bool(e['broken']))


def used(case, obs, journal, folder):
    rng = random.Random(case['seed'])
    parsers = {p['entry']: p for p in case['parsers'] if not p['broken']}
    endings = {**{n: set(p['endings']) for n, p in parsers.items()}, **KNOWN}
    names = sorted(endings)
    obs.count('parsers', len(parsers))

    def fits(name, filename):
        return any(filename.endswith('.' + ending) for ending in endings[name])

    def tell():
        obs.equal(sorted(Parser.get_available_extensions()), names, 'names', 'available extensions')
        obs.equal(set(Parser.get_file_extensions_from_parsers()), set().union(*endings.values()), 'names',
                  'file extensions')
        for ending in rng.sample(ENDINGS, 4) + ['nothing']:
            for filename in ('f.' + ending, ending, '/p.xml/' + ending, 'f.' + ending + 'x'):
                expected = [n for n in names if fits(n, filename)]
                obs.equal([cls.__module__ for cls in Parser.get_parsers_from_filename(filename)],
                          [module_of(n) for n in expected], 'names', 'parsers for ' + filename)
                obs.equal(Parser.is_filename_valid(filename), bool(expected), 'names',
                          'is_filename_valid(%r)' % filename)
                obs.count('names')
        for name in names + ['nothing', 'json']:
            obs.equal(Parser.is_extension_valid(name), name in names, 'names', 'is_extension_valid')
            try:
                cls = Parser.get_parser_from_extension(name)
            except RuntimeError:
                cls = None
            obs.equal(cls and cls.__module__, module_of(name) if name in names else None, 'names',
                      'get_parser_from_extension(%r)' % name)

    def module_of(name):
        return parsers[name]['name'] if name in parsers else 'launch_%s.parser' % name

    if rng.random() < .5:
        tell()
    for n, file in enumerate(case['files']):
        text, does, fine = content(file, case['extensions'])
        path = os.path.join(folder, 'file%d%s' % (n, '.' + file['ending'] if file['ending'] else ''))
        write(path, text)
        filename = '' if file['stream'] else path
        order = [p for p in names if fits(p, filename)]
        order += [p for p in names if p not in order]
        tried, found = [], None
        for p in order:
            if p in parsers:
                tried.append(['load', parsers[p]['name']])
            if p == file['format'] or p in parsers and parsers[p]['magic'] == file['format']:
                found = p
                break
        before = len(journal)
        given = io.StringIO(text) if file['stream'] else path
        try:
            entity, parser = Parser.load(given)
        except InvalidFrontendLaunchFileError as exc:
            obs.expect(found is None, 'not-parsed', '%r was not parsed (by %s): %s' % (text, found, exc))
            obs.count('not_parsed')
            description = None
        else:
            obs.equal(type(parser).__module__, found and module_of(found), 'parser',
                      'parser of %s of format %s' % (filename, file['format']))
            obs.count('parsed')
            try:
                description = parser.parse_description(entity)
            except Exception as exc:
                obs.expect(fine is not True, 'not-parsed', 'the description was refused: %r %s' % (exc, text))
                description = None
                obs.count('unknown')
            else:
                obs.expect(fine is not False, 'parsed', 'something unknown was parsed: %s' % text)
        obs.equal([e for e in journal[before:] if e[0] == 'load'], tried, 'attempts',
                  'parsers tried for %r of format %s' % (filename, file['format']))
        obs.count('attempts')
        if description is None:
            if found is not None and not file['stream']:
                for source in (AnyLaunchDescriptionSource, FrontendLaunchDescriptionSource):
                    outcome = source(path).try_get_launch_description_without_context()
                    obs.expect(outcome is None, 'parsed', '%s accepted %s' % (source.__name__, text))
            continue
        if not file['stream']:
            source = AnyLaunchDescriptionSource if fits(found, path) and rng.random() < .6 else \
                FrontendLaunchDescriptionSource
            description = LaunchDescription([IncludeLaunchDescription(source(path))])
        before = len(journal)
        service, loop = new_service()
        try:
            service.include_launch_description(description)
            result = execute(service, loop)
        finally:
            finish(loop)
        judge(result, obs)
        obs.equal([e for e in journal[before:] if e[0] == 'execute'], does, 'actions', 'actions of ' + text)
        obs.count('actions', len(does))
        obs.count('launched')
    tell()
    Parser.load_launch_extensions()
    imported = [e[1] for e in journal if e[0] == 'import']
    for e in case['extensions']:
        if not e['broken']:
            obs.equal(imported.count(e['name']), 1, 'imports', 'imports of %s' % e['name'])
            obs.count('extensions')
            obs.expect(e['name'] in expose.action_parse_methods and
                       e['name'] in expose.substitution_parse_methods, 'imports', 'not exposed: %s' % e)
    obs.equal(expose.action_parse_methods['log'].__module__, 'launch.actions.log_info', 'taken',
              'module of the action log')
