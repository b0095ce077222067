"""C22: malformed launch files are rejected as a whole, well-formed ones are accepted."""
from functools import partial
import io
import json
import os
import random
import re
import shutil
import tempfile
from typing import List
import xml.etree.ElementTree as ET

from launch import Action, LaunchContext, LaunchDescription
from launch.actions import LogInfo
from launch.frontend import Entity, expose_action, Parser
from launch.launch_description_sources import (AnyLaunchDescriptionSource,
                                               FrontendLaunchDescriptionSource)
from launch.substitutions import TextSubstitution
from launch.utilities import perform_substitutions
from launch_xml.launch_description_sources import XMLLaunchDescriptionSource
from launch_yaml.launch_description_sources import YAMLLaunchDescriptionSource
from vf import fronts
import yaml

CASES = {'quick': 200, 'thorough': 14000}
WALL = {'quick': 120, 'thorough': 800}
TIMEOUT = 120
NEED = {'rejected': 1800, 'accepted': 300, 'launched': 150, 'xml': 300, 'yaml': 300,
        'm_unknown_tag': 20, 'm_unknown_attribute': 20, 'm_missing': 20, 'm_wrong_type': 20,
        'm_both_conditions': 20, 'm_nested': 20, 'm_substitution': 20, 'm_syntax': 20,
        'm_root': 20, 'm_structure': 10, 'm_sub_unknown': 10, 'm_sub_missing': 5,
        'custom_accepted': 200, 'custom_rejected': 200, 'exposing': 300}
RULE = ('a case is a random well-formed launch file and random mutations of it which make it malformed '
        'by the documented vocabulary (tags, attributes, types, nested elements, conditions, '
        'substitutions, syntax), in XML and YAML; every mutant must be an error for every loader and '
        'when included, without anything of it being executed, the original is accepted before and '
        'after; non-trivial: all rejections were decided by parsing')
ASSUMPTIONS = ['unknown attributes of the root element and text content of XML elements are not judged']

# tag: attributes (required ones with !), sub-elements
COMMON = {'if': 'str', 'unless': 'str'}
SCHEMA = {
    'let': ({'name': '!str', 'value': '!str'}, set()),
    'set_env': ({'name': '!str', 'value': '!str'}, set()),
    'unset_env': ({'name': '!str'}, set()),
    'append_env': ({'name': '!str', 'value': '!str', 'prepend': 'bool?', 'separator': 'str'}, set()),
    'reset': ({}, {'keep'}),
    'reset_env': ({}, set()),
    'log': ({'message': '!str'}, set()),
    'shutdown': ({'reason': 'str'}, set()),
    'group': ({'scoped': 'bool', 'forwarding': 'bool'}, {'keep', 'children'}),
    'timer': ({'period': '!float?', 'cancel_on_shutdown': 'bool?'}, {'children'}),
    'include': ({'file': '!str'}, {'arg'}),
    'arg': ({'name': '!str', 'default': 'str', 'description': 'str'}, {'choice'}),
    'executable': ({'cmd': '!str', 'cwd': 'str', 'name': 'str', 'on_exit': 'str',
                    'launch-prefix': 'str', 'output': 'str', 'respawn': 'str',
                    'respawn_max_retries': 'int', 'respawn_delay': 'float',
                    'sigkill_timeout': 'float', 'sigterm_timeout': 'float', 'shell': 'bool',
                    'emulate_tty': 'bool'}, {'env'}),
}
SUB = {'keep': ['name', 'value'], 'env': ['name', 'value'], 'arg': ['name', 'value'],
       'choice': ['value']}
ELSEWHERE = ['node', 'Log', 'logs', 'execute', 'set_parameter', 'push_ros_namespace', 'launch', 'args',
             'env', 'keep', 'choice', 'children', 'param', 'lett', 'unset-env', 'set_environment', 'x']
OTHER = ['foo', 'If', 'iff', 'condition', 'Name', 'nam', 'values', 'namespace', 'exec', 'pkg', 'messag',
         'default_value', 'cancel-on-shutdown', 'retries', 'pre-fix', 'env', 'version', 'x', 'name-sep', 'value-sep', 'cmd-sep', 'if-sep']
BROKEN = ['$(nope x)', '$(var)', '$(var a', 'ok $(var a b c)', '$(env)', '$(dirname x)', '$()',
          '$(not)', '$(if true)', '$(var $(nope))', "$(var 'a)", 'x $(eval 1 + ) y$(', '$(equals a)',
          '$(and true)']


SUBS = {'group': 'keep', 'reset': 'keep', 'include': 'arg', 'arg': 'choice', 'executable': 'env'}


def focuses():
    """List what is to be malformed in all runs: (kind, tag, attribute)."""
    out = []
    for tag, (attrs, subs) in SCHEMA.items():
        out += [('missing', tag, a) for a, t in attrs.items() if t[0] == '!']
        out += [('wrong_type', tag, a) for a in list(attrs) + list(COMMON)]
        out += [(kind, tag, None) for kind in ('unknown_tag', 'unknown_attribute', 'both_conditions')]
        if 'children' not in subs:
            out.append(('nested', tag, None))
        if tag in SUBS:
            out += [('sub_missing', tag, a) for a in SUB[SUBS[tag]]]
            out += [('sub_unknown', tag, way) for way in ('attribute', 'type', 'nested')]
    return out + [('on_exit', 'executable', None), ('substitution', None, None)]


FOCUS = sorted(focuses(), key=repr)
random.Random(7).shuffle(FOCUS)


def gen(rng, i, tier):
    while True:
        g = fronts.Gen(rng, 0)
        g.files.append(None)
        nodes = []
        focus = [FOCUS[(3 * i + k) % len(FOCUS)] for k in range(3)]
        for kind, tag, _ in focus:
            if tag:
                nodes.append(node(g, tag))
                if kind.startswith('sub') and not nodes[-1][3]:
                    nodes[-1][3].append([SUBS[tag], {a: ['s', 'x'] for a in SUB[SUBS[tag]]}, [], []])
                    if tag == 'arg':
                        nodes[-1][1]['default'] = ['s', 'x']
        for tag in rng.sample(sorted(SCHEMA), 2):
            nodes.append(node(g, tag))
        rng.shuffle(nodes)
        nodes += g.nodes(2, 3)
        number = len(g.files)
        if number > 1:
            continue    # another file was needed
        g.files[0] = {'deprecated': None, 'nodes': nodes}
        return {'file': g.files[0], 'procs': g.procs, 'seed': rng.randrange(1 << 30),
                'focus': focus, 'mutants': 3}


def node(g, tag):
    """Make a node of a certain kind."""
    rng = g.rng
    if tag == 'arg':
        choices = rng.sample(['c1', 'c 2', 'x'], 2) if rng.random() < .5 else []
        attrs = {'name': ['s', 'arg%d' % rng.randrange(9)], 'default': g.lit((choices or ['d'])[0])}
        return [tag, attrs, [], [['choice', {'value': ['s', c]}, [], []] for c in choices]]
    if tag == 'include':
        return [tag, {'file': g.lit('/surely/absent.launch.xml'), **g.condition()}, [],
                [['arg', {'name': g.lit('n'), 'value': g.arg()}, [], []]
                 for _ in range(rng.randint(0, 2))]]
    while True:
        files, g.files = g.files, [None] * 9     # no includes
        n = g.node(3)
        g.files = files
        if n[0] == tag:
            return n
        if tag in ('reset', 'reset_env', 'shutdown'):
            attrs = g.condition()
            if tag == 'shutdown' and rng.random() < .5:
                attrs['reason'] = g.arg()
            return [tag, attrs, [], g.keeps('keep') if tag == 'reset' else []]


# ------------------------------------------------------------------ mutations

def typo(rng, word):
    k = rng.randrange(len(word))
    return rng.choice([word[:k] + word[k + 1:], word[:k] + word[k] + word[k:], word + 's', word + '_',
                       word.upper(), word.capitalize(), word[:k] + 'q' + word[k + 1:],
                       word.replace('_', '-') + 'z'])


def choose(tag, rng, f, accept=lambda n: True):
    nodes = [n for n in walk(f['nodes']) if accept(n) and tag in (None, n[0])]
    return rng.choice(nodes) if nodes else None


def walk(nodes):
    for n in nodes:
        yield n
        yield from walk(n[2])


WRONG = {
    'bool': (['abc', '', 'tru', '2', '$(var a)', 'true false', 'None', '1.0'],
             ['abc', 1, 0, 2.5, [True], {}, None, '$(var a)']),
    'int': (['abc', '', '1.5', '$(var a)', '1 2', 'true', '0x', '1e2'],
            ['abc', 1.5, [1], {}, None, True, '$(var a)']),
    'float': (['abc', '', '1,5', '$(var a)', '1.2.3', 'true', '-1', '-0.25', '1 s'],
              ['abc', [1.5], {}, None, True, '$(var a)', -1.0, -0.25]),
    'bool?': ([], [1, 0, 2.5, [True], {'a': 1}, None]),
    'float?': ([], [True, [2.5], {'a': 1}, None]),
    'str': ([], [1, 2.5, True, ['a'], {'a': 'b'}, None, []]),
}


def mutate(rng, f, form, focus):
    """Make a file malformed; return (kind, detail)."""
    kind, tag, attr = focus or (None, None, None)
    pick = partial(choose, tag)
    kind = kind or rng.choice(['unknown_tag', 'unknown_attribute', 'unknown_attribute', 'missing',
                       'wrong_type', 'wrong_type', 'both_conditions', 'nested', 'substitution',
                       'sub_unknown', 'sub_missing', 'on_exit'])
    if kind == 'unknown_tag':
        n = pick(rng, f)
        names = [t for t in ELSEWHERE + [typo(rng, n[0]) for _ in range(3)] if t not in SCHEMA]
        if rng.random() < .5:
            n[0] = rng.choice(names)
            if n[0] == 'keep':
                return None     # may be a sub-element
            return kind, n[0]
        where = rng.choice([f['nodes']] + [m[2] for m in walk(f['nodes'])
                                           if 'children' in SCHEMA[m[0]][1]])
        where.insert(rng.randint(0, len(where)), [rng.choice(names), {}, [], []])
        if 'keep' in [m[0] for m in where]:
            # is a sub-element of groups in XML, next to others in YAML is not judged
            group = [m for m in walk(f['nodes']) if m[2] is where]
            if form == 'xml' or group and group[0][3]:
                return None
        return kind, 'inserted'
    if kind == 'unknown_attribute':
        n = pick(rng, f)
        known = set(SCHEMA[n[0]][0]) | set(SCHEMA[n[0]][1]) | set(COMMON)
        names = OTHER + [typo(rng, a) for a in sorted(known)]
        names += [a for t in SCHEMA.values() for a in t[0]]
        name = rng.choice([a for a in names if a not in known])
        if n[1] and rng.random() < .3:
            old = rng.choice(sorted(n[1]))
            n[1][name] = n[1].pop(old)
        else:
            n[1][name] = ['raw', rng.choice(['v', 'true', '1', ''])]
        return kind, '%s.%s' % (n[0], name)
    if kind == 'missing':
        n = pick(rng, f, lambda n: any(t[0] == '!' for t in SCHEMA[n[0]][0].values()))
        name = attr or rng.choice([a for a, t in SCHEMA[n[0]][0].items() if t[0] == '!'])
        del n[1][name]
        return kind, '%s.%s' % (n[0], name)
    if kind == 'wrong_type':
        options = []
        for n in walk(f['nodes']):
            for a, t in {**SCHEMA[n[0]][0], **COMMON}.items():
                if WRONG[t.strip('!')][form == 'yaml'] and tag in (None, n[0]) and \
                        attr in (None, a):
                    options.append((n, a, t.strip('!')))
        if not options:
            return None
        types = sorted({t for _, _, t in options})
        t = rng.choice(types)
        n, a, _ = rng.choice([o for o in options if o[2] == t])
        if a == 'if':
            n[1].pop('unless', None)
        if a == 'unless':
            n[1].pop('if', None)
        n[1][a] = ['raw', rng.choice(WRONG[t][form == 'yaml'])]
        if t == 'float?' and form == 'xml':
            return None
        return kind, '%s.%s = %r' % (n[0], a, n[1][a][1])
    if kind == 'both_conditions':
        n = pick(rng, f)
        n[1].setdefault('if', ['raw', rng.choice(['true', 'false', '$(var flag)'])])
        n[1].setdefault('unless', ['raw', rng.choice(['true', 'false', '$(var flag)'])])
        return kind, n[0]
    if kind == 'nested':
        n = pick(rng, f, lambda n: 'children' not in SCHEMA[n[0]][1])
        tags = [t for t in list(SCHEMA) + ['keep', 'env', 'choice', 'arg', 'foo']
                if t not in SCHEMA[n[0]][1]]
        nested = rng.choice(tags)
        if form == 'yaml' and rng.random() < .4:
            n[1]['children'] = ['raw', [{'log': {'message': 'x'}}]]
            return kind, '%s > children' % n[0]
        if form == 'yaml' and nested in SCHEMA[n[0]][0]:
            return None
        n[3].append([nested, {'name': ['raw', 'a'], 'value': ['raw', 'b']}, [], []])
        return kind, '%s > %s' % (n[0], nested)
    if kind == 'substitution':
        options = [(n, a) for n in walk(f['nodes']) for a, v in n[1].items() if v[0] == 'a']
        options += [(e, a) for n in walk(f['nodes']) for e in n[3] for a, v in e[1].items()
                    if v[0] == 'a']
        if not options:
            return None
        n, a = rng.choice(options)
        text = rng.choice(BROKEN)
        n[1][a] = ['raw', text]
        return kind, '%s.%s = %s' % (n[0], a, text)
    if kind == 'on_exit':
        n = pick(rng, f, lambda n: n[0] == 'executable')
        if n is None:
            return None
        n[1]['on_exit'] = ['raw', rng.choice(['Shutdown', 'exit', '', 'shutdown ', 'respawn', '1'])]
        return kind, n[1]['on_exit'][1]
    # of sub-elements
    n = pick(rng, f, lambda n: n[3])
    if n is None:
        return None
    e = rng.choice(n[3])
    if kind == 'sub_missing':
        name = attr or rng.choice(SUB[e[0]])
        del e[1][name]
        return kind, '%s.%s' % (e[0], name)
    way = attr or rng.choice(['attribute', 'type', 'nested'])
    if way == 'type' and form == 'xml':
        return None
    if way == 'attribute':
        name = rng.choice([a for a in OTHER + ['if', 'unless', 'default'] if a not in e[1]] + [
            typo(rng, 'value')])
        e[1][name] = ['raw', rng.choice(['v', 'true', ''])]
        return kind, '%s > %s.%s' % (n[0], e[0], name)
    if way == 'type':
        e[1][rng.choice(SUB[e[0]])] = ['raw', rng.choice(WRONG['str'][1])]
        return kind, '%s > %s wrong type' % (n[0], e[0])
    nested = rng.choice(['env', 'keep', 'arg', 'choice', 'let', 'foo'])
    e[3].append([nested, {'name': ['raw', 'a'], 'value': ['raw', 'b']}, [], []])
    return kind, '%s > %s > %s' % (n[0], e[0], nested)


def mutate_xml(rng, text):
    """Damage the text."""
    text = re.sub('<!--.*?-->', '', text, flags=re.DOTALL)
    way = rng.choice(['root', 'truncate', 'insert', 'empty', 'twice', 'close', 'attribute', 'entity'])
    end = text.rindex('</launch') if '</launch' in text else len(text) - 3
    inside = [k for k in range(end) if text[k] == '<' and text[k + 1:k + 2].isalpha() and k > 30]
    if way == 'root':
        name = rng.choice(['Launch', 'launchs', 'group', 'x', 'executable', 'let'])
        start = text.index('<launch')
        out = text[:start] + '<' + name + text[start + 7:]
        if '</launch' in out:
            k = out.rindex('</launch')
            out = out[:k] + '</' + name + out[k + 8:]
        return 'root', out
    if way == 'truncate':
        return 'syntax', text[:rng.randrange(text.index('<launch') + 1, end)]
    if way == 'empty':
        return 'root', rng.choice(['', ' ', '\n', '<!-- c -->', '<?xml version="1.0"?>'])
    if way == 'twice':
        return 'root', text + rng.choice(['<launch/>', '<log message="x"/>', 'text', text])
    if not inside:
        return None
    k = rng.choice(inside)
    if way == 'close':
        return 'syntax', text[:k] + rng.choice(['</x>', '</launch>', '</>', '<', '<a', '<log>', '< ']) + \
            text[k:]
    if way == 'entity':
        return 'syntax', text[:k] + rng.choice(['&', '&nope;', '&#xZ;', '\x00', '\x01', ']]>', '<!x',
                                                '<!-- a -- b -->', '<?xml version="1.0"?>']) + text[k:]
    if way == 'attribute':
        return 'syntax', text[:k] + rng.choice([
            '<log message=x/>', '<log message/>', '<log message="x" message="x"/>', '<log "x"/>',
            '<log message="a<b"/>', '<log message="x"message2=\'/>', '<let name="a"value="b"/']) + text[k:]
    return 'syntax', text[:k] + rng.choice(['<1a/>', '<a:b/>', '<log message="&"/>', '</']) + text[k:]


def mutate_yaml(rng, tree, dump):
    """Damage the tree or its text."""
    way = rng.choice(['root', 'structure', 'structure', 'body', 'text', 'launch', 'empty'])
    if way == 'empty':
        return 'root', rng.choice(['', '---\n', '# c\n', '[]', '{}', 'launch', 'null', '42', '- launch'])
    if way == 'root':
        body = tree['launch']
        return 'root', dump(rng.choice([
            {'Launch': body}, {'launch': body, 'extra': 1}, {'launch': body, 'let': {}}, [tree],
            {'group': body}, {'launchs': body}]))
    if way == 'launch':
        return 'root', dump({'launch': rng.choice([
            'text', 5, None, True, {'log': {'message': 'x'}}, {'children': None}, {'children': 5},
            {'children': {'log': {'message': 'x'}}}, {'children': 'log'}, {'children': ''},
            {'children': {}}, {'deprecated': 5, 'children': []}, {}])})
    if way == 'text':
        text = dump(tree)
        return 'syntax', rng.choice([
            text + '\n  - ]', text + '\n}', '{' + text, 'a: [\n' + text, text + '\n"unclosed',
            '%bad\n' + text, text + '\n\t- x: y\n:', '&a *b\n' + text, '!!python/object:x.y {}\n',
            'launch: *unknown\n', 'launch: [a, b\n', '--- x\n' + text + '\n--- y\n'])
    lists = []

    def visit(nodes):
        lists.append(nodes)
        for item in nodes:
            body = next(iter(item.values()))
            if isinstance(body, list):
                visit(body)
            elif isinstance(body, dict) and isinstance(body.get('children'), list):
                visit(body['children'])
    visit(tree['launch'] if isinstance(tree['launch'], list) else tree['launch']['children'])
    where = rng.choice(lists)
    if way == 'structure':
        where.insert(rng.randint(0, len(where)), rng.choice([
            {}, 'log', 'x', 5, None, [], ['log'], {'log': {'message': 'a'}, 'reset_env': {}},
            True, {'log': {'message': 'a'}, 'unless': 'false'}, {'log': {'message': 'a'}, 'z': 5}, {1: {}}, {None: {}}, [{'log': {'message': 'a'}}]]))
        return 'structure', dump(tree)
    if not where:
        return None
    item = rng.choice(where)
    tag = next(iter(item))
    wrong = ['text', 'name', 5, True, ['name'], [{'name': 'a', 'value': 'b'}]]
    if tag == 'group':
        wrong = ['text', 5, True, {'children': 'text'}, {'children': {'log': {'message': 'x'}}}, {},
                 {'keep': {'name': 'a', 'value': 'b'}, 'children': []}, {'children': {}},
                 {'keep': ['x'], 'children': []}, {'keep': 'x', 'children': []}]
    if tag == 'reset':
        wrong += [{'keep': {'name': 'a', 'value': 'b'}}, {'keep': 'x'}, {'keep': ['x']},
                  {'keep': [None]}]
    if tag == 'timer':
        wrong += [{'period': 1.0}, {'period': 1.0, 'children': 'x'}, {'period': 1.0, 'children': {}},
                  {'period': 1.0, 'children': ['x']}]
    item[tag] = rng.choice(wrong)
    return 'structure', dump(tree)


# ------------------------------------------------------------------ execution

def emit(rng, layout, f, form):
    return fronts.emit(rng, layout, f, form)


def mutant(rng, layout, f, form, focus):
    """Return (kind, detail, text)."""
    for _ in range(20):
        f2 = json.loads(json.dumps(f))
        try:
            if focus or rng.random() < .6:
                done = mutate(rng, f2, form, focus)
                if done is not None:
                    return done + (fronts.emit(rng, layout, f2, form),)
                continue
            if form == 'xml':
                done = mutate_xml(rng, fronts.emit(rng, layout, f2, form))
            else:
                y = fronts.Yaml(rng, layout)
                done = mutate_yaml(rng, y.tree(f2), yaml.safe_dump)
            if done is not None:
                return done[0], '', done[1]
        except fronts.Unwritable:
            pass
    return None


def loaders(path, form):
    def load():
        entity, parser = Parser.load(path)
        return parser.parse_description(entity)

    def stream():
        with open(path) as f:
            entity, parser = Parser.load(f)
            return parser.parse_description(entity)

    def source(cls):
        return lambda: cls(path).get_launch_description(LaunchContext())
    return [load, stream, source(AnyLaunchDescriptionSource), source(FrontendLaunchDescriptionSource),
            source(XMLLaunchDescriptionSource if form == 'xml' else YAMLLaunchDescriptionSource)]


PLAN = {}


@expose_action('vf_custom')
class Custom(Action):
    """An action of a user with attributes, lists of entities and children as in PLAN."""

    def __init__(self, **kwargs):
        super().__init__(condition=kwargs.pop('condition', None))
        self.got = kwargs

    @classmethod
    def parse(cls, entity, parser):
        _, kwargs = super().parse(entity, parser)
        for name, required in PLAN['reads']:
            kwargs[name] = entity.get_attr(name, optional=not required)
        for name, required in PLAN['lists']:
            items = entity.get_attr(name, data_type=List[Entity], optional=not required)
            kwargs[name] = items and [item.get_attr('value') for item in items]
            for item in items or []:
                if PLAN['checks']:
                    item.assert_entity_completely_parsed()
        if PLAN['children']:
            kwargs['children'] = [parser.parse_action(e) for e in entity.children]
        return cls, kwargs


def custom(obs, rng, form):
    """Check the errors for a custom action."""
    names = ['a', 'b-c', 'dd', 'E', 'if_', 'message']
    lists = ['item', 'thing']
    attrs = {n: rng.choice(['', 'v', '1']) for n in rng.sample(names, rng.randint(0, 3))}
    present = {n: [{'value': 'v%d' % k} for k in range(rng.randint(1, 3))]
               for n in lists if rng.random() < .3}
    extra = bool(present) and rng.random() < .2
    if extra:
        rng.choice(rng.choice(sorted(present.values())))['other'] = 'x'
    count = rng.choice([0, 0, 0, 1, 2])
    children = [{'log': {'message': 'm'}}] * count
    reads = [(n, n in attrs and rng.random() < .5) for n in names
             if rng.random() < (.95 if n in attrs else .5)]
    reads_lists = [(n, n in present and rng.random() < .5) for n in lists
                   if rng.random() < (.95 if n in present else .5)]
    if rng.random() < .1:
        reads.append(('missing', True))
    PLAN.update(reads=reads, lists=reads_lists, checks=rng.random() < .5, children=(
        form == 'yaml' and count > 0 or not present) and rng.random() < (.9 if count else .3))
    body = {**attrs, **present}
    read = {n for n, _ in reads} | {n for n, _ in reads_lists}
    wrong = bool(set(body) - read) or ('missing', True) in reads
    wrong |= extra and PLAN['checks']
    wrong |= bool(count) and not PLAN['children']
    if form == 'yaml':
        if count:
            body['children'] = children
        elif PLAN['children']:
            wrong = True        # `children` is missing
        if count and not body.keys() - {'children'} and rng.random() < .3:
            # only a list, which has no attributes
            body = children
        text = yaml.safe_dump({'launch': [{'vf_custom': body}]})
    else:
        # children and lists cannot be told apart
        if PLAN['children']:
            read |= set(present)
        root = ET.Element('launch')
        element = ET.SubElement(root, 'vf_custom', attrs)
        for n, items in present.items():
            for item in items:
                ET.SubElement(element, n, item)
        for child in children:
            ET.SubElement(element, 'log', child['log'])
        text = ET.tostring(root, encoding='unicode')
    try:
        entity, parser = Parser.load(io.StringIO(text))
        description = parser.parse_description(entity)
    except Exception as exc:
        obs.count('custom_rejected')
        if not wrong:
            obs.fail('custom', 'a well-formed entity was rejected: %r\n%s\nread: %s' % (
                exc, text, PLAN))
        return
    if wrong:
        obs.fail('custom', 'a malformed entity was accepted:\n%s\nread: %s' % (text, PLAN))
        return
    obs.count('custom_accepted')
    expected = {n: attrs.get(n) for n, _ in reads}
    expected.update({n: [i['value'] for i in present[n]] if n in present else None
                     for n, _ in reads_lists})
    got = dict(description.entities[0].got)
    got.pop('children', None)
    obs.equal(got, expected, 'custom', 'attributes of a custom action in %s' % text)


def exposing(obs, rng):
    """Wrong uses of expose_action and expose_substitution are errors which change nothing."""
    from launch.frontend import expose_substitution

    class NoParse:
        pass

    def parse(entity, parser):
        return LogInfo, {'msg': 'taken over'}

    def parse_text(data):
        return TextSubstitution, {'text': 'taken over'}
    for what, function in [
            ('a class without parse', lambda: expose_action('vf_x')(NoParse)),
            ('no callable', lambda: expose_action('vf_x')(5)),
            ('a substitution without parse', lambda: expose_substitution('vf_x')(NoParse)),
            ('a second action of the name', lambda: expose_action('log')(parse)),
            ('a second substitution of the name', lambda: expose_substitution('var')(parse_text))]:
        try:
            function()
        except RuntimeError:
            obs.count('exposing')
        else:
            obs.fail('expose', 'exposing %s was accepted' % what)
    text = '<launch><log message="$(var a b)"/></launch>'
    entity, parser = Parser.load(io.StringIO(text))
    action = parser.parse_description(entity).entities[0]
    obs.equal(perform_substitutions(LaunchContext(), action.msg), 'b', 'expose',
              'message of %s after wrong uses of expose' % text)
    try:
        entity, parser = Parser.load(io.StringIO('<launch><vf_x/></launch>'))
        parser.parse_description(entity)
    except Exception:
        return
    obs.fail('expose', 'an action which could not be exposed is known')


def run(case, obs):
    rng = random.Random(case['seed'])
    for _ in range(8):
        custom(obs, rng, 'xml')
        custom(obs, rng, 'yaml')
    exposing(obs, rng)
    for n, form in enumerate(['xml', 'yaml']):
        one(case, obs, random.Random(case['seed'] + n), form)
    obs.sig(case['file'])


def one(case, obs, rng, form):
    base = tempfile.mkdtemp(prefix='c22-')
    try:
        layout = fronts.Layout(rng, base, [form])
        path = layout.path(0)
        try:
            good = fronts.emit(rng, layout, case['file'], form)
        except fronts.Unwritable:
            obs.count('unwritable')
            return

        def put(text):
            with open(path, 'w', encoding='utf-8') as out:
                out.write(text)

        def accept(when):
            put(good)
            try:
                description = rng.choice(loaders(path, form))()
            except Exception as exc:
                obs.fail('accept', 'a well-formed file was rejected %s: %r\n%s' % (
                    when, exc, good[:1500]))
                return
            obs.count('accepted')
            if not isinstance(description, LaunchDescription) or \
                    len(description.entities) != len(case['file']['nodes']):
                obs.fail('accept', 'a well-formed file gave %r %s' % (description, when))
        accept('at first')
        for focus in case['focus'] + [None] * case['mutants']:
            m = mutant(rng, layout, case['file'], form, focus)
            if m is None:
                continue
            kind, detail, text = m
            put(text)
            what = '%s %s (%s)' % (form, kind, detail)
            for k in rng.sample(range(5), 2):
                try:
                    got = loaders(path, form)[k]()
                except Exception:
                    obs.count('rejected')
                    continue
                obs.fail('accepted', '%s: the file was accepted by loader %d: %s\n%s' % (
                    what, k, getattr(got, 'entities', got), text[:1500]))
                return
            obs.count(form)
            obs.count('m_' + kind)
            if rng.random() < .25:
                launched(case, obs, rng, layout, what, text)
            if rng.random() < .3:
                accept('after %s' % what)
    finally:
        shutil.rmtree(base)


def launched(case, obs, rng, layout, what, text):
    """Include a malformed file: nothing of it is executed and the launch fails."""
    from launch.actions import GroupAction, LogInfo
    from launch import LaunchDescriptionSource
    probe = [LogInfo(msg='before'), fronts_include(rng, layout.path(0)), LogInfo(msg='after')]
    if rng.random() < .3:
        probe = [GroupAction(probe)]
    source = LaunchDescriptionSource(LaunchDescription(probe), 'x', 'test')
    entries, result = fronts.launch_it(source, layout, case['procs'], [], {})
    obs.count('launched')
    if result.rc != 1 or result.deadlock or result.error is not None:
        obs.fail('launched', '%s: the launch ended with %r %r\n%s' % (
            what, result.rc, result.error, text[:1000]))
    logs = [e[4] for e in entries if e[1] == 'log' and e[2] == 'launch.user']
    obs.equal(logs, ['before'], 'launched', '%s: log messages of the launch' % what)
    if any(e[0] == 'process' for e in entries):
        obs.fail('launched', '%s: a process was started\n%s' % (what, text[:1000]))
    errors = [e for e in entries if e[1] == 'log' and e[3] == 'ERROR']
    if not errors:
        obs.fail('launched', '%s: no error was reported' % what)


def fronts_include(rng, path):
    from launch.actions import IncludeLaunchDescription
    return IncludeLaunchDescription(rng.choice([
        path, AnyLaunchDescriptionSource(path), FrontendLaunchDescriptionSource(path)]))


__all__ = ['os']
