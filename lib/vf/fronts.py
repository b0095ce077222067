"""Random launch files in abstract form, as XML, YAML and Python, and records of launching them.

A file is a dict {'deprecated': str | None, 'nodes': [node, ...]}.
A node is a list [tag, {attribute: value}, [nested nodes], [sub-elements]].  Sub-elements are e.g. the
`keep` of a group.  Values:

  ['a', Arg]     text with substitutions            ['s', str]    text without substitutions
  ['k', str]     a keyword                          ['b', bool]  ['i', int]  ['f', float]
  ['c', [Arg]]   a command line                     ['file', number, how]   path of another file
"""
import json
import logging
import os
import random
import re
import shlex

import launch.logging
from launch import LaunchDescription
from launch.actions import (AppendEnvironmentVariable, DeclareLaunchArgument, ExecuteProcess,
                            GroupAction, IncludeLaunchDescription, LogInfo, ResetEnvironment,
                            ResetLaunchConfigurations, SetEnvironmentVariable,
                            SetLaunchConfiguration, Shutdown, TimerAction,
                            UnsetEnvironmentVariable)
from launch.conditions import IfCondition, UnlessCondition
from launch.frontend import Parser
from launch.launch_description_sources import (AnyLaunchDescriptionSource,
                                               FrontendLaunchDescriptionSource,
                                               PythonLaunchDescriptionSource)
from launch_xml.launch_description_sources import XMLLaunchDescriptionSource
from launch_yaml.launch_description_sources import YAMLLaunchDescriptionSource
import yaml

from . import subs
from .kit import Handler, execute, finish, new_service
from .procs import when

NAMES = subs.CONFIGS
ENVS = subs.ENVS[:4]
TEXTS = [t for t in subs.TEXTS] + ['$(var a)', 'a b c', ' ', '\\ ', '&lt;', '<!--', ']]>', '- x', '#',
                                   'true', '1', 'null', '{a: b}', '[1]', '@', '!x', '*a', '| ', "''"]
LITERALS = ['word', 'a description', 'x=y', 'tab\tx', 'ü', 'back\\slash', '$(var a)', '$', "it's",
            '"q"', 'a & b < c', '', 'k: v', '- x', '# c', 'true', '12']
WITHOUT = ['py', 'local', 'join', 'command', 'file', 'find', 'anon']
SAFE = re.compile(r'[A-Za-z0-9_./:=,+@%~-]+\Z')


# ------------------------------------------------------------------ generation

class Gen:

    def __init__(self, rng, wrong=.01):
        self.rng = rng
        self.subs = subs.Gen(rng, wrong=wrong, texts=TEXTS, without=WITHOUT,
                             bare=wrong, words=['true', 'True', 'TRUE', '1', 'false', 'False',
                                               'FALSE', '0'])
        self.tag = 0
        self.files = []
        self.procs = {}

    def arg(self, kind='text', depth=None):
        rng = self.rng
        for _ in range(8):
            arg = self.subs.arg(rng.choice([0, 1, 1, 2, 3]) if depth is None else depth, kind)
            try:
                text = subs.Writer(rng).top(arg)
            except subs.Unwritable:
                continue
            if len(text) < 300:
                return ['a', arg]
        return ['a', self.subs.lit('plain' if kind == 'text' else 'true')]

    def lit(self, s):
        return ['a', self.subs.lit(s)]

    def name(self, names):
        if self.rng.random() < .12:
            return ['a', [['config', [['text', 'surely absent']], [['text', names[0]]]]]]
        return self.lit(self.rng.choice(names))

    def condition(self):
        rng = self.rng
        if rng.random() < .75:
            return {}
        return {rng.choice(['if', 'unless']): self.arg('bool')}

    def probe(self):
        """Log what can be seen of the state."""
        self.tag += 1
        parts = [['text', 'probe %d' % self.tag]]
        for name in NAMES:
            parts += [['text', '|'], ['config', [['text', name]], [['text', '<none>']]]]
        for name in ENVS:
            parts += [['text', '|'], ['env', [['text', name]], [['text', '<none>']]]]
        return ['log', {'message': ['a', parts]}, [], []]

    def keeps(self, tag):
        rng = self.rng
        names = NAMES if tag == 'keep' else ENVS
        return [[tag, {'name': self.lit(n), 'value': self.arg()}, [], []]
                for n in rng.sample(names, rng.randint(0, 2))]

    def nodes(self, depth, most=5):
        rng = self.rng
        out = []
        for _ in range(rng.randint(1, most)):
            out.append(self.node(depth))
            if rng.random() < .3:
                out.append(self.probe())
        return out

    def node(self, depth):
        rng = self.rng
        kinds = ['let'] * 4 + ['set_env'] * 2 + ['unset_env', 'append_env', 'append_env', 'log',
                                                 'log'] + ['executable'] * 5
        if depth < 4:
            kinds += ['group'] * 3 + ['timer'] * 2 + ['include'] * 2
        kinds += ['reset', 'reset_env'] if rng.random() < .4 else []
        kinds += ['shutdown'] if rng.random() < .06 else []
        kind = rng.choice(kinds)
        attrs, children, extra = self.condition(), [], []
        if kind == 'let':
            attrs.update(name=self.name(NAMES), value=self.arg())
        elif kind == 'set_env':
            attrs.update(name=self.name(ENVS), value=self.arg())
        elif kind == 'unset_env':
            attrs.update(name=self.name(ENVS))
        elif kind == 'append_env':
            attrs.update(name=self.name(ENVS), value=self.arg())
            if rng.random() < .6:
                attrs['prepend'] = ['b', rng.random() < .5] if rng.random() < .5 else \
                    ['a', [['if', [['config', self.lit('flag')[1], self.lit('yes')[1]]],
                            self.lit('true')[1], self.lit('off')[1]]]]
            if rng.random() < .5:
                attrs['separator'] = self.arg(depth=0)
        elif kind == 'reset':
            extra = self.keeps('keep')
        elif kind == 'log':
            attrs.update(message=self.arg())
        elif kind == 'shutdown':
            if rng.random() < .6:
                attrs['reason'] = self.arg(depth=1)
                attrs['reason'][1].append(['text', '.'])
        elif kind == 'group':
            if rng.random() < .6:
                attrs['scoped'] = ['b', rng.random() < .6]
            if rng.random() < .4:
                attrs['forwarding'] = ['b', rng.random() < .6]
            if rng.random() < .4:
                extra = self.keeps('keep')
                for e in extra:
                    e[1]['value'] = self.lit(rng.choice(TEXTS))
            children = self.nodes(depth + 1)
        elif kind == 'timer':
            t = when(rng, 8.)
            attrs['period'] = ['f', t] if rng.random() < .6 else \
                ['a', [['config', self.lit('surely absent')[1], self.lit(str(t))[1]]]]
            if rng.random() < .3:
                attrs['cancel_on_shutdown'] = ['b', rng.random() < .5] if rng.random() < .5 else \
                    ['a', [['config', self.lit('surely absent')[1],
                            self.lit(rng.choice(['true', 'false', 'on', '0']))[1]]]]
            children = self.nodes(depth + 1, 3)
        elif kind == 'include':
            if len(self.files) >= 5:
                return self.probe()
            number = self.file(depth + 1)
            attrs['file'] = ['file', number, rng.choice(['abs', 'dirname', 'config'])]
            extra = [['arg', {'name': self.name(NAMES), 'value': self.arg()}, [], []]
                     for _ in range(rng.randint(0, 2))]
            for n in self.files[number]['nodes']:
                if n[0] == 'arg' and ('default' not in n[1] or rng.random() < .4) and \
                        rng.random() < .97:
                    value = self.arg()
                    if n[3]:
                        value = self.lit(rng.choice(n[3])[1]['value'][1])
                    extra.append(['arg', {'name': self.lit(n[1]['name'][1]), 'value': value}, [], []])
        elif kind == 'executable':
            attrs.update(self.executable())
            extra = self.keeps('env')
        return [kind, attrs, children, extra]

    def executable(self):
        rng = self.rng
        self.tag += 1
        token = 'p%d' % self.tag
        life = {'out': [], 'exit': None if rng.random() < .25 else
                [when(rng, rng.choice([.5, 9.])), rng.choice([0, 0, 1, -9])], 'sig': {
                    '2': rng.choice([None, [when(rng, .1), 0], [when(rng, 2.), -2]]),
                    '15': rng.choice([None, [when(rng, .1), -15], [when(rng, 2.), 1]])}}
        if rng.random() < .4:
            life['out'] = [[when(rng, .2), rng.choice([1, 2]), rng.choice(['line\n', 'a\nb\n', 'end'])]]
        self.procs[token] = life
        cmd = [self.lit('sim')[1], [['text', token]]]
        for _ in range(rng.randint(0, 4)):
            cmd.append(self.word())
        out = {'cmd': ['c', cmd]}
        if rng.random() < .3:
            out['cwd'] = self.lit(rng.choice(['/', '/tmp', '/usr']))
        if rng.random() < .3:
            out['name'] = self.lit(rng.choice(['node', 'twin', 'n-1']))
        if rng.random() < .1:
            out['on_exit'] = ['k', 'shutdown']
        if rng.random() < .15:
            out['launch-prefix'] = self.lit(rng.choice(['nice -n 5', 'env', "pre 'a b' x", '']))
        if rng.random() < .4:
            out['output'] = self.lit(rng.choice(['screen', 'log', 'both', 'own_log', 'full']))
        if rng.random() < .3:
            out['respawn'] = self.arg('bool', depth=rng.choice([0, 1]))
            if rng.random() < .6:
                out['respawn_max_retries'] = ['i', rng.choice([0, 1, 2, 3, -1])]
            out['respawn_delay'] = ['f', round(1. + when(rng, 3.), 6)]
        elif rng.random() < .15:
            out['respawn_max_retries'] = ['i', 2]
            out['respawn_delay'] = ['f', rng.choice([0., 1.5])]
        for key in ('sigkill_timeout', 'sigterm_timeout'):
            if rng.random() < .25:
                out[key] = ['f', rng.choice([0.5, 2., 4.25, 0.125, 10.])]
        if rng.random() < .15:
            out['shell'] = ['b', rng.random() < .6]
        if rng.random() < .15:
            out['emulate_tty'] = ['b', rng.random() < .5]
        return out

    def word(self):
        """An argument of a command line."""
        rng = self.rng
        if rng.random() < .5:
            return [['text', rng.choice(['-x', '--opt', 'a b', 'w', "it's", 'dq"', '', '$x', 'back\\s',
                                         '#', '$(no', '"', '&', 'ü', '()', 'a;b', '*', '~', '\\'])]]
        out = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .5:
                out.append(['text', rng.choice(['pre', '/', 'a.b', '-o=', '--', ':', 'x'])])
            else:
                out.append(['config', self.lit(rng.choice(NAMES))[1],
                            self.lit(rng.choice(['', 'v', 'two words', 'q"']))[1]])
        return out

    def file(self, depth):
        rng = self.rng
        number = len(self.files)
        self.files.append(None)
        nodes = []
        for k in range(rng.choice([0, 0, 1, 2, 3])):
            choices = rng.sample(['c1', 'c 2', '$', "q'", 'ü', 'back\\slash'], 3) \
                if rng.random() < .35 else []
            attrs = {'name': ['s', rng.choice(['arg%d_%d', 'arg %d %d', 'a.%d-%d']) % (k, number)]}
            if rng.random() < (.7 if number else .99):
                attrs['default'] = self.lit(rng.choice(choices)) if choices else self.arg()
            if rng.random() < .4:
                attrs['description'] = ['s', rng.choice(LITERALS)]
            nodes.append(['arg', {**attrs, **(self.condition() if rng.random() < .3 else {})}, [],
                          [['choice', {'value': ['s', c]}, [], []] for c in choices]])
        nodes += self.nodes(depth, 9 if not depth else 4)
        for n in nodes:
            if n[0] == 'arg' and rng.random() < .5:
                nodes.append(['log', {'message': ['a', [['text', 'argument '], [
                    'config', [['text', n[1]['name'][1]]], [['text', '<none>']]]]]}, [], []])
        nodes.append(self.probe())
        if number == 0:
            nodes.append(['timer', {'period': ['f', round(40. + when(rng, 5.), 6)]},
                          [self.probe(), ['shutdown', {'reason': self.lit('the end')}, [], []]], []])
        self.files[number] = {'deprecated': rng.choice([None] * 9 + ['old file']), 'nodes': nodes}
        return number


def gen(rng, wrong=.01):
    g = Gen(rng, wrong)
    g.file(0)
    return {'files': g.files, 'procs': g.procs}


def walk(nodes):
    for n in nodes:
        yield n
        yield from walk(n[2])
        yield from walk(n[3])


# ------------------------------------------------------------------ emission

class Layout:
    """Where the files of a program are and in which formats."""

    EXTENSIONS = {
        'xml': ['.launch.xml', '.xml', '.launch', '', '.foo', '.launch.xml'],
        'yaml': ['.launch.yaml', '.launch.yml', '.yaml', '.yml', '.launch', '', '.foo'],
        'py': ['.launch.py', '.py', '.launch.py', '', '.foo'],
    }

    def __init__(self, rng, base, formats):
        self.base, self.formats = base, formats
        self.names = ['file%d%s' % (n, rng.choice(self.EXTENSIONS[f]))
                      for n, f in enumerate(formats)]
        if rng.random() < .08:
            # the extension is wrong, the content counts
            n = rng.randrange(len(formats))
            wrong = {'xml': ['.yaml', '.py'], 'yaml': ['.xml'], 'py': ['.xml', '.yaml']}
            self.names[n] = 'file%d%s' % (n, rng.choice(wrong[formats[n]]))

    def path(self, number):
        return os.path.join(self.base, self.names[number])

    def arg(self, value):
        _, number, how = value
        if how == 'abs':
            return [['text', self.path(number)]]
        if how == 'dirname':
            return [['dirname'], ['text', '/' + self.names[number]]]
        return [['config', [['text', 'surely absent']], [['text', self.path(number)]]]]


class Unwritable(Exception):
    pass


class Emitter:

    def __init__(self, rng, layout):
        self.rng, self.layout = rng, layout

    def arg(self, arg):
        for _ in range(30):
            try:
                return subs.Writer(self.rng).top(arg)
            except subs.Unwritable:
                pass
        raise Unwritable()

    def command(self, args):
        rng, out = self.rng, []
        for arg in args:
            word = ''
            if all(n[0] == 'text' for n in arg):
                text = ''.join(n[1] for n in arg)
                word = subs.Writer(rng).literal(
                    text if SAFE.match(text) and rng.random() < .8 else shlex.quote(text))
            else:
                for n in arg:
                    word += n[1] if n[0] == 'text' else self.arg([n])
            out.append(word)
        text = out[0]
        for word in out[1:]:
            text += rng.choice([' ', ' ', ' ', '  ', '\n', '\t', ' \n   ']) + word
        return rng.choice(['', '', ' ', '\n ']) + text + rng.choice(['', '', ' ', '\n'])

    def text(self, value):
        """Return the text of an attribute for formats without types."""
        kind, v = value[0], value[1]
        rng = self.rng
        if kind == 'a':
            return self.arg(v)
        if kind == 'file':
            return self.arg(self.layout.arg(value))
        if kind == 's':
            return subs.Writer(rng).literal(v)
        if kind in ('k', 'raw'):
            return str(v)
        if kind == 'c':
            return self.command(v)
        if kind == 'b':
            return rng.choice(['true', 'True', '1', 'on', 'yes'] if v else
                              ['false', 'False', '0', 'off', 'no'])
        if kind == 'f' and v == int(v) and rng.random() < .5:
            return str(int(v))
        return str(v)


class Xml(Emitter):

    def escape(self, s, quote):
        rng = self.rng
        out = ''
        for c in s:
            if c in '<&' or c == quote:
                out += {'<': '&lt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}[c]
            elif c in '\t\n\r':
                out += '&#%d;' % ord(c)
            elif c == '>':
                out += rng.choice(['>', '&gt;'])
            elif rng.random() < .005:
                out += '&#x%x;' % ord(c)
            else:
                out += c
        return out

    def space(self):
        return self.rng.choice([' ', ' ', ' ', '\n', '  ', '\t'])

    def element(self, tag, attrs, children, indent=0):
        rng = self.rng
        items = list(attrs.items())
        rng.shuffle(items)
        out = '<' + tag
        for name, text in items:
            quote = rng.choice('""\'')
            out += self.space() + name + rng.choice(['=', '=', '=', ' = ']) + quote + \
                self.escape(text, quote) + quote
        if not children and rng.random() < .8:
            return out + rng.choice(['/>', ' />'])
        out += rng.choice(['>', '>', ' >'])
        for child in children:
            out += rng.choice(['\n' + '  ' * indent, '\n', ' ', ''])
            if rng.random() < .04:
                out += rng.choice(['<!-- comment <let/> -->', '<!---->', '<?note x?>'])
            out += child
        return out + rng.choice(['', '\n']) + '</' + tag + rng.choice(['', '', ' ']) + '>'

    def node(self, n, depth):
        tag, attrs, children, extra = n
        subs_ = [self.node(e, depth + 1) for e in extra]
        nested = [self.node(c, depth + 1) for c in children]
        if tag == 'group':
            # may be anywhere among the children
            for e in subs_:
                k = self.rng.randint(0, len(nested))
                nested.insert(k, e) if len(subs_) == 1 else nested.append(e)
        else:
            nested = subs_ + nested
        return self.element(tag, {k: self.text(v) for k, v in attrs.items()}, nested, depth)

    def file(self, f):
        attrs = {} if f['deprecated'] is None else {'deprecated': f['deprecated']}
        return self.rng.choice(['', '<?xml version="1.0"?>\n', '<!-- c -->\n']) + self.element(
            'launch', attrs, [self.node(n, 1) for n in f['nodes']], 1) + '\n'


class Yaml(Emitter):

    def node(self, n):
        tag, attrs, children, extra = n
        body = {}
        items = list(attrs.items())
        self.rng.shuffle(items)
        for name, value in items:
            body[name] = value[1] if value[0] in ('b', 'i', 'f', 'raw') else self.text(value)
        for e in extra:
            body.setdefault(e[0], []).append(self.node(e)[e[0]])
        if tag in ('group', 'timer'):
            nested = [self.node(c) for c in children]
            if tag == 'group' and not body and self.rng.random() < .5:
                return {tag: nested}
            body['children'] = nested
        elif tag in ('reset', 'include', 'executable') and not extra and self.rng.random() < .05:
            body[{'reset': 'keep', 'include': 'arg', 'executable': 'env'}[tag]] = []
        return {tag: body}

    def file(self, f):
        return self.dump(self.tree(f))

    def tree(self, f):
        nodes = [self.node(n) for n in f['nodes']]
        if f['deprecated'] is None and self.rng.random() < .7:
            tree = {'launch': nodes}
        else:
            tree = {'launch': {'children': nodes}}
            if f['deprecated'] is not None:
                tree['launch']['deprecated'] = f['deprecated']
        return tree

    def dump(self, tree):
        rng = self.rng
        while True:
            text = rng.choice(['', '---\n', '# comment\n']) + yaml.safe_dump(
                tree, sort_keys=rng.random() < .5, allow_unicode=rng.random() < .5,
                default_flow_style=rng.choice([None, False, False, True]),
                width=rng.choice([20, 80, 10000]), indent=rng.choice([2, 4]),
                default_style=rng.choice([None, None, None, '"', "'"]))
            if yaml.safe_load(text) == tree:    # the emitter has defects for narrow texts
                return text


PYTHON_FILE = '''"""A launch file."""
from vf.fronts import Python


def generate_launch_description():
    return Python(%d, %r, %r, %r).file(%r)
'''


class Python:
    """Makes launch descriptions with the Python API."""

    def __init__(self, seed, base, names, formats):
        self.rng = random.Random(seed)
        self.layout = Layout(self.rng, base, formats)
        self.layout.names = names
        self.build = subs.Builder(self.rng)

    def value(self, value):
        kind, v = value[0], value[1]
        if kind == 'a':
            return self.build.arg(v)
        if kind == 'file':
            return self.build.arg(self.layout.arg(value))
        if kind == 'c':
            out = []
            for arg in v:
                # lists of texts would be several arguments
                items = [self.build.node(n) for n in arg]
                if len(arg) == 1 and arg[0][0] == 'text' and self.rng.random() < .7:
                    items = arg[0][1]
                out.append(items)
            return out
        return v

    def mapping(self, extra):
        return {tuple(self.build.node(x) for x in e[1]['name'][1]): self.value(e[1]['value'])
                for e in extra}

    def node(self, n):
        tag, attrs, children, extra = n
        kw = {k: self.value(v) for k, v in attrs.items()}
        for k in ('respawn', 'prepend', 'period', 'cancel_on_shutdown'):
            if k in kw and attrs[k][0] == 'a':      # a plain text is no value of these
                kw[k] = [self.build.node(x) for x in attrs[k][1]]
        if 'if' in kw:
            kw['condition'] = IfCondition(kw.pop('if'))
        if 'unless' in kw:
            kw['condition'] = UnlessCondition(kw.pop('unless'))
        nested = [self.node(c) for c in children]
        if tag == 'let':
            return SetLaunchConfiguration(**kw)
        if tag == 'set_env':
            return SetEnvironmentVariable(**kw)
        if tag == 'unset_env':
            return UnsetEnvironmentVariable(**kw)
        if tag == 'append_env':
            return AppendEnvironmentVariable(**kw)
        if tag == 'reset':
            if extra:
                kw['launch_configurations'] = self.mapping(extra)
            return ResetLaunchConfigurations(**kw)
        if tag == 'reset_env':
            return ResetEnvironment(**kw)
        if tag == 'log':
            return LogInfo(msg=kw.pop('message'), **kw)
        if tag == 'shutdown':
            return Shutdown(**kw)
        if tag == 'group':
            if extra:
                kw['launch_configurations'] = self.mapping(extra)
            return GroupAction(nested, **kw)
        if tag == 'timer':
            return TimerAction(actions=nested, **kw)
        if tag == 'arg':
            if extra:
                kw['choices'] = [e[1]['value'][1] for e in extra]
            if 'default' in kw:
                kw['default_value'] = kw.pop('default')
            return DeclareLaunchArgument(**kw)
        if tag == 'include':
            source = kw.pop('file')
            if self.rng.random() < .7:
                source = AnyLaunchDescriptionSource(source)
            elif isinstance(source, tuple):
                source = list(source)
            if extra:
                kw['launch_arguments'] = [
                    (self.value(e[1]['name']), self.value(e[1]['value'])) for e in extra]
            return IncludeLaunchDescription(source, **kw)
        assert tag == 'executable', tag
        if extra:
            kw['additional_env'] = self.mapping(extra)
        if 'launch-prefix' in kw:
            kw['prefix'] = kw.pop('launch-prefix')
        if kw.get('on_exit') == 'shutdown':
            kw['on_exit'] = [Shutdown()]
        for key in ('sigkill_timeout', 'sigterm_timeout'):
            if key in kw:
                kw[key] = str(kw[key])
        return ExecuteProcess(**kw)

    def file(self, text):
        f = json.loads(text)
        kw = {} if f['deprecated'] is None else {'deprecated_reason': f['deprecated']}
        return LaunchDescription([self.node(n) for n in f['nodes']], **kw)


def write(rng, files, base, formats):
    """Write all files of a program, return the layout."""
    layout = Layout(rng, base, formats)
    for number, f in enumerate(files):
        content = emit(rng, layout, f, formats[number])
        with open(layout.path(number), 'w', encoding='utf-8') as out:
            out.write(content)
    return layout


def emit(rng, layout, f, form):
    if form == 'xml':
        return Xml(rng, layout).file(f)
    if form == 'yaml':
        return Yaml(rng, layout).file(f)
    return PYTHON_FILE % (rng.randrange(1 << 30), layout.base, layout.names, layout.formats,
                          json.dumps(f))


# ------------------------------------------------------------------ execution

def source_for(rng, layout, number=0):
    path = layout.path(number)
    form = layout.formats[number]
    ways = [lambda: AnyLaunchDescriptionSource(path)] * 2
    if form == 'py':
        ways.append(lambda: PythonLaunchDescriptionSource(path))
    else:
        ways.append(lambda: FrontendLaunchDescriptionSource(path))
        ways.append(lambda: (XMLLaunchDescriptionSource if form == 'xml' else
                             YAMLLaunchDescriptionSource)(path))

        def load():
            from launch.launch_description_source import LaunchDescriptionSource
            if rng.random() < .5:
                entity, parser = Parser.load(path)
            else:
                with open(path) as f:
                    entity, parser = Parser.load(f)
            return LaunchDescriptionSource(parser.parse_description(entity), path, 'test')
        ways.append(load)
    return rng.choice(ways)()


class Record:
    """Records everything which can be observed of a launch."""

    def __init__(self, layout):
        self.layout = layout
        self.entries = []
        self.loop = None
        self.counters = {}

    def clean(self, text):
        for name in sorted(self.layout.names, key=len, reverse=True):
            text = text.replace(os.path.join(self.layout.base, name), '@' + name.split('.')[0])
        text = text.replace(self.layout.base, '@BASE')

        def number(m):
            return '%s-#%d' % (m.group(1), self.counters.setdefault(m.group(0), len(self.counters)))
        return re.sub(r'\b(sim|node|twin|n-1|nice|env|pre)-(\d+)(?!\d|\.\d)', number, text)

    def log(self, logger, record):
        if record.name == 'asyncio' or record.levelno < logging.INFO:
            return
        handlers = []
        for h in logger.handlers:
            name = type(h).__name__
            if hasattr(h, 'baseFilename'):
                name += ':' + self.clean(os.path.basename(h.baseFilename))
            handlers.append(name)
        message = record.getMessage()
        if record.levelno >= logging.ERROR:
            message = 'error'       # texts of errors may differ
        self.add('log', self.clean(record.name), record.levelname, self.clean(message),
                 sorted(handlers))

    def add(self, *entry):
        self.entries.append((round(self.loop.now, 6),) + entry)


def launch_it(source, layout, procs, arguments, env):
    """Launch a file in virtual time and return what was observed (comparable) and the outcome."""
    for name in list(os.environ):
        if name.startswith('VF_'):
            del os.environ[name]
    os.environ.update(env)
    initial = dict(os.environ)
    record = Record(layout)
    service, loop = new_service()
    record.loop = loop
    starts = {}

    def script(cmd):
        token = re.search(r'\bp\d+\b', ' '.join(cmd[:8])).group(0)
        starts[token] = starts.get(token, 0) + 1
        life = dict(procs[token])
        if starts[token] > 1 and life['exit'] is None:
            life['exit'] = [.7, 0]
        return life
    loop.script_of = script
    original = logging.Logger.handle

    def handle(logger, entry):
        record.log(logger, entry)
        return original(logger, entry)
    logging.Logger.handle = handle
    try:
        service.context.register_event_handler(Handler(
            lambda event: True, lambda event, context: record.add('event', event.name)))
        service.include_launch_description(LaunchDescription([
            IncludeLaunchDescription(source, launch_arguments=arguments)]))
        result = execute(service, loop)
        record.entries.append(('end', result.rc, round(result.ended_at, 6), result.deadlock,
                               type(result.error).__name__))
        configs = sorted(service.context.launch_configurations.items())
        final = sorted([k, os.environ.get(k)] for k in set(os.environ) | set(initial)
                       if os.environ.get(k) != initial.get(k) or k.startswith('VF'))
        record.entries.append(('state', record.clean(repr(configs)), record.clean(repr(final))))
        for p in loop.processes:
            difference = sorted([k, p.env.get(k)] for k in set(p.env) | set(initial)
                                if p.env.get(k) != initial.get(k) or k.startswith('VF'))
            record.entries.append((
                'process', round(p.started_at, 6), record.clean(repr(p.cmd)), p.cwd, p.shell,
                record.clean(repr(difference)),
                [[round(t, 6), s, alive] for t, s, alive in p.journal],
                p.exited_at and round(p.exited_at, 6), p.returncode))
    finally:
        logging.Logger.handle = original
        finish(loop)
        os.environ.clear()
        os.environ.update(initial)
    return record.entries, result


def arguments_of(description):
    """Describe the declared arguments of a launch description."""
    out = []
    for a in description.get_launch_arguments():
        out.append([a.name, a.description, a.choices, a.default_value is not None,
                    bool(getattr(a, '_conditionally_included', False))])
    return out


__all__ = ['launch']
