"""Random substitutions: as data, as launch objects, as text of launch files, and their meaning.

A node is a list [kind, ...]; an argument (`Arg`) is a list of nodes whose results are concatenated.

  ['text', s]  ['config', Arg, Arg | {'py': value} | None]  ['env', Arg, Arg | None]  ['local', expression]
  ['join', Arg]  ['if', Arg, Arg, Arg | None]  ['equals' | 'not-equals', operand, operand]
  ['not', Arg]  ['and' | 'or', Arg, Arg]  ['any' | 'all', [Arg, ...]]  ['eval', Arg, [module, ...] | None]
  ['command', Arg, Arg | None]  ['file', Arg]  ['find', Arg]  ['anon', Arg]  ['logdir'] ['filename']
  ['dirname']

An operand is an Arg or {'py': value}.
"""
import importlib
import math
import os
import shlex

from launch.substitutions import (AllSubstitution, AndSubstitution, AnonName, AnySubstitution,
                                  Command, EnvironmentVariable, EqualsSubstitution, FileContent,
                                  FindExecutable, IfElseSubstitution, LaunchConfiguration,
                                  LaunchLogDir, LocalSubstitution, NotEqualsSubstitution,
                                  NotSubstitution, OrSubstitution, PathJoinSubstitution,
                                  PythonExpression, TextSubstitution, ThisLaunchFile,
                                  ThisLaunchFileDir)

CONFIGS = ['a', 'b', 'flag', 'num', 'with space', 'd.o-t', 'name', 'x y z'][:7]
ENVS = ['VF_A', 'VF_B', 'VF_FLAG', 'VF_NUM', 'VF_NONE']
LOCALS = ['first', 'second', 'thing.part', 'absent']
TRUE = ['true', 'True', 'TRUE', '1', 'on', 'yes', 'On', ' true', 'Yes']
FALSE = ['false', 'False', 'FALSE', '0', 'off', 'no', 'Off', 'No']
BOOLS = {**{t.strip(): True for t in TRUE}, **{f: False for f in FALSE}, 'ON': True, 'YES': True,
         'OFF': False, 'NO': False}
NOT_BOOL = ['', 'maybe', '2', 'tRUE', 'y', '1.0', 'null', '[true]', "'true'", 'true false', '-1',
            '00', 't']
TEXTS = ['x', 'word', 'two words', '', '/abs/path', 'rel/path', 'caf\u00e9 \u2603', 'a.b-c_d', '$',
         '$x', '(paren)', 'quote\'s', 'dq"dq', 'back\\slash', 'tab\there', 'new\nline', '100%',
         '$(no', '{brace}', '~', '# hash', 'k: v', '<tag/>&amp;', '  blanks  ', '\U0001f600', '\\',
         '$$(', '\\n', ')', "''", '"', "'"]
NUMBERS = ['0', '1', '42', '-7', '3.5', '1e3', '-0.0', '2.0', '1000000', '0.1']


class Failure(Exception):
    """The substitution has no value."""


# ------------------------------------------------------------------ generation

class Gen:

    def __init__(self, rng, *, wrong=.04, without=(), texts=TEXTS, bare=.1,
                 words=TRUE + FALSE):
        self.rng = rng
        self.wrong = wrong
        self.without = set(without)
        self.texts = texts
        self.words = list(words)     # for booleans
        self.bare = bare      # how often configurations have no default

    def text(self):
        rng = self.rng
        if rng.random() < .6:
            return rng.choice(self.texts)
        return ''.join(rng.choice(self.texts + ['a', 'b', ' ']) for _ in range(rng.randint(0, 3)))

    def lit(self, s):
        """An argument with the value s, which may be split or come out of a substitution."""
        rng = self.rng
        if rng.random() < .15 and len(s) > 1:
            k = rng.randint(1, len(s) - 1)
            return [['text', s[:k]], ['text', s[k:]]]
        if rng.random() < .06:
            return [['config', [['text', 'surely absent']], [['text', s]]]]
        return [['text', s]]

    def arg(self, depth, kind='text'):
        """An argument which mostly gives a value of a kind."""
        rng = self.rng
        if rng.random() < self.wrong:
            kind = rng.choice(['text', 'bool', 'num'])
        if kind == 'text':
            n = rng.choice([1, 1, 1, 2, 2, 3]) if depth > 0 else 1
            return [self.node(depth - 1) for _ in range(n)]
        if kind == 'bool':
            if depth > 0 and rng.random() < .6:
                return [self.boolean(depth - 1)]
            if rng.random() < self.wrong:
                return self.lit(rng.choice(NOT_BOOL))
            return self.lit(rng.choice(self.words))
        if depth > 0 and rng.random() < .3:
            return [['config', self.lit('num'), self.lit(rng.choice(NUMBERS))]]
        if depth > 0 and rng.random() < .3:
            return [self.expression(depth - 1)]
        return self.lit(rng.choice(NUMBERS))

    def node(self, depth):
        rng = self.rng
        if depth <= 0:
            kind = rng.choice(['text'] * 6 + ['config', 'env', 'local', 'logdir', 'filename',
                                              'dirname'])
        else:
            kind = rng.choice(['text'] * 4 + ['config'] * 4 + ['env'] * 3 + [
                'local', 'join', 'join', 'if', 'if', 'if', 'eval', 'eval', 'command', 'file', 'find',
                'anon', 'logdir', 'filename', 'dirname', 'bool', 'bool', 'bool'])
        if kind in self.without:
            kind = 'text'
        d = depth - 1
        if kind == 'text':
            return ['text', self.text()]
        if kind == 'config':
            if rng.random() < .15 and d > 0:
                name = [['config', self.lit('name'), self.lit('a')]]
            else:
                name = self.lit(rng.choice(CONFIGS))
            roll = rng.random()
            if 'py' not in self.without and roll < .1:
                default = {'py': rng.choice([1, 2.5, True, False, 'x', ['p', 3, 'q'], 0, ''])}
            else:
                default = None if roll < self.bare or (roll < .25 and self.wrong) else self.arg(d)
            return ['config', name, default]
        if kind == 'env':
            # the default is evaluated even if it is not needed: it must not fail by itself
            return ['env', self.lit(rng.choice(ENVS)),
                    None if rng.random() < 2 * self.wrong else
                    self.lit(rng.choice(self.texts)) if rng.random() < .5 or d <= 0 else
                    [['if', self.lit(rng.choice(TRUE + FALSE)), self.lit('yes'), self.lit('no')]]]
        if kind == 'local':
            return ['local', rng.choice(LOCALS if rng.random() < self.wrong else LOCALS[:-1])]
        if kind == 'join':
            return ['join', [self.node(d) for _ in range(rng.randint(1, 4))]]
        if kind == 'if':
            a, b = self.arg(d), self.arg(d)
            if rng.random() < .2:
                b = None
            if self.empty(a) and (b is None or self.empty(b)):
                a = self.lit('then')
            return ['if', self.arg(d, 'bool'), a, b]
        if kind == 'bool':
            return self.boolean(d)
        if kind == 'eval':
            return self.expression(d)
        if kind == 'command':
            return self.command(d)
        if kind == 'file':
            return ['file', [['config', self.lit('base'), None]] + self.lit(
                rng.choice(['/one.txt', '/two.txt', '/two.txt', '/gone.txt'
                            if rng.random() < 3 * self.wrong else '/one.txt']))]
        if kind == 'find':
            return ['find', self.lit(rng.choice(
                ['vf-tool', 'vf-tool', 'vf-other', 'vf-missing', 'vf-plain'] if rng.random() < 2 *
                self.wrong else ['vf-tool', 'vf-other']))]
        if kind == 'anon':
            return ['anon', self.lit(rng.choice(['one', 'two', 'dotted.name', 'o:x-y']))]
        return [kind]

    @staticmethod
    def empty(arg):
        return all(n[0] == 'text' and n[1] == '' for n in arg)

    def operand(self, d):
        rng = self.rng
        if 'py' not in self.without and rng.random() < .15:
            return {'py': rng.choice([True, False, None, 0, 1, 2.0, 2.5, 'word', -7])}
        return self.arg(d, rng.choice(['text', 'bool', 'num', 'num']))

    def boolean(self, depth):
        rng = self.rng
        kind = rng.choice(['not', 'and', 'or', 'any', 'all', 'equals', 'not-equals', 'equals'])
        d = depth - 1
        if kind == 'not':
            return [kind, self.arg(d, 'bool')]
        if kind in ('and', 'or'):
            return [kind, self.arg(d, 'bool'), self.arg(d, 'bool')]
        if kind in ('any', 'all'):
            return [kind, [self.arg(d, 'bool') for _ in range(
                rng.choice([1, 2, 3, 4] + ([0] if 'py' not in self.without else [])))]]
        left = self.operand(d)
        if rng.random() < .4:
            right = left
        elif rng.random() < .3:
            left, right = rng.choice([('1', '1.0'), ('2', '2.0'), ('true', '1'), ('True', 'true'),
                                      ('0', 'FALSE'), ('a', 'a '), ('1e3', '1000'), ('0.1', '.1'),
                                      ('inf', 'Infinity'), ('nan', 'nan'), ('1', 'on'),
                                      ('0.30000000000000004', '0.3'), ('2', '2.0001'), ('', ' '),
                                      ('A', 'a'), ('0x10', '16'), ('1', '1.0000000001')])
            left, right = self.lit(left), self.lit(right)
        else:
            right = self.operand(d)
        return [kind, left, right]

    def expression(self, depth):
        rng = self.rng
        num = lambda: self.arg(depth - 1, 'num') if depth > 0 else self.lit(rng.choice(NUMBERS))  # noqa
        roll = rng.random()
        if roll < .35:
            parts = [['text', '(']] + num() + [['text', rng.choice([
                ') + (', ') * (', ') - (', ') < (', ') == ('])]] + num() + [['text', ')']]
            return ['eval', parts, None]
        if roll < .5:
            return ['eval', [['text', rng.choice(['floor(', 'math.ceil(', 'int(', 'abs(', 'sqrt('])],
                             ] + (self.lit('6.25')) + [['text', ')']],
                    rng.choice([None, ['math'], ['math', 'os']])]
        if roll < .65:
            return ['eval', self.lit("os.path.basename('/a/b.c') + os.path.sep"),
                    rng.choice([['os'], ['math', 'os'], ['os', 'string']])]
        if roll < .8:
            return ['eval', [['text', "'pre-' + '"], ['env', self.lit('VF_PLAIN'),
                                                    self.lit('plain')], ['text', "' + \"x\" * 2"]],
                    None]
        if roll < .9:
            return ['eval', self.lit(rng.choice([
                'max(x * x for x in (1, 3, 2))', '[floor(x) for x in (1.5, 2.5)][1]',
                'sum(floor(x) for x in (1.5, 2.5))', '(lambda v: sqrt(v) + pi)(4)',
                "{'a': 1}['a']", "'%s' % (None,)", "True and 'yes' or 'no'",
                'any(math.isnan(x) for x in (1., math.nan))'])), None]
        if rng.random() < 5 * self.wrong:
            return ['eval', self.lit(rng.choice(['1 +', 'undefined_name', '1 / 0', 'os.getpid()',
                                                 'import os', '', 'x = 1'])), None]
        return ['eval', self.lit(rng.choice(['not False', '1', "'text'", '1.50', 'None', "''"])),
                rng.choice([None, []])]

    def command(self, depth):
        rng = self.rng
        word = lambda: rng.choice(['plain', '"two words"', "'single q'", 'a\\ b', '""', "''", 'x"y z"'])  # noqa
        out = [['text', ' ' + word()]]
        if depth > 0 and rng.random() < .5:
            out = [['text', ' "'], ['config', self.lit('word'), self.lit('w')],
                   ['env', self.lit('VF_PLAIN'), self.lit('e f')], ['text', '" ']]
        noisy = rng.random() < .4
        err = " 'some noise'" if noisy else ' ""'
        code = ' %d' % (rng.choice([1, 3, 127, -9, -6]) if rng.random() < 2 * self.wrong else 0)
        policy = rng.choice(['ignore', 'warn', 'capture', 'ignore', 'fail', None])
        if noisy and policy in ('fail', None) and rng.random() > 4 * self.wrong:
            policy = 'ignore'
        if rng.random() < self.wrong:
            policy = 'nonsense'
        head = [['config', self.lit('base'), None], ['text', '/bin/vf-tool']]
        if rng.random() < .3:
            head = self.lit('vf-tool')
        if rng.random() < self.wrong:
            head = self.lit('vf-no-such-program')
        return ['command', head + out + [['text', err + code]],
                None if policy is None else self.lit(policy)]


def kinds(node):
    """All kinds of nodes within a node."""
    if isinstance(node, list):
        if node and isinstance(node[0], str):
            yield node[0]
            rest = node[1:]
        else:
            rest = node
        for x in rest:
            if isinstance(x, list):
                yield from kinds(x)


def depth_of(node):
    if not isinstance(node, list):
        return 0
    inner = max([depth_of(x) for x in node if isinstance(x, list)] or [0])
    return inner + (1 if node and isinstance(node[0], str) else 0)


# ------------------------------------------------------------------ launch objects

class Builder:
    """Builds launch substitutions; `rng` varies the form in which arguments are given."""

    def __init__(self, rng):
        self.rng = rng

    def arg(self, arg, always=False):
        rng = self.rng
        items = [n[1] if n[0] == 'text' and rng.random() < .7 else self.node(n) for n in arg]
        if len(items) == 1 and rng.random() < .7:
            return items[0]
        if all(isinstance(i, str) for i in items) and rng.random() < .3:
            return ''.join(items)
        return tuple(items) if rng.random() < .2 and not always else items

    def operand(self, operand):
        if isinstance(operand, dict):
            return operand['py']
        items = [self.node(n) for n in operand]    # lists of plain texts are something else here
        return items[0] if len(items) == 1 else items

    def node(self, n):
        kind = n[0]
        if kind == 'text':
            return TextSubstitution(text=n[1])
        if kind == 'config':
            if n[2] is None:
                return LaunchConfiguration(self.arg(n[1]))
            default = n[2]['py'] if isinstance(n[2], dict) else self.arg(n[2])
            return LaunchConfiguration(self.arg(n[1]), default=default)
        if kind == 'env':
            if n[2] is None:
                return EnvironmentVariable(self.arg(n[1]))
            return EnvironmentVariable(self.arg(n[1]), default_value=self.arg(n[2]))
        if kind == 'local':
            return LocalSubstitution(n[1])
        if kind == 'join':
            return PathJoinSubstitution([x[1] if x[0] == 'text' else self.node(x) for x in n[1]])
        if kind == 'if':
            kwargs = {} if n[3] is None else {'else_value': self.arg(n[3])}
            return IfElseSubstitution(self.arg(n[1]), if_value=self.arg(n[2]), **kwargs)
        if kind in ('equals', 'not-equals'):
            cls = EqualsSubstitution if kind == 'equals' else NotEqualsSubstitution
            return cls(self.operand(n[1]), self.operand(n[2]))
        if kind == 'not':
            return NotSubstitution(self.arg(n[1]))
        if kind in ('and', 'or'):
            cls = AndSubstitution if kind == 'and' else OrSubstitution
            return cls(self.arg(n[1]), self.arg(n[2]))
        if kind in ('any', 'all'):
            cls = AnySubstitution if kind == 'any' else AllSubstitution
            return cls(*[self.arg(a) for a in n[1]])
        if kind == 'eval':
            if n[2] is None:
                return PythonExpression(self.arg(n[1]))
            return PythonExpression(self.arg(n[1]), python_modules=list(n[2]))
        if kind == 'command':
            kwargs = {} if n[2] is None else {'on_stderr': self.arg(n[2])}
            return Command(self.arg(n[1]), **kwargs)
        if kind == 'file':
            return FileContent(self.arg(n[1]))
        if kind == 'find':
            return FindExecutable(name=self.arg(n[1]))
        if kind == 'anon':
            return AnonName(self.arg(n[1]))
        return {'logdir': LaunchLogDir, 'filename': ThisLaunchFile,
                'dirname': ThisLaunchFileDir}[kind]()


# ------------------------------------------------------------------ meaning

def is_number(text):
    try:
        float(text)
        return True
    except ValueError:
        return False


class Meaning:
    """Evaluates nodes for a state.

    state: configs, env (dictionaries), locals, files (path -> text), tools (path -> executable?), logdir,
    anon (a callable which gives the anonymous name for a name).
    """

    def __init__(self, state):
        self.state = state
        self.anon_used = set()
        self.warned = 0

    def arg(self, arg):
        return ''.join([self.node(n) for n in arg])

    def boolean(self, arg):
        text = self.arg(arg)
        # quotes and a leading '- ' etc. are not generated; blanks around are ignored by YAML
        if text in ('1', '0'):
            return text == '1'
        if text.strip(' ') in BOOLS and text.strip(' ') not in ('1', '0'):
            return BOOLS[text.strip(' ')]
        raise Failure('not a boolean: %r' % text)

    def operand(self, operand):
        if isinstance(operand, dict):
            value = operand['py']
            return '' if value is None else str(value).lower() if isinstance(value, bool) else \
                str(value)
        return self.arg(operand)

    def equal(self, n):
        left, right = self.operand(n[1]), self.operand(n[2])
        words = {'true': True, '1': True, 'false': False, '0': False}
        if left.lower() in words and right.lower() in words:
            return words[left.lower()] == words[right.lower()]
        if is_number(left) and is_number(right):
            a, b = float(left), float(right)
            return a == b or (math.isfinite(a) and math.isfinite(b) and
                              abs(a - b) <= 1e-9 * max(abs(a), abs(b)))
        return left == right

    def node(self, n):
        kind, state = n[0], self.state
        if kind == 'text':
            return n[1]
        if kind == 'config':
            name = self.arg(n[1])
            if name in state['configs']:
                return state['configs'][name]
            if n[2] is None:
                raise Failure('no configuration %r' % name)
            if isinstance(n[2], dict):
                value = n[2]['py']
                return ''.join(map(str, value)) if isinstance(value, list) else str(value)
            return self.arg(n[2])
        if kind == 'env':
            name = self.arg(n[1])
            if name in state['env']:
                return state['env'][name]
            if n[2] is None:
                raise Failure('no variable %r' % name)
            return self.arg(n[2])
        if kind == 'local':
            if n[1] not in state['locals']:
                raise Failure('no local %r' % n[1])
            return state['locals'][n[1]]
        if kind == 'join':
            result = ''
            for x in [self.node(x) for x in n[1]]:
                result = x if x.startswith('/') or not result else \
                    result + ('' if result.endswith('/') else '/') + x
            return result
        if kind == 'if':
            chosen = n[2] if self.boolean(n[1]) else n[3]
            return '' if chosen is None else self.arg(chosen)
        if kind == 'equals':
            return 'true' if self.equal(n) else 'false'
        if kind == 'not-equals':
            return 'false' if self.equal(n) else 'true'
        if kind == 'not':
            return 'false' if self.boolean(n[1]) else 'true'
        if kind in ('and', 'or'):
            a, b = self.boolean(n[1]), self.boolean(n[2])
            return str((a and b) if kind == 'and' else (a or b)).lower()
        if kind in ('any', 'all'):
            values = [self.boolean(a) for a in n[1]]
            return str((any if kind == 'any' else all)(values)).lower()
        if kind == 'eval':
            names = {}
            for module in ['math'] if n[2] is None else n[2]:
                names[module] = importlib.import_module(module)
                if module == 'math':
                    names.update(vars(math))
            text = self.arg(n[1])
            try:
                return str(eval(text, names))
            except Exception as exc:
                raise Failure('expression %r: %r' % (text, exc))
        if kind == 'command':
            return self.command(n)
        if kind == 'file':
            path = self.arg(n[1])
            if path not in state['files']:
                raise Failure('no file %r' % path)
            return state['files'][path]
        if kind == 'find':
            return self.find(self.arg(n[1]))
        if kind == 'anon':
            self.anon_used.add(self.arg(n[1]))
            return state['anon'](self.arg(n[1]))
        if kind == 'logdir':
            return state['logdir']
        if state.get('file') is None:
            raise Failure('no launch file')
        return state['file'] if kind == 'filename' else os.path.dirname(state['file'])

    def find(self, name):
        if name.startswith('/'):
            if self.state['tools'].get(name):
                return name
        else:
            for directory in self.state['env'].get('PATH', '').split(':'):
                if self.state['tools'].get(directory + '/' + name):
                    return directory + '/' + name
        raise Failure('no program %r' % name)

    def command(self, n):
        argv = shlex.split(self.arg(n[1]))
        policy = 'fail' if n[2] is None else self.arg(n[2])
        if policy not in ('fail', 'ignore', 'warn', 'capture'):
            raise Failure('policy %r' % policy)
        if os.path.basename(self.find(argv[0])) != 'vf-tool':
            raise Failure('not our tool')
        out, err, code = argv[1], argv[2], int(argv[3])
        if code or (err and policy == 'fail'):
            raise Failure('command: %r %r %r' % (out, err, code))
        if err and policy == 'warn':
            self.warned += 1
        return out + (err if policy == 'capture' else '')


TOOL = '#!/bin/sh\nprintf %s "$1"\nprintf %s "$2" >&2\ncase $3 in -*) kill $3 $$;; esac\nexit $3\n'


def make_world(base):
    """Create the files and programs the generated substitutions refer to; returns (files, tools)."""
    os.makedirs(os.path.join(base, 'bin'))
    files = {'one.txt': 'first\nfile \u2603\n', 'two.txt': ''}
    for name, text in files.items():
        with open(os.path.join(base, name), 'w') as f:
            f.write(text)
    tools = {}
    for name, runs in (('vf-tool', True), ('vf-other', True), ('vf-plain', False)):
        path = os.path.join(base, 'bin', name)
        with open(path, 'w') as f:
            f.write(TOOL)
        os.chmod(path, 0o755 if runs else 0o644)
        tools[path] = runs
    return {os.path.join(base, k): v for k, v in files.items()}, tools


# ------------------------------------------------------------------ text of launch files

class Unwritable(Exception):
    """The substitution cannot be written in this place."""


NAMES = {'config': 'var', 'file': 'file-content', 'find': 'find-exec', 'logdir': 'log_dir'}


class Writer:
    """Renders nodes as text of a launch file."""

    def __init__(self, rng):
        self.rng = rng

    def top(self, arg):
        out, text = '', ''
        for n in arg + [None]:
            if n is not None and n[0] == 'text':
                text += n[1]
            else:
                out += self.literal(text) + ('' if n is None else self.node(n, ''))
                text = ''
        return out

    def literal(self, s):
        out = s.replace('\\', '\\\\')
        if self.rng.random() < .15:
            return ''.join('\\' + c if c in '$\'"()' and (c == '$' or self.rng.random() < .5) else c
                           for c in out)
        if self.rng.random() < .3:
            return out.replace('$', '\\$')
        return out.replace('$(', '\\$(')

    def arg(self, arg, quote):
        """Write an argument of a substitution, inside of quotes of a kind or none."""
        if quote:
            return self.inside(arg, quote)
        forms = ["'", '"', '']
        self.rng.shuffle(forms)
        if all(n[0] == 'text' and not set(n[1]) & set(' ()\'"\\$') for n in arg) and \
                self.rng.random() < .7:
            forms.insert(0, '')
        for form in forms:
            try:
                if form == '':
                    return self.inside(arg, '')
                return form + self.quoted(arg, form) + form
            except Unwritable:
                pass
        raise Unwritable()

    def inside(self, arg, quote):
        """Write an argument which is not quoted itself."""
        out = ''
        for n in arg:
            if n[0] != 'text':
                out += self.node(n, quote)
                continue
            for c in n[1]:
                if c == ' ':
                    raise Unwritable()
                if c in '\\()$' or c == quote or (not quote and c in '\'"'):
                    out += '\\'
                out += c
        if not out:
            raise Unwritable()
        return out

    def quoted(self, arg, quote):
        out = ''
        for n in arg:
            if n[0] != 'text':
                out += self.node(n, quote)
                continue
            for c in n[1]:
                out += '\\' + c if c in '\\$' + quote else c
        return out

    def node(self, n, quote):
        kind = n[0]
        name = NAMES.get(kind, kind)
        if kind == 'logdir' and self.rng.random() < .5:
            name = 'launch_log_dir'
        if kind in ('config', 'env', 'command', 'if'):
            args = [a for a in n[1:] if a is not None]
        elif kind in ('any', 'all'):
            args = n[1]
        elif kind == 'eval':
            args = [n[1]]
            if n[2] is not None:
                args.append([['text', self.rng.choice([',', ',', ', ', ' , ']).join(n[2])]])
        elif kind in ('local', 'join'):
            raise Unwritable()
        else:
            args = n[1:]
        if any(isinstance(a, dict) for a in args):
            raise Unwritable()
        return '$(' + ' '.join([name] + [self.arg(a, quote) for a in args]) + ')'
