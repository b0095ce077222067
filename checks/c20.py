"""C20: values are coerced to a type exactly when they are valid for it."""
import random
import re
from typing import List
import xml.etree.ElementTree as ET

from launch import LaunchContext
from launch.frontend.type_utils import get_data_type_from_identifier
from launch.substitutions import LaunchConfiguration, TextSubstitution
from launch.utilities.type_utils import (
    coerce_list, coerce_to_type, get_typed_value, is_instance_of, normalize_typed_substitution,
    perform_typed_substitution)
from launch_xml.entity import Entity as XmlEntity
from launch_yaml.entity import Entity as YamlEntity
import yaml

CASES = {'quick': 2400, 'thorough': 150000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 60
NEED = {'coerced': 40000, 'rejected': 30000, 'kept_str': 3000, 'list': 4000, 'instances': 30000,
        'mixed': 3000, 'xml': 10000, 'yaml': 10000}
RULE = ('a case makes random texts, lists of texts and Python values and sends them through every way '
        'in which values become typed (coercion functions, typed substitutions in pieces, attributes '
        'of XML and YAML entities) for every target type; results and failures are compared with a '
        'model of the rules; non-trivial: text which some target type accepts and another rejects')
ASSUMPTIONS = ['numbers follow the syntax of Python for int and float targets, the YAML rules are '
               'those of the yaml library']
TYPES = {'int': int, 'float': float, 'bool': bool, 'str': str, 'list_of_int': List[int],
         'list_of_float': List[float], 'list_of_bool': List[bool], 'list_of_str': List[str],
         'yaml': None}
SCALAR = {'list_of_int': 'int', 'list_of_float': 'float', 'list_of_bool': 'bool',
          'list_of_str': 'str', 'yaml': 'yaml'}
PY = {'int': int, 'float': float, 'bool': bool, 'str': str}
ATOMS = [
    '', '0', '1', '-1', '+7', '12', ' 12 ', '1_000', '_1', '0x1F', '017', '08', '0o17', '0b11', '1:30',
    '1.', '.5', '-2.5', '1.0', '1e3', '1.5e3', '1.5e+3', '-.inf', '.inf', 'inf', '-inf', 'nan', '.nan',
    'NaN', '1_0.5', '1.2.3', '1,2', 'true', 'True', 'TRUE', 'tRue', 'false', 'False', 'yes', 'no', 'on',
    'off', 'y', 'n', 'Yes', 'NO', 'null', 'Null', '~', 'none', 'None', 'a', 'abc', 'a b', "'a'", '"a"',
    "'1'", '"true"', "'on'", "''", '""', '[]', '[ ]', '{}', '- a', '-', '--', 'a: b', 'a:b', '{a: 1}',
    '# c', 'a # c', '1 # c', 'true # c', '2020-01-02', '2020-01-02 03:04:05', '&a 1', '*a', '!!int "1"',
    '!!str 1', '!!float 1', '!!bool true', '!x 1', '@a', '`a`', '%a', '|', '>', '\u00e9', '\u0663',
    '\t', '\n', '1\n', 'a\nb', '\\', '/p/q', 'a\\nb', '"a\\nb"', '$(var a)', '9' * 30, '1' + '0' * 20,
    '--- 1', '--- 1\n--- 2', '...', '=', '<<', '1e400', '0.1', '-0', '-0.0', '00', '1 2', "it's",
]
PLAIN = ['1', '2', '-3', '0', '1.5', '2.0', '.5', 'true', 'false', 'on', 'a', 'b c', "'1'", '"x"', '1e3',
         '~', '', '[1]', '{}', '0x10', '1_0', '2020-01-02', "'true'", '[]', '1:30', '# c']
SAME = [['1', '2', '-3', '0', '0x10', '1_0', '017'], ['1.5', '2.0', '.5', '-1.0e+3', '.inf'],
        ['true', 'false', 'on', 'off', 'True'], ['a', 'b c', "'1'", '"true"', '1e3', "''"]]
MARK = 'list_of_'


class Rejected(Exception):
    pass


def text(rng):
    r = rng.random()
    if r < .45:
        return rng.choice(ATOMS)
    if r < .6:
        return str(rng.choice([rng.randint(-5, 5), rng.randint(-10**12, 10**12),
                               round(rng.uniform(-9, 9), 3), rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)]))
    if r < .9:
        return sequence(rng)
    return ''.join(rng.choice(['1', '.', '-', 'e', 'a', '[', ']', ',', ' ', "'", '"', ':', '#', '{', '}',
                               'true', '_', '\n', '+', 'x', '0']) for _ in range(rng.randint(1, 7)))


def sequence(rng):
    pool = rng.choice(SAME) if rng.random() < .7 else PLAIN
    items = [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))]
    if items and rng.random() < .25:
        items[rng.randrange(len(items))] = rng.choice(rng.choice(SAME + [PLAIN]))
    if items and rng.random() < .2:
        return '\n'.join('- ' + item for item in items)
    return '[' + rng.choice([', ', ',', ' , ']).join(items) + ']'


def value(rng, depth=0):
    r = rng.random()
    if r < .15:
        return rng.choice([True, False])
    if r < .3:
        return rng.choice([0, 1, -5, 10 ** 20, 12])
    if r < .42:
        return rng.choice([0.0, 1.0, -2.5, 1e300])
    if r < .6:
        return rng.choice(['', 'a', '1', 'true', '2.5', '[1]', '$(var a)'])
    if r < .64:
        return None
    if r < .68 or depth > 1:
        return {'a': 1} if rng.random() < .5 else {}
    if rng.random() < .15:
        return [value(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    pool = rng.choice([[True, False], [1, 0, 7], [0.0, 2.5], ['a', '', '1', '$(var a)']])
    items = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
    if items and rng.random() < .4:
        items[rng.randrange(len(items))] = rng.choice([1, True, 0.0, 'a', 'b', None])
    return items


def chop(rng, s):
    """Cut text into pieces."""
    cuts = sorted(rng.randint(0, len(s)) for _ in range(rng.choice([0, 0, 1, 2])))
    return [s[a:b] for a, b in zip([0] + cuts, cuts + [len(s)])]


def gen(rng, i, tier):
    values = [value(rng) for _ in range(8)]
    items = []
    for _ in range(2):
        mix = [['v', x] for x in value(rng)] if rng.random() < .2 and False else []
        pool = rng.choice([[True, False], [1, 0, 7], [0.5, 2.5], ['a', '', '1'], [1, 0.5], [1, True, 'a']])
        texts = rng.choice(SAME + [PLAIN])
        for _ in range(rng.randint(0, 4)):
            mix.append(['v', rng.choice(pool)] if rng.random() < .5 else
                       ['s', chop(rng, rng.choice(texts))])
        items.append(mix)
    pool = rng.choice(SAME + [PLAIN, ATOMS])
    return {
        'texts': [[t, chop(rng, t)] for t in (text(rng) for _ in range(5))],
        'lists': [[rng.choice(pool) for _ in range(rng.randint(0, 4))] for _ in range(2)],
        'values': values, 'mixes': items, 'seed': rng.randrange(1 << 30),
    }


# the model ------------------------------------------------------------------------------------

def load(s):
    try:
        return yaml.safe_load(s)
    except Exception as exc:
        raise Rejected('not YAML: %s' % exc)


def is_uniform(items, with_str):
    found = {type(x) for x in items}
    if with_str and len(found) > 1:
        found.discard(str)
    return len(found) <= 1 and found <= {int, float, bool, str}


def valid(v, kind, with_str):
    """Tell whether a value is of a type."""
    if kind == 'yaml':
        if isinstance(v, list):
            return is_uniform(v, with_str)
        return type(v) in (int, float, bool, str)
    if kind.startswith(MARK):
        return isinstance(v, list) and all(valid(x, kind[len(MARK):], with_str) for x in v)
    return type(v) is PY[kind] or (with_str and type(v) is str)


def coerce(s, kind, with_str=False):
    if kind == 'str':
        return s
    if kind in ('int', 'float'):
        try:
            return PY[kind](s)
        except ValueError:
            if with_str:
                return s
            raise Rejected('not %s' % kind)
    if kind == 'bool':
        if s in ('0', '1'):
            return s == '1'
        try:
            v = load(s)
        except Rejected:
            v = s
        if type(v) is bool:
            return v
        if with_str:
            if type(v) in (str, dict) or v is None:
                return s
            # some other value is no text which may hold a substitution
            return Either(s)
        raise Rejected('not bool')
    if kind == 'yaml':
        if not s:
            return s
        try:
            v = load(s)
            if valid(v, 'yaml', with_str):
                return v
        except Rejected:
            pass
        if with_str:
            return s
        raise Rejected('no valid value')
    v = load(s)
    if valid(v, kind, with_str):
        return v
    raise Rejected('not %s' % kind)


class Either:
    """A rejection or the text itself."""

    def __init__(self, text):
        self.text = text


def coerce_all(texts, kind, with_str=False):
    scalar = SCALAR[kind]
    out = [coerce(t, scalar, with_str) for t in texts]
    if any(isinstance(x, Either) for x in out):
        return Either(None)
    if not is_uniform(out, with_str):
        raise Rejected('not uniform')
    return out


def attempt(function, *args, **kwargs):
    try:
        return function(*args, **kwargs)
    except (ValueError, TypeError) as exc:
        return exc
    except Rejected as exc:
        return exc


def same(a, b):
    return type(a) is type(b) and repr(a) == repr(b) and (
        not isinstance(a, list) or all(type(x) is type(y) for x, y in zip(a, b)))


XML_BAD = re.compile('[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def xml_entity(attributes):
    element = ET.Element('thing', attributes)
    return XmlEntity(ET.fromstring(ET.tostring(element, encoding='unicode')))


def judge(obs, key, want, got, what, quiet=False):
    if isinstance(want, Either):
        obs.expect(isinstance(got, Exception) or want.text is None or same(got, want.text), key,
                   '%s: expected a rejection or the text, observed %r' % (what, got))
        return
    if isinstance(want, Rejected):
        obs.expect(isinstance(got, Exception), key, '%s: expected a failure (%s), observed %r' % (
            what, want, got))
        obs.count('rejected')
    elif isinstance(got, Exception):
        obs.fail(key, '%s: expected %r but it failed: %r' % (what, want, got))
    else:
        obs.expect(same(got, want), key, '%s: expected %r (%s), observed %r (%s)' % (
            what, want, type(want).__name__, got, type(got).__name__))
        obs.count('coerced')


def substitutions(rng, pieces, context):
    out = []
    for n, piece in enumerate(pieces):
        if rng.random() < .4:
            name = 'piece%d' % len(context.launch_configurations)
            context.launch_configurations[name] = piece
            out.append(LaunchConfiguration(name))
        else:
            out.append(TextSubstitution(text=piece))
    return out


def run(case, obs):
    rng = random.Random(case['seed'])
    for name, kind in TYPES.items():
        obs.equal(get_data_type_from_identifier(name), kind, 'identifier', 'type %s' % name)
    context = LaunchContext()
    for s, pieces in case['texts']:
        outcomes = set()
        subs = substitutions(rng, pieces, context)
        ok_xml = not XML_BAD.search(s)
        for kind, t in TYPES.items():
            what = '%r as %s' % (s, kind)
            want = attempt(coerce, s, kind)
            outcomes.add(isinstance(want, Exception))
            judge(obs, 'text', want, attempt(coerce_to_type, s, t), what)
            judge(obs, 'text', want, attempt(get_typed_value, s, t), what + ' (typed value)')
            normal = attempt(normalize_typed_substitution,
                             subs if len(subs) > 1 or rng.random() < .5 else subs[0], t)
            if isinstance(normal, Exception):
                obs.fail('substitution', '%s: normalizing failed: %r' % (what, normal))
            else:
                judge(obs, 'substitution', want,
                      attempt(perform_typed_substitution, context, normal, t),
                      what + ' (substitution in pieces %r)' % (pieces,))
            want2 = attempt(coerce, s, kind, True)
            obs.count('kept_str', want2 == s and kind not in ('str', 'yaml'))
            judge(obs, 'or-text', want2, attempt(coerce_to_type, s, t, can_be_str=True),
                  what + ' or text')
            judge(obs, 'or-text', want2, attempt(get_typed_value, s, t, can_be_str=True),
                  what + ' or text (typed value)')
            if ok_xml:
                for w, flag in ((want, False), (want2, True)):
                    entity = xml_entity({'other': 'x', 'value': s})
                    judge(obs, 'xml', w, attempt(
                        entity.get_attr, 'value', data_type=t, can_be_str=flag,
                        optional=rng.random() < .5), what + ' (XML%s)' % (' or text' * flag))
                    obs.count('xml')
        if len(outcomes) == 2:
            obs.sig(s)
    for texts in case['lists']:
        obs.count('list')
        subs = [substitutions(rng, [s], context) for s in texts]
        for kind, t in TYPES.items():
            what = '%r as %s' % (texts, kind)
            want = attempt(coerce_all, texts, kind) if kind in SCALAR else Rejected('a list')
            want2 = attempt(coerce_all, texts, kind, True) if kind in SCALAR else want
            judge(obs, 'list', want, attempt(get_typed_value, list(texts), t), what)
            judge(obs, 'list-or-text', want2,
                  attempt(get_typed_value, list(texts), t, can_be_str=True), what + ' or text')
            if kind in SCALAR:
                scalar = TYPES[SCALAR[kind]]
                judge(obs, 'list', want, attempt(coerce_list, list(texts), scalar), what)
                judge(obs, 'list-or-text', want2,
                      attempt(coerce_list, list(texts), scalar, can_be_str=True), what + ' or text')
            way = attempt(normalize_typed_substitution, subs, t)
            if not isinstance(way, Exception):
                way = attempt(perform_typed_substitution, context, way, t)
            judge(obs, 'list-substitution', want, way, what + ' (substitutions)')
            sep = rng.choice([',', ';', '::', ', ', ' ', '|', 'x'])
            if texts and not any(sep in s or XML_BAD.search(s) for s in texts) and \
                    sep.join(texts).split(sep) == texts:
                entity = xml_entity({'value': sep.join(texts), 'value-sep': sep})
                judge(obs, 'xml-list', want, attempt(
                    entity.get_attr, 'value', data_type=t, can_be_str=False),
                    what + ' (XML, separated by %r)' % sep)
                obs.count('xml')
                obs.expect(attempt(entity.assert_entity_completely_parsed) is None, 'xml-parsed',
                           'the separator of the attribute counts as unread')
    for v in case['values']:
        for kind, t in TYPES.items():
            for flag in (False, True):
                want = valid(v, kind, flag)
                what = '%r as %s%s' % (v, kind, ' or text' if flag else '')
                obs.equal(attempt(is_instance_of, v, t, can_be_str=flag), want, 'instance', what)
                obs.count('instances')
                data = yaml.safe_load(yaml.safe_dump({'value': v}))
                entity = YamlEntity(data, 'thing')
                judge(obs, 'yaml', v if want else Rejected('no instance'), attempt(
                    entity.get_attr, 'value', data_type=t, can_be_str=flag), what + ' (YAML)')
                obs.count('yaml')
            if type(v) in (int, float, bool, str):
                want = v if valid(v, kind, False) else Rejected('no instance')
                judge(obs, 'typed', want, attempt(normalize_typed_substitution, v, t), '%r as %s' % (v, kind))
                judge(obs, 'typed', want, attempt(perform_typed_substitution, context, v, t),
                      'performing %r as %s' % (v, kind))
    for mix in case['mixes']:
        given = [x if k == 'v' else substitutions(rng, x, context) for k, x in mix]
        given = given if rng.random() < .5 else tuple(given)
        types = {type(x) for k, x in mix if k == 'v'}
        obs.count('mixed')
        for kind, t in TYPES.items():
            what = '%r as %s' % (mix, kind)
            got = attempt(normalize_typed_substitution, given, t)
            if not isinstance(got, Exception):
                got = attempt(perform_typed_substitution, context, got, t)
            if kind not in SCALAR:
                judge(obs, 'mixed', Rejected('a list'), got, what)
                continue
            scalar = SCALAR[kind]
            numbers = types == {int, float} or (types == {int} and kind == 'list_of_float')
            want = attempt(lambda: [
                (float(x) if numbers else x) if k == 'v' else coerce(''.join(x), scalar) for k, x in mix])
            if not isinstance(want, Exception):
                if len(types) > 1 and not numbers or not valid(want, kind, False):
                    want = Rejected('not uniform or not of the type')
            if types == {int} and kind == 'list_of_float' and isinstance(got, Exception):
                continue  # integers may be required to be written as floats
            judge(obs, 'mixed', want, got, what)
