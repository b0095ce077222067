"""C25: assertions on output and exit codes pass exactly when they should."""
import os
import random
import re
import shutil
import tempfile

from launch.actions import ExecuteProcess
from launch.substitutions import (Command, EnvironmentVariable, FindExecutable, LaunchConfiguration,
                                  PathJoinSubstitution, PythonExpression)
from launch_testing import asserts
from launch_testing.asserts import NO_CMD_ARGS
from launch_testing.io_handler import ActiveIoHandler, IoHandler
from launch_testing.proc_info_handler import ActiveProcInfoHandler, ProcInfoHandler
from launch_testing.tools.output import (basic_output_filter, expect_output,
                                         expected_output_from_file)
from launch_testing.util import NoMatchingProcessException, resolveProcesses
from vf.texts import ANSI, Proc, expectation, find, lf

CASES = {'quick': 30000, 'thorough': 900000}
WALL = {'quick': 100, 'thorough': 800}
TIMEOUT = 60
HANG = 30
NEED = {'stream_asserts': 80000, 'passed': 13000, 'failed': 30000, 'sequences': 30000,
        'sequence_steps': 70000, 'split_characters': 10000, 'split_matches': 6000, 'ansi': 20000,
        'selections': 150000, 'no_process': 50000, 'ambiguous': 1800, 'wrong_type': 4000,
        'exit_codes': 30000, 'codes_allowed': 4000, 'codes_refused': 8000, 'not_exited': 1800,
        'expect_output': 60000, 'patterns': 9000, 'lists': 13000, 'unlaunched': 7000, 'files': 900,
        'filtered': 20000}
RULE = ('a case is a random set of processes with random output, cut into chunks at arbitrary bytes, and '
        'random expectations, mostly derived from that output; the outcome of every assertion is '
        'compared with an independent model; non-trivial: both outcomes occur')

WORDS = ['pid', 'rc', 'Hello', 'hello', 'x=1', 'x=12', 'ü', '→', '😀', 'a', 'aa', 'ab', ' ', '  ', '\t',
         '[INFO]', '.', '*', '(', ')', '\\', '$', '{}', '%s', '0', '7']
NAMES = ['talker-1', 'talker-2', 'talker-12', 'listener-3', 'a.out-5', 'x-6', 'x-66', 'my proc-7', 'ü-8']
ARGS = [[], [], ['--a'], ['--a', '--b'], ['--b', '1'], ['--name', 'talker'], ['--ab']]
PATTERNS = [r'x=\d+', r'^.*\d+$', r'(?m)^Hello', r'(?m)\d$', r'[A-Z]\w+', r'a+b?', r'\s+', r'(?i)HELLO',
            r'nothing', r'\[INFO\].*', r'^\w', r'ü|→', r'^pid', r'(?m)^$']


def gen_text(rng, lines):
    out = []
    for _ in range(rng.randint(0, lines)):
        line = ''.join(rng.choice(WORDS) for _ in range(rng.randint(0, 5)))
        if rng.random() < .3:
            cut = rng.randint(0, len(line))
            line = line[:cut] + rng.choice(['\x1b[31m', '\x1b[0m', '\x1b[1m']) + line[cut:]
        out.append(line + rng.choice(['\n', '\n', '\n', '\r\n', ' ']))
    return ''.join(out)


def gen_spec(rng, texts, depth=0):
    """An expectation, mostly one that has a chance."""
    text = rng.choice(texts) if texts else ''
    text = ANSI.sub('', text) if rng.random() < .7 else text
    text = lf(text) if rng.random() < .8 else text
    r = rng.random()
    if r < .2:
        return {'re': rng.choice(PATTERNS)}
    if r < .5 and depth < 2:
        if depth == 0 and text and rng.random() < .6:
            # substrings in order, possibly overlapping a bit or swapped
            cuts = sorted(rng.randint(0, len(text)) for _ in range(2 * rng.randint(1, 3)))
            parts = [text[a:b] for a, b in zip(cuts[::2], cuts[1::2])]
            if rng.random() < .25:
                rng.shuffle(parts)
            if rng.random() < .2:
                parts.append(text[cuts[-1] - 1:cuts[-1]])
            return parts
        return [gen_spec(rng, texts, depth + 1) for _ in range(rng.randint(1, 3))]
    if not text or r < .58:
        return rng.choice(WORDS + ['', 'nothing like it'])
    a = rng.randrange(len(text))
    sub = text[a:a + rng.choice([1, 2, 5, 12, 40])]
    if r < .7:
        sub = sub[:-1] + rng.choice(WORDS)
    return sub


def gen_filter(rng):
    r = rng.random()
    if r < .6:
        return None
    if r < .7:
        return ['upper']
    if r < .75:
        return ['drop', rng.choice(WORDS)]
    if r < .78:
        return ['not callable']
    return ['basic', rng.choice([None, None, [], ['Hello', 'x='], ['a']]),
            rng.choice([None, None, [], [r'.*\d'], ['h', r'\s*$']])]


def gen_selection(rng, procs):
    r = rng.random()
    if r < .3:
        process = ['action', rng.randrange(len(procs))]
    elif r < .42:
        process = ['all']
    elif r < .45:
        process = ['bad', rng.choice([5, ['talker-1'], 1.5, True, {}])]
    elif r < .5:
        process = ['unlaunched', rng.randrange(7)]
    else:
        name = rng.choice(procs)['name']
        a = rng.randrange(len(name))
        process = ['name', rng.choice([name, name, name[:5], name[a:a + rng.randint(1, 9)], name[:rng.randint(1, 4)], 'nobody',
                                       name.upper()])]
    args = rng.choice([None] * 9 + ['none', '--a', '--b', ['--a'], ['--a', '--b'], ['--b', '--a'], ['1'],
                       [], '--zzz', ['--a', '--zzz'], 'talker', '/usr/bin/x'])
    return {'process': process, 'args': args, 'strict': rng.random() < .5}


def gen(rng, i, tier):
    procs = []
    for name in rng.sample(NAMES, rng.randint(1, 5)):
        out = gen_text(rng, 6)
        err = gen_text(rng, 6)
        chunks = []
        for stream, text in (('stdout', out), ('stderr', err)):
            raw = text.encode()
            cuts = sorted(rng.randint(0, len(raw)) for _ in range(rng.choice([0, 0, 1, 2, 6])))
            cuts = [0] + cuts + [len(raw)]
            pieces = [raw[a:b] for a, b in zip(cuts, cuts[1:])]
            chunks.append([[stream, p.hex()] for p in pieces if p])
        mixed = []
        while chunks[0] or chunks[1]:
            k = rng.randrange(2)
            if chunks[k]:
                mixed.append(chunks[k].pop(0))
        procs.append({'name': name, 'args': rng.choice(ARGS), 'chunks': mixed, 'stdout': out,
                      'stderr': err, 'exit': rng.choice([0, 0, 0, 1, 2, -2, -15, 130, 255, None]),
                      'started': rng.random() < .95})
    texts = [t for p in procs for t in (p['stdout'], p['stderr']) if t]
    queries = []
    for _ in range(8):
        q = {'kind': 'stream', 'how': rng.choice(['assertInStream', 'assertInStream', 'assertInStdout',
                                                   'assertInStderr']),
             'stream': rng.choice(['stdout', 'stdout', 'stderr', 'stderr', None, None, 'both']),
             'expect': gen_spec(rng, texts), 'strip': rng.choice([None, True, False]),
             'filter': gen_filter(rng)}
        q.update(gen_selection(rng, procs))
        if q['process'][0] in ('action', 'name') and rng.random() < .7:
            # of the very process, so that it passes
            own = [p[s] for p in procs for s in ('stdout', 'stderr') if p[s] and (
                q['process'][1] in p['name'] if q['process'][0] == 'name'
                else p is procs[q['process'][1]])]
            q['expect'] = gen_spec(rng, own or texts)
        queries.append(q)
    for _ in range(3):
        n = rng.randrange(len(procs))
        q = {'kind': 'sequence', 'steps': []}
        q.update(gen_selection(rng, procs))
        if rng.random() < .7:
            q['process'] = ['action', n]
        else:
            q['process'] = ['name', procs[n]['name']] if q['process'][0] == 'all' else q['process']
        text = procs[n][rng.choice(['stdout', 'stdout', 'stdout', 'stderr'])]
        at = 0
        for _ in range(rng.randint(1, 5)):
            if text and rng.random() < .8:
                a = min(len(text) - 1, rng.randint(max(0, at - 2), at + 6))
                at = a + rng.choice([1, 3, 8, 20])
                q['steps'].append(text[a:at])
            else:
                q['steps'].append(rng.choice(WORDS + ['nope']))
        queries.append(q)
    for _ in range(3):
        q = {'kind': 'codes', 'codes': rng.choice([None, None, [0], [0, 1], [1, 2], [-2, -15, 0], [], [130],
                                                   [0, 1, 2, -2, -15, 130, 255], ['0'], [0, None]])}
        q.update(gen_selection(rng, procs))
        queries.append(q)
    for _ in range(2):
        queries.append(dict(gen_selection(rng, procs), kind='resolve', of=rng.choice(['io', 'info'])))
    for _ in range(6):
        text = rng.choice(texts) if texts else ''
        form = rng.choice(['text', 'text', 'lines'])
        kind = rng.choice(['text', 'text', 'lines'])
        queries.append({'kind': 'expect', 'form': form, 'expected': kind, 'text': text,
                        'strict': rng.random() < .25, 'strip': rng.choice([None, True, False]),
                        'spec': gen_spec(rng, [text] if text else []) if kind == 'text'
                        else gen_lines(rng, text)})
    if rng.random() < .1:
        queries.append({'kind': 'files', 'content': gen_text(rng, 4), 'which': rng.choice(
            ['txt', 'regex', 'both', 'none']), 'encoding': rng.choice([None, 'utf-8'])})
    return {'procs': procs, 'queries': queries, 'active': rng.random() < .5}


def gen_lines(rng, text):
    lines = ANSI.sub('', text).splitlines()
    if lines and rng.random() < .7:
        k = rng.randint(1, 3)
        picked = sorted(rng.randrange(len(lines)) for _ in range(k))
        if rng.random() < .5:
            picked = sorted(set(picked))
        if rng.random() < .3:
            picked = list(range(min(len(lines), k)))
        out = []
        for n in picked:
            line = lines[n]
            r = rng.random()
            a = rng.randint(0, len(line))
            out.append(line if r < .6 else line[a:a + 3] if r < .8 else
                       {'re': re.escape(line[:rng.randint(0, len(line))])} if r < .9 else
                       {'re': rng.choice(PATTERNS)})
        return out if rng.random() < .8 else out[0]
    return rng.choice([['nope'], 'nope', '', [''], {'re': rng.choice(PATTERNS)}, ['a', 'a'], 'a'])


def unlaunched(n, scratch):
    cmd = [['never', '-x'], [LaunchConfiguration('nope')], [EnvironmentVariable('NOPE_X')],
           [FindExecutable(name='no-such-executable-x')],
           ['run', Command(['touch ', os.path.join(scratch, 'touched')])],
           [PythonExpression(['1', '/', '0'])], [PathJoinSubstitution(['a', 'b']), 'c']][n]
    return ExecuteProcess(cmd=cmd)


def resolve(case, q, recorded):
    """Indices selected among those recorded, or the kind of error."""
    kind = q['process'][0]
    if kind == 'bad':
        return 'type'
    if kind == 'unlaunched':
        return 'none'
    if kind == 'all':
        return list(recorded) or 'none'
    if kind == 'action':
        return [q['process'][1]] if q['process'][1] in recorded else 'none'
    name, args = q['process'][1], q['args']
    if isinstance(args, str) and args != 'none':
        args = [args]
    out = []
    for n in recorded:
        p = case['procs'][n]
        if name not in p['name']:
            continue
        if args is None or (args == 'none' and not p['args']) or (
                args != 'none' and set(args) <= set(p['args'])):
            out.append(n)
    if not out:
        return 'none'
    return 'ambiguous' if q.get('strict', True) and len(out) > 1 else out


def make_filter(spec):
    if spec is None:
        return None
    if spec[0] == 'upper':
        return str.upper
    if spec[0] == 'drop':
        return lambda text: text.replace(spec[1], '')
    if spec[0] == 'not callable':
        return 'text'
    kwargs = {}
    if spec[1] is not None:
        kwargs['filtered_prefixes'] = spec[1]
    if spec[2] is not None:
        kwargs['filtered_patterns'] = spec[2]
    return basic_output_filter(**kwargs)


def model_filter(spec, text):
    if spec is None:
        return text
    if spec[0] == 'upper':
        return text.upper()
    if spec[0] == 'drop':
        return text.replace(spec[1], '')
    prefixes = ['pid', 'rc'] if spec[1] is None else spec[1]
    out = ''
    for line in re.findall('[^\n]*\n|[^\n]+', text):
        if any(line.startswith(p) for p in prefixes):
            continue
        if any(re.match(p, line) for p in spec[2] or []):
            continue
        out += line
    return out


def outcome(fn):
    try:
        fn()
    except AssertionError:
        return 'assert'
    except NoMatchingProcessException:
        return 'none'
    except TypeError:
        return 'type'
    except ValueError:
        return 'value'
    except Exception as exc:
        if type(exc) is Exception:
            return 'ambiguous'
        return repr(exc)
    return 'pass'


def run(case, obs):
    scratch = tempfile.mkdtemp(prefix='c25-')
    try:
        judge(case, obs, scratch)
        if os.path.exists(os.path.join(scratch, 'touched')):
            obs.fail('side-effect', 'looking up a process ran a command of its description')
    finally:
        shutil.rmtree(scratch)


def judge(case, obs, scratch):
    procs = [Proc(p['name'], ['/usr/bin/x'] + p['args']) for p in case['procs']]
    io, info = (ActiveIoHandler(), ActiveProcInfoHandler()) if case['active'] else \
        (IoHandler(), ProcInfoHandler())
    # round robin over the processes, so that their output is interleaved
    pending = [(p, list(s['chunks'])) for p, s in zip(procs, case['procs'])]
    with_io = []
    for p, s in zip(procs, case['procs']):
        if s['started']:
            info.append(p.started())
            io.track(s['name'])
    while any(c for _, c in pending):
        for n, (p, chunks) in enumerate(pending):
            if chunks:
                stream, raw = chunks.pop(0)
                raw = bytes.fromhex(raw)
                try:
                    raw.decode()
                except UnicodeDecodeError:
                    obs.count('split_characters')
                io.append(p.io(stream, raw))
                if n not in with_io:
                    with_io.append(n)
    # processes are listed in the order in which they were tracked
    with_io = [n for n in range(len(procs)) if n in with_io and case['procs'][n]['started']] + \
        [n for n in with_io if not case['procs'][n]['started']]
    with_info = [n for n, s in enumerate(case['procs']) if s['started']]
    for p, s in zip(procs, case['procs']):
        if s['started'] and s['exit'] is not None:
            info.append(p.exited(s['exit']))

    def selection(q):
        kind = q['process'][0]
        process = {'all': lambda: None, 'bad': lambda: q['process'][1], 'name': lambda: q['process'][1],
                   'action': lambda: procs[q['process'][1]],
                   'unlaunched': lambda: unlaunched(q['process'][1], scratch)}[kind]()
        args = NO_CMD_ARGS if q['args'] == 'none' else q['args']
        return process, args

    results = set()
    for q in case['queries']:
        kind = q['kind']
        if kind in ('stream', 'sequence', 'codes', 'resolve'):
            recorded = with_info if kind == 'codes' or q.get('of') == 'info' else with_io
            asked = dict(q, strict=True) if kind == 'sequence' else q
            chosen = resolve(case, asked, recorded)
            obs.count('selections')
            obs.count({'none': 'no_process', 'ambiguous': 'ambiguous', 'type': 'wrong_type'}.get(
                chosen if isinstance(chosen, str) else '', 'selected'))
            if q['process'][0] == 'unlaunched':
                obs.count('unlaunched')
            process, args = selection(q)
        label = repr({k: v for k, v in q.items()})
        if kind == 'resolve':
            handler = io if q['of'] == 'io' else info
            kwargs = {} if q['strict'] else {'strict_proc_matching': False}
            got = []
            end = outcome(lambda: got.extend(resolveProcesses(
                handler, process=process, cmd_args=args, **kwargs)))
            if isinstance(chosen, str):
                obs.equal(end, chosen, 'resolve', label)
            elif end != 'pass' or sorted(map(id, got)) != sorted(id(procs[n]) for n in chosen):
                obs.fail('resolve', '%s: %s %r' % (label, end, [p.details['name'] for p in got]))
        elif kind == 'stream':
            stream_query(case, obs, io, q, chosen, process, args, label, results)
        elif kind == 'sequence':
            sequence_query(case, obs, io, q, chosen, process, args, label)
        elif kind == 'codes':
            codes_query(case, obs, info, q, chosen, process, args, label)
        elif kind == 'expect':
            expect_query(obs, q, label)
        else:
            files_query(obs, q, scratch)
        if obs.violations:
            return
    if len(results) > 1:
        obs.sig(case['queries'])


def stream_query(case, obs, io, q, chosen, process, args, label, results):
    how = q['how']
    kwargs = {'output_filter': make_filter(q['filter'])} if q['filter'] else {}
    if q['strip'] is not None:
        kwargs['strip_ansi_escape_sequences'] = q['strip']
    if not q['strict']:
        kwargs['strict_proc_matching'] = False
    stream = {'assertInStdout': 'stdout', 'assertInStderr': 'stderr'}.get(how, q['stream'])
    if how == 'assertInStream' and stream is not None:
        kwargs['stream'] = stream
    stream = stream or 'stderr'
    got = outcome(lambda: getattr(asserts, how)(io, expectation(q['expect']), process, args, **kwargs))
    bad_value = q['filter'] == ['not callable'] or stream == 'both'
    obs.count('stream_asserts')
    if isinstance(chosen, str):
        if got != chosen and not (bad_value and got == 'value'):
            obs.fail('selection', '%s: %s instead of %s' % (label, got, chosen))
        return
    if bad_value:
        obs.equal(got, 'value', 'arguments', label)
        return
    hit = False
    for n in chosen:
        text = case['procs'][n][stream]
        if q['strip'] is not False:
            if ANSI.search(text):
                obs.count('ansi')
            text = ANSI.sub('', text)
        text = model_filter(q['filter'], text)
        if q['filter']:
            obs.count('filtered')
        found = find(q['expect'], lf(text))
        hit = hit or found is not None
        if found and len(case['procs'][n]['chunks']) > 2 and not any(
                isinstance(q['expect'], str) and q['expect'].encode() in bytes.fromhex(raw)
                for s, raw in case['procs'][n]['chunks']):
            obs.count('split_matches')
    obs.count('patterns' if 're' in q['expect'] and isinstance(q['expect'], dict) else
              'lists' if isinstance(q['expect'], list) else 'texts')
    results.add(hit)
    obs.count('passed' if hit else 'failed')
    obs.equal(got, 'pass' if hit else 'assert', 'in-stream', label)


def sequence_query(case, obs, io, q, chosen, process, args, label):
    steps = []

    def use():
        with asserts.assertSequentialStdout(io, process, args) as checker:
            for n, text in enumerate(q['steps']):
                steps.append(outcome(
                    lambda: (checker.assertInText if n % 3 == 2 else checker.assertInStdout)(text)))
            raise KeyError('mine')
    got = outcome(use)
    obs.count('sequences')
    if isinstance(chosen, str):
        obs.equal(got, chosen, 'selection', label)
        return
    obs.equal(got, "KeyError('mine')", 'sequence-error', label)
    text = case['procs'][chosen[0]]['stdout']
    at, expected = 0, []
    for step in q['steps']:
        found = find(step, text, at)
        expected.append('assert' if found is None else 'pass')
        at = found[1] if found else at
    obs.count('sequence_steps', len(steps))
    obs.equal(steps, expected, 'sequence', label)


def codes_query(case, obs, info, q, chosen, process, args, label):
    kwargs = {} if q['strict'] else {'strict_proc_matching': False}
    if q['codes'] is not None:
        kwargs['allowable_exit_codes'] = q['codes']
    got = outcome(lambda: asserts.assertExitCodes(info, process=process, cmd_args=args, **kwargs))
    codes = [0] if q['codes'] is None else q['codes']
    obs.count('exit_codes')
    if not all(isinstance(c, int) for c in codes):
        if got == 'pass':
            obs.fail('codes', '%s passed with a code that is no number' % label)
        return
    if isinstance(chosen, str):
        obs.equal(got, chosen, 'selection', label)
        return
    ends = [case['procs'][n]['exit'] for n in chosen]
    if all(e in codes for e in ends):
        obs.count('codes_allowed')
        obs.equal(got, 'pass', 'codes', label)
    elif None in ends:
        obs.count('not_exited')
        if got == 'pass':
            obs.fail('codes', '%s passed although a process has not exited' % label)
    else:
        obs.count('codes_refused')
        obs.equal(got, 'assert', 'codes', label)


def expect_query(obs, q, label):
    kwargs = {}
    if q['strip'] is not None:
        kwargs['strip_ansi_escape_sequences'] = q['strip']
    if q['strict']:
        kwargs['strict'] = True
    lines = re.split('\r?\n', q['text'])
    if lines[-1] == '':
        lines.pop()
    given = {'text': q['text']} if q['form'] == 'text' else {'lines': lines}
    if q['expected'] == 'text' and q['form'] == 'lines':
        text = '\n'.join(lines)
    else:
        text = q['text']
    if q['strip'] is not False:
        text = ANSI.sub('', text)
        lines = [ANSI.sub('', line) for line in lines]
    try:
        got = expect_output(**given, **{'expected_' + q['expected']: expectation(q['spec'])}, **kwargs)
    except Exception as exc:
        obs.fail('expect-output-error', '%s: %r' % (label, exc))
        return
    obs.count('expect_output')
    spec = q['spec']
    if q['expected'] == 'text':
        text = lf(text)
        if not q['strict']:
            want = find(spec, text) is not None
        elif isinstance(spec, str):
            want = text == spec
        elif isinstance(spec, dict):
            want = re.compile(spec['re']).match(text) is not None
        elif all(isinstance(s, str) for s in spec):
            want = text.startswith(''.join(spec))
        else:
            return
    else:
        def fits(item, line):
            if isinstance(item, dict):
                return re.compile(item['re']).match(line) is not None
            return item in line
        if isinstance(spec, list) and q['strict']:
            want = len(spec) <= len(lines) and all(fits(s, x) for s, x in zip(spec, lines))
        elif isinstance(spec, list):
            rest = iter(lines)
            want = all(any(fits(s, x) for x in rest) for s in spec)
        elif q['strict']:
            return
        else:
            want = any(fits(spec, x) for x in lines)
    obs.equal(got, want, 'expect-output', label)
    for bad in ({}, {'text': 'a', 'lines': ['a'], 'expected_text': 'a'}, {'text': 'a'},
                {'text': 'a', 'expected_text': 'a', 'expected_lines': ['a']}, {'expected_text': 'a'}):
        end = outcome(lambda: expect_output(**bad))
        obs.equal(end, 'value', 'expect-output-arguments', repr(bad))


def files_query(obs, q, scratch):
    base = os.path.join(scratch, 'expected.d')
    for ext in {'both': ['txt', 'regex']}.get(q['which'], [q['which']]):
        if ext != 'none':
            with open('%s.%s' % (base, ext), 'w', encoding='utf-8', newline='') as f:
                f.write(q['content'] if ext == 'txt' else 'a+b\n\\d')
    kwargs = {'encoding': q['encoding']} if q['encoding'] else {}
    obs.count('files')
    try:
        got = expected_output_from_file(base, **kwargs)
    except RuntimeError as exc:
        got = exc
    if q['which'] == 'none':
        if not isinstance(got, RuntimeError):
            obs.fail('file', 'expectations from a missing file: %r' % got)
    elif q['which'] == 'regex':
        obs.equal(got, [re.compile('a+b'), re.compile('\\d')], 'file', 'patterns')
    else:
        want = re.split('\r?\n', q['content'])
        obs.equal(got, want[:-1] if want[-1] == '' else want, 'file', 'lines')
    for ext in ('txt', 'regex'):
        if os.path.exists('%s.%s' % (base, ext)):
            os.unlink('%s.%s' % (base, ext))
