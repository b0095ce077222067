"""C23: each message reaches exactly the destinations configured for it, exactly once."""
import io
import json
import logging
import os
import re
import shutil
import sys
import tempfile
import threading
import warnings

import launch.logging
from launch import LaunchDescription
from launch.actions import ExecuteProcess, LogInfo
from launch.substitutions import LaunchConfiguration, TextSubstitution
from vf.kit import execute, finish, new_service

CASES = {'quick': 2000, 'thorough': 60000}
WALL = {'quick': 100, 'thorough': 800}
TIMEOUT = 60
HANG = 30
NEED = {'messages': 30000, 'resets': 1000, 'output_configs': 4000, 'invalid': 3000, 'processes': 1200,
        'process_lines': 5000, 'files_read': 9000, 'threads': 900, 'env_formats': 200,
        'overridden': 150, 'below_level': 3000, 'log_dir_unset': 100}
RULE = ('a case is a random history of the logging configuration (resets, directories, levels, formats, '
        'environment) and of loggers of random configurations used from several threads, followed by a '
        'launch of processes with random output configurations; the screen stream and every file of '
        'every log directory must have exactly the text predicted; non-trivial: more than one '
        'destination and process')
ASSUMPTIONS = ['the creation time of log records is fixed, so that texts can be predicted']

ALIASES = {'screen': ({'screen'}, {'screen'}), 'log': ({'log'}, {'log', 'screen'}),
           'both': ({'log', 'screen'}, {'log', 'screen'}),
           'own_log': ({'own', 'combined'}, {'own', 'combined'}),
           'full': ({'screen', 'log', 'own', 'combined'}, {'screen', 'log', 'own', 'combined'})}
DESTINATIONS = ['screen', 'log', 'own_log']
INVALID = ['', 'Screen', 'stdout', 'file', 'own', 'screen,log', 'none', 5, None, ['screen'], {'out': 'log'},
           {'stdout': 'file'}, {'both': ['screen', 'x']}, {'stderr': ''}, {'stdout': ['both']},
           {'stdout': 'log', 'x': 'log'}, {'screen': 'stdout'}, {'stdout': ['log', '']}]
MESSAGES = ['plain', 'with {braces}', '100 %', '%s %d', '{0} {}', 'ünï→', 'two\nlines', '', ' ', '\ttab',
            'a\x1b[31mred\x1b[0m', '$name', 'trailing ', '\\n']
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]
FORMATS = [  # (format, style, function of (record name, level name, text))
    ['default', None], ['default', None], ['default_with_timestamp', None],
    ['{name}|{levelname}|{message}', None], ['{message}', '{'], ['%(name)s: %(message)s', '%'],
    ['$levelname $message', '$'], ['> {message} <', '{'], ['{levelname:>9} {name:<8}{message}', None]]
CREATED = 1700000000.25


def dict_config(rng):
    out = {}
    for source in rng.sample(['stdout', 'stderr', 'both'], rng.randint(0, 3)):
        d = rng.sample(DESTINATIONS, rng.randint(0, 3))
        out[source] = d[0] if len(d) == 1 and rng.random() < .5 else d
    return out


def gen_config(rng):
    return rng.choice(sorted(ALIASES)) if rng.random() < .5 else dict_config(rng)


def gen(rng, i, tier):
    segments = []
    for _ in range(rng.choice([1, 2, 3])):
        names = rng.sample(['proc-1', 'proc-2', 'a.b-3', 'x y-4', 'launch-5', 'p-11', 'p-1', 'ü-6'], 4)
        loggers = rng.sample(['launch', 'launch.x', 'user', 'node.a', 'Z'], rng.randint(0, 3)) + \
            rng.sample([None], rng.choice([0, 0, 1]))
        ops = []
        for name in names:
            ops.append(['output', name, gen_config(rng), rng.choice([1, 1, 2])])
        for name in loggers:
            ops.append(['logger', name, rng.choice([1, 1, 2])])
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(['screen_format'] + rng.choice(FORMATS))
        for _ in range(rng.choice([0, 0, 1, 2])):
            ops.append(['log_format'] + rng.choice([f for f in FORMATS
                                                    if f[0] != 'default_with_timestamp']))
        for _ in range(rng.choice([0, 0, 1])):
            ops.append(['level', rng.choice(LEVELS)])
        for _ in range(rng.choice([0, 0, 1])):
            ops.append(['own_level', rng.choice(names), rng.choice(['stdout', 'stderr']),
                        rng.choice(LEVELS)])
        if rng.random() < .3:
            ops.append(['foreign', rng.choice(loggers + [n + '-stdout' for n in names] +
                                              [n + '-stderr' for n in names])])
        ops += [['invalid', rng.choice(INVALID), rng.choice(names)] for _ in range(2)]
        for _ in range(rng.randint(5, 25)):
            ops.append(['message', rng.randrange(99), rng.choice(LEVELS), rng.choice(MESSAGES),
                        rng.random() < .1])
        rng.shuffle(ops)
        if rng.random() < .3:
            ops.append(['threads', rng.choice([2, 4]), rng.choice([10, 40])])
        env = {}
        if rng.random() < .15:
            env['OVERRIDE_LAUNCH_SCREEN_FORMAT'] = rng.choice([
                '[{levelname}] \\t{message}', '{name}\\x3a{message}', 'default', 'default_with_timestamp',
                '→ {message}', 'é{message}', ''])
        if rng.random() < .15:
            env['OVERRIDE_LAUNCH_LOG_FORMAT'] = rng.choice([
                '{levelname}\\n{message}', '{name}\\x3a{message}', 'default', '→ {message}', ''])
        segments.append({'factory': rng.random() < .15, 'unset': rng.random() < .1,
                         'dir': rng.choice(['ros_log_dir', 'ros_home', 'home', 'set', 'tilde', 'same',
                                            'same', 'relative']),
                         'env': env, 'ops': ops, 'blocked': rng.random() < .05, 'dangling': rng.random() < .1})
    processes = []
    for k in range(rng.randint(1, 4)):
        out = []
        for j in range(rng.randint(0, 8)):
            out.append([.01 * (j + 1), rng.choice([1, 2]),
                        rng.choice(MESSAGES).replace('\n', ' ') + ' line %d.%d\n' % (k, j)])
        processes.append({'config': gen_config(rng), 'how': rng.choice(['plain', 'substitution']),
                          'out': out, 'name': rng.choice([None, 'a', 'p.q', 'a']),
                          'format': rng.choice([None, None, None, '{line}', '<{line}>'])})
    return {'segments': segments, 'processes': processes,
            'override': rng.choice(sorted(ALIASES)) if rng.random() < .15 else None}


# ------------------------------------------------------------------ model

def destinations(config):
    """Return the destinations of both sources."""
    if isinstance(config, str):
        return ALIASES[config]

    def named(source):
        d = config.get(source, [])
        return {d} if isinstance(d, str) else set(d)
    out = []
    for source in ('stdout', 'stderr'):
        d = {x for x in named(source) | named('both') if x != 'own_log'}
        if 'own_log' in named(source):
            d.add('own')
        if 'own_log' in named('both'):
            d.add('combined')
        out.append(d)
    return tuple(out)


def formatted(fmt, name, level, text):
    style = fmt[1] or '{'
    f = fmt[0]
    values = {'name': name, 'levelname': logging.getLevelName(level), 'msg': text, 'message': text,
              'created': CREATED}
    if f == 'default_with_timestamp' or f == 'default' and fmt[2:] == ['log']:
        return '%.7f [%s] [%s]: %s' % (CREATED, values['levelname'], name, text)
    if f == 'default':
        return '[%s] [%s]: %s' % (values['levelname'], name, text)
    if style == '%':
        return f % values
    if style == '$':
        return re.sub(r'\$(\w+)', lambda m: values[m.group(1)], f)
    return re.sub(r'\{(\w+)((?::[^}]*)?)\}', lambda m: format(values[m.group(1)], m.group(2)[1:]), f)


class Model:
    """Predicts what is written where since the last reset."""

    def __init__(self, env):
        self.env = env
        self.screen = []
        self.files = {}
        self.level = logging.INFO
        self.levels = {}
        self.routes = {}        # logger name -> list of (file name or None, format or None)
        self.formats = {}
        self.set_format('screen', ['default', None])
        self.set_format('log', ['default', None])
        self.opened = set()

    def set_format(self, which, fmt):
        override = self.env.get({'screen': 'OVERRIDE_LAUNCH_SCREEN_FORMAT',
                                 'log': 'OVERRIDE_LAUNCH_LOG_FORMAT'}[which])
        if override:
            text = override.replace('\\t', '\t').replace('\\n', '\n').replace('\\x3a', ':')
            fmt = [text, None]
        self.formats[which] = fmt[:2] + [which]

    def add(self, logger, target, fmt):
        routes = self.routes.setdefault(logger, {})
        if target is not None:
            self.opened.add(target)
        routes[target] = fmt

    def output(self, name, config):
        for source, where in zip(('stdout', 'stderr'), destinations(config)):
            logger = '%s-%s' % (name, source)
            self.routes.setdefault(logger, {})
            if 'screen' in where:
                self.add(logger, None, '{}')
            if 'log' in where:
                self.add(logger, 'launch.log', '%.7f {}' % CREATED)
            if 'own' in where:
                self.add(logger, '%s-%s.log' % (name, source), '{}')
            if 'combined' in where:
                self.add(logger, name + '.log', '{}')

    def logger(self, name):
        self.add(name, None, None)
        self.add(name, 'launch.log', None)

    def log(self, name, level, text):
        """Predict the lines; return whether the message is above the level."""
        if level < self.levels.get(name, self.level):
            return False
        for target, fmt in self.routes.get(name, {}).items():
            if fmt is None:
                line = formatted(self.formats['screen' if target is None else 'log'], name or 'root',
                                 level, text)
            else:
                line = fmt.replace('{}', text)
            self.write(target, line + '\n')
        return True

    def write(self, target, text):
        if target is None:
            self.screen.append(text)
        else:
            self.files.setdefault(target, []).append(text)


# ------------------------------------------------------------------ execution

class Screen(io.StringIO):
    pass


def set_env(values):
    for name in ('ROS_LOG_DIR', 'ROS_HOME', 'OVERRIDE_LAUNCH_SCREEN_FORMAT',
                 'OVERRIDE_LAUNCH_LOG_FORMAT', 'OVERRIDE_LAUNCH_PROCESS_OUTPUT'):
        os.environ.pop(name, None)
    os.environ.update(values)


def run(case, obs):
    base = tempfile.mkdtemp(prefix='c23-')
    old_env, old_out, old_cwd = dict(os.environ), sys.stdout, os.getcwd()
    factory = logging.getLogRecordFactory()

    def record(*args, **kwargs):
        r = factory(*args, **kwargs)
        r.created = CREATED
        return r
    logging.setLogRecordFactory(record)
    try:
        os.chdir(base)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            seen = set()
            done = []
            for segment in case['segments']:
                done.append(one_segment(segment, obs, base, seen))
            for check in done:      # later segments change nothing of the earlier ones
                check()
            launched(case, obs, base)
    finally:
        logging.setLogRecordFactory(factory)
        sys.stdout = old_out
        os.chdir(old_cwd)
        os.environ.clear()
        os.environ.update(old_env)
        close_files()
        launch.logging.reset()
        shutil.rmtree(base)
    obs.sig(json.dumps(case['segments'], sort_keys=True))


def close_files():
    for h in launch.logging.launch_config.file_handlers.values():
        h.close()


def set_directory(segment, base):
    """Set the environment; return where the log directory is expected to be."""
    env = dict(segment['env'])
    os.environ['HOME'] = os.path.join(base, 'home')
    how = segment['dir']
    if how in ('ros_log_dir', 'same', 'set'):
        env['ROS_LOG_DIR'] = os.path.join(base, how)
        env['ROS_HOME'] = os.path.join(base, 'wrong')
        expected = env['ROS_LOG_DIR']
    elif how == 'tilde':
        env['ROS_LOG_DIR'] = '~/x/../logs'
        expected = os.path.join(base, 'home', 'logs')
    elif how == 'relative':
        env['ROS_LOG_DIR'] = 'some/logs'
        expected = os.path.join(base, 'some', 'logs')
    elif how == 'ros_home':
        env['ROS_HOME'] = os.path.join(base, 'roshome')
        expected = os.path.join(base, 'roshome', 'log')
    else:
        env['ROS_LOG_DIR'] = ''
        expected = os.path.join(base, 'home', '.ros', 'log')
    set_env(env)
    return expected


def one_segment(segment, obs, base, seen):
    """Apply the operations after a reset; return a function which compares all outputs."""
    expected_base = set_directory(segment, base)
    config = launch.logging.launch_config
    screen = Screen()
    sys.stdout = screen
    close_files()
    latest = os.path.join(expected_base, 'latest')
    if segment['blocked'] and not os.path.lexists(latest):
        os.makedirs(latest)
        seen.add(latest)
    if segment.get('dangling') and not os.path.isdir(latest) and latest not in seen:
        os.makedirs(expected_base, exist_ok=True)
        if os.path.islink(latest):
            os.unlink(latest)
        os.symlink(os.path.join(expected_base, 'gone'), latest)
        obs.count('latest_dangling')
    try:
        launch.logging.reset()
    except Exception as exc:
        obs.fail('reset', 'reset() failed with %s: %r' % (segment['env'], exc))
        return lambda: None
    obs.count('resets')
    obs.count('env_formats', any(segment['env'].values()))
    model = Model(segment['env'])
    explicit = None
    if segment['dir'] == 'set':
        explicit = os.path.join(base, 'explicit%d' % len(seen))
        try:
            config.log_dir = explicit
        except ValueError:
            obs.count('invalid')
        else:
            obs.fail('directory', 'a directory which does not exist was accepted')
        os.makedirs(explicit)
        config.log_dir = explicit
    elif segment.get('unset'):
        # back to the default before it is used
        os.makedirs(os.path.join(base, 'unused'), exist_ok=True)
        config.log_dir = os.path.join(base, 'unused')
        config.log_dir = None
        obs.count('log_dir_unset')
    made = []
    if segment['factory']:
        def make(path, encoding=None):
            made.append(os.path.basename(path))
            return launch.logging.handlers.FileHandler(path, encoding=encoding)
        config.log_handler_factory = make
    messages, foreign = 0, []
    for op in segment['ops']:
        kind = op[0]
        if kind == 'output':
            for _ in range(op[3]):
                loggers = launch.logging.get_output_loggers(op[1], op[2] if not isinstance(
                    op[2], dict) else {k: set(v) if isinstance(v, list) and len(v) > 1 else v
                                       for k, v in op[2].items()})
                names = tuple(g.name for g in loggers)
                obs.equal(names, (op[1] + '-stdout', op[1] + '-stderr'), 'loggers', 'output loggers')
            model.output(op[1], op[2])
            obs.count('output_configs')
        elif kind == 'logger':
            for _ in range(op[2]):
                launch.logging.get_logger(*([] if op[1] is None else [op[1]]))
            model.logger(op[1])
        elif kind == 'screen_format':
            config.set_screen_format(op[1], **({'screen_style': op[2]} if op[2] else {}))
            model.set_format('screen', op[1:])
            if not segment['env'].get('OVERRIDE_LAUNCH_SCREEN_FORMAT'):
                bad(obs, lambda: config.set_screen_format('default', screen_style='%'), 'screen style')
        elif kind == 'log_format':
            config.set_log_format(op[1], **({'log_style': op[2]} if op[2] else {}))
            model.set_format('log', op[1:])
            if not segment['env'].get('OVERRIDE_LAUNCH_LOG_FORMAT'):
                bad(obs, lambda: config.set_log_format('default', log_style='{'), 'log style')
        elif kind == 'foreign':
            handler = logging.NullHandler()     # e.g. of an application
            logging.getLogger(op[1]).addHandler(handler)
            foreign.append((op[1], handler))
        elif kind == 'level':
            config.level = op[1]
            model.level = op[1]
            obs.equal(config.level, op[1], 'level', 'level')
        elif kind == 'own_level':
            name = '%s-%s' % (op[1], op[2])
            logging.getLogger(name).setLevel(op[3])
            model.levels[name] = op[3]
        elif kind == 'invalid':
            bad(obs, lambda: launch.logging.get_output_loggers(op[2], op[1]),
                'output configuration %r' % (op[1],))
        elif kind == 'message':
            if not model.routes:
                continue
            name = sorted(model.routes, key=str)[op[1] % len(model.routes)]
            messages += 1
            text = op[3] and op[3] + ' #%d' % messages
            obs.count('messages' if model.log(name, op[2], text) else 'below_level')
            if op[4]:
                logging.getLogger(name).log(op[2], '%s%s', text[:3], text[3:])
            else:
                logging.getLogger(name).log(op[2], text)
        elif kind == 'threads':
            threads(obs, model, op[1], op[2])
    for name, handler in foreign:
        if handler not in logging.getLogger(name).handlers:
            obs.fail('foreign', 'another handler of logger %s was removed' % name)
        logging.getLogger(name).removeHandler(handler)
    if segment['factory']:
        obs.equal(sorted(made), sorted(model.opened), 'factory', 'files of the handler factory')
    log_dir = config.log_dir
    obs.equal(config.log_dir, log_dir, 'directory', 'log directory asked twice')
    obs.equal(config.get_log_file_path('x.log'), os.path.join(log_dir, 'x.log'), 'directory', 'file path')
    if explicit is not None:
        obs.equal(log_dir, explicit, 'directory', 'log directory which was set')
    else:
        obs.equal(os.path.abspath(os.path.dirname(log_dir)), expected_base, 'directory',
                  'parent of the log directory')
        if os.path.abspath(log_dir) in seen:
            obs.fail('directory', 'the log directory %s is not unique' % log_dir)
        if latest in seen:
            if os.path.islink(latest):
                obs.fail('directory', 'a directory was replaced by the link')
            obs.count('latest_blocked')
        else:
            obs.equal(os.path.realpath(latest), os.path.realpath(log_dir), 'directory', 'latest')
    log_dir = os.path.abspath(log_dir)
    seen.add(log_dir)

    def check():
        compare(obs, model, screen, log_dir, segment)
    check()
    return check


def bad(obs, function, what):
    try:
        function()
    except ValueError:
        obs.count('invalid')
    except Exception as exc:
        obs.fail('invalid', 'invalid %s: %r instead of a ValueError' % (what, exc))
    else:
        obs.fail('invalid', 'invalid %s was accepted' % what)


def threads(obs, model, count, each):
    """Log from several threads, each to its own logger."""
    names = sorted([n for n, r in model.routes.items() if r and n], key=str)[:count]
    if len(names) < 2:
        return
    obs.count('threads', len(names))
    start = threading.Barrier(len(names))

    def work(name):
        start.wait()
        for k in range(each):
            logging.getLogger(name).critical('%s message %d' % (name, k))
    workers = [threading.Thread(target=work, args=(n,)) for n in names]
    for w in workers:
        w.start()
    for w in workers:
        w.join()
    before = len(model.screen), {k: len(v) for k, v in model.files.items()}
    for name in names:
        for k in range(each):
            model.log(name, logging.CRITICAL, '%s message %d' % (name, k))
            obs.count('messages')
    # the order of different threads is not determined
    model.tail = {None: before[0], **{k: before[1].get(k, 0) for k in model.files}}


def compare(obs, model, screen, log_dir, segment):
    tail = getattr(model, 'tail', {})
    results = {None: screen.getvalue()}
    names = sorted(os.listdir(log_dir))
    obs.equal(names, sorted(model.opened), 'files', 'files in the log directory')
    for name in names:
        with open(os.path.join(log_dir, name), encoding='utf-8', newline='') as f:
            results[name] = f.read()
        obs.count('files_read')
    for target, got in results.items():
        want = model.screen if target is None else model.files.get(target, [])
        where = 'screen' if target is None else re.sub(r'.*?(-std\w+)?\.log', r'own\1.log', target) \
            if target != 'launch.log' else target
        k = tail.get(target)
        if k is None:
            obs.equal(got, ''.join(want), where, 'text of %s' % (target or 'the screen'))
            continue
        head = ''.join(want[:k])
        obs.equal(got[:len(head)], head, where, 'text of %s' % (target or 'the screen'))
        rest = got[len(head):]
        if sorted(rest.splitlines()) != sorted(''.join(want[k:]).splitlines()):
            obs.fail(where, '%s: messages of threads: expected %d lines, observed %d: %r' % (
                target or 'the screen', len(want) - k, rest.count('\n'), rest[:300]))
            continue
        # messages of each logger are in order
        position = {}
        for m in re.finditer(r'(\S.*?) message (\d+)', rest):
            name = m.group(1).split(' ')[-1].strip('|[]:')
            if int(m.group(2)) != position.get(name, 0):
                obs.fail(where, '%s: message %s of %s is out of order' % (target, m.group(2), name))
                break
            position[name] = int(m.group(2)) + 1


def launched(case, obs, base):
    """Launch processes with output configurations."""
    env = {'ROS_LOG_DIR': os.path.join(base, 'launched')}
    if case['override']:
        env['OVERRIDE_LAUNCH_PROCESS_OUTPUT'] = case['override']
    set_env(env)
    screen, errors = Screen(), Screen()
    sys.stdout = screen
    old_err, sys.stderr = sys.stderr, errors
    close_files()
    launch.logging.reset()
    service, loop = new_service()
    try:
        actions = []
        scripts = []
        for k, p in enumerate(case['processes']):
            config = p['config']
            if isinstance(config, str) and p['how'] == 'substitution':
                service.context.launch_configurations['output'] = config[2:]
                config = [TextSubstitution(text=config[:2]), LaunchConfiguration('part%d' % k)]
                service.context.launch_configurations['part%d' % k] = p['config'][2:]
            kwargs = {}
            if p['name']:
                kwargs['name'] = p['name']
            if p['format']:
                kwargs['output_format'] = p['format']
            actions.append(ExecuteProcess(cmd=['sim', 'p%d' % k], output=config, **kwargs))
            scripts.append({'out': p['out'], 'exit': [1., 0], 'sig': {}})
        actions.append(LogInfo(msg='a message of the user'))
        loop.script_of = lambda cmd: scripts[int(cmd[1][1:])]
        service.include_launch_description(LaunchDescription(actions))
        result = execute(service, loop)
        if result.rc != 0 or result.deadlock:
            obs.fail('launch', 'the launch ended with %r %r: %s' % (
                result.rc, result.error, screen.getvalue()[-500:]))
            return
        log_dir = launch.logging.launch_config.log_dir
        results = {'': screen.getvalue()}
        for name in os.listdir(log_dir):
            with open(os.path.join(log_dir, name), encoding='utf-8', newline='') as f:
                results[name] = f.read()
        expected = {name: [] for name in results}
        for k, p in enumerate(case['processes']):
            obs.count('processes')
            obs.count('overridden', bool(case['override']))
            name = actions[k].process_details['name']
            both = destinations(case['override'] or p['config'])
            for fd, source in ((1, 'stdout'), (2, 'stderr')):
                for _, fd2, line in p['out']:
                    if fd != fd2:
                        continue
                    obs.count('process_lines')
                    line = line[:-1]
                    text = '[%s] %s' % (name, line) if not p['format'] else \
                        p['format'].replace('{line}', line)
                    where = both[fd - 1]
                    if 'screen' in where:
                        expected[''].append(text)
                    if 'log' in where:
                        expected.setdefault('launch.log', []).append('%.7f %s' % (CREATED, text))
                    if 'own' in where:
                        expected.setdefault('%s-%s.log' % (name, source), []).append(text)
                    if 'combined' in where:
                        expected.setdefault(name + '.log', []).append(text)
        for name in set(results) | set(expected):
            got = [line for line in results.get(name, '').split('\n') if re.search(r'line \d+\.\d+', line)]
            obs.equal(sorted(got), sorted(expected.get(name, [])), 'launch',
                      'process output in %s' % (name or 'the screen'))
        # each in order
        for name, text in results.items():
            for k, p in enumerate(case['processes']):
                for fd in (1, 2):
                    # the lines of one stream stay in order
                    own = [line for _, f, line in p['out'] if f == fd]
                    marks = [m for m in re.findall(r'line %d\.(\d+)' % k, text)
                             if any(line.endswith('line %d.%s\n' % (k, m)) for line in own)]
                    obs.equal(marks, sorted(marks, key=int), 'launch', 'order of lines in %s' % name)
        for name in ('', 'launch.log'):
            obs.equal(len(re.findall(r'\[INFO\] \[launch\.user\]: a message of the user\n',
                                     results[name])), 1, 'launch', 'messages of LogInfo in %s' % name)
        obs.equal(errors.getvalue(), '', 'launch', 'text on stderr')
    finally:
        sys.stderr = old_err
        finish(loop)
