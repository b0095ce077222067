"""C24: the launch_testing handlers are linearizable logs whose waiters all wake up."""
import sys
import threading
import time

from launch_testing.io_handler import ActiveIoHandler
from launch_testing.asserts import NO_CMD_ARGS
from launch_testing.proc_info_handler import ActiveProcInfoHandler
from launch.events.process import ProcessExited
from vf.texts import Proc, contains, expectation

CASES = {'quick': 2500, 'thorough': 60000}
WALL = {'quick': 100, 'thorough': 800}
TIMEOUT = 90
HANG = 80
NEED = {'appended': 25000, 'reads': 60000, 'waits': 6000, 'waits_blocked': 1500, 'waits_failed': 1000,
        'waits_succeeded': 4000, 'racing_reads': 1200, 'iterated_while_appending': 800,
        'several_waiters': 700, 'selected_by_args': 800, 'waits_on_exit': 700, 'waits_on_start': 1500,
        'no_such_process': 200}
RULE = ('a case is a random set of processes whose events are appended by several threads while others '
        'list, iterate, look up and wait; every result must be explained by the final order of arrival '
        'and the times at which the calls were made; non-trivial: calls overlapping appends')
ASSUMPTIONS = ['a thread that was woken up gets to run within 6 seconds']
GRACE = 6.
NEVER = 30.

NAMES = ['talker-1', 'talker-2', 'listener-3', 'my talker-4', 'a.out-5', 'x-6', 'talk-77']


def gen(rng, i, tier):
    procs = []
    for name in rng.sample(NAMES, rng.randint(1, 5)):
        events = [['start']]
        tokens = 0
        for _ in range(rng.randint(0, 14)):
            stream = rng.choice(['stdout', 'stderr'])
            token = '<%s/%d>' % (name, tokens)
            tokens += 1
            text = rng.choice(['%s\n', 'line %s', '%s\r\n', '\x1b[31m%s\x1b[0m\n', 'ü%s']) % token
            cut = rng.randint(1, len(text) - 1) if rng.random() < .3 else None
            for piece in ([text] if cut is None else [text[:cut], text[cut:]]):
                events.append(['io', stream, piece, token])
        if rng.random() < .7:
            events.append(['exit', rng.choice([0, 1, -15])])
            if rng.random() < .2:
                events += [['start'], ['exit', 0]]
        elif rng.random() < .2:
            events = []  # a process that is never heard of
        procs.append({'name': name, 'args': rng.choice([[], ['--a'], ['--a', '--b'], ['x y']]),
                      'events': events, 'track': rng.random() < .4})
    waits = []
    for _ in range(rng.randint(1, 8)):
        target = rng.randrange(len(procs))
        p = procs[target]
        by = rng.choice(['action', 'action', 'name', 'substring', 'all', 'args'])
        timeout = rng.choice([0, .002, .02, .05, NEVER, NEVER, NEVER, NEVER])
        start = rng.choice([0, 0, 0, .002, .01, .03])
        kind = rng.choice(['waitFor', 'waitFor', 'assertWaitFor', 'exit', 'start', 'io_event',
                           'proc_event'])
        ios = [e for e in p['events'] if e[0] == 'io']
        if kind == 'exit' and not any(e[0] == 'exit' for e in p['events']) or \
                kind in ('start', 'proc_event') and not p['events']:
            timeout = rng.choice([.02, .05])
        wait = {'kind': kind, 'target': target, 'by': by, 'timeout': timeout, 'delay': start}
        if kind in ('waitFor', 'assertWaitFor', 'io_event'):
            stream = rng.choice(['stdout', 'stderr', 'stderr'])
            ios = [e for e in ios if e[1] == stream]
            wait['stream'] = stream
            form = rng.random()
            if not ios or form < .1:
                wait['expect'] = 'never seen'
                wait['timeout'] = rng.choice([.02, .05])
            elif form < .5:
                wait['expect'] = rng.choice(ios)[3]
            elif form < .7:
                wait['expect'] = {'re': rng.choice(ios)[3].replace('.', r'\.')[:-1] + '>'}
            else:
                a, b = sorted([rng.randrange(len(ios)), rng.randrange(len(ios))])
                wait['expect'] = [ios[a][3]] + ([ios[b][3]] if ios[b][3] != ios[a][3] else [])
        if wait['timeout'] == NEVER and rng.random() < .2 and kind != 'start':
            wait['timeout'] = None
        waits += [wait] * (rng.choice([1, 1, 1, 2, 4]))
    return {'procs': procs, 'waits': waits[:14], 'appenders': rng.choice([1, 1, 2, 3]),
            'readers': rng.randint(1, 3), 'pause': rng.choice([0, .0005, .001, .002]),
            'slow': rng.choice([0, 0, 0, .0003]), 'interval': rng.choice([.005, 1e-4, 1e-5]),
            'seed': rng.randrange(1 << 30), 'share': rng.random() < .3}


class Log:
    """Calls with the times at which they were made and returned."""

    def __init__(self):
        self.calls = []

    def call(self, fn, *args):
        begin = time.monotonic()
        try:
            result = fn(*args)
        except Exception as exc:
            result = exc
        self.calls.append((args, begin, time.monotonic(), result))
        return result


def selected(case, procs, wait):
    """The processes selected once all of them are known, and the arguments for it."""
    target = procs[wait['target']]
    spec = case['procs'][wait['target']]
    if wait['by'] == 'action':
        return [target], target, None
    if wait['by'] == 'all':
        return list(procs), None, None
    if wait['by'] == 'name':
        name, args = spec['name'], None
    elif wait['by'] == 'substring':
        name, args = spec['name'][-2:], None
    else:
        name = spec['name'][:5]
        args = spec['args'][-1] if spec['args'] else NO_CMD_ARGS
    chosen = [p for p, s in zip(procs, case['procs']) if name in s['name'] and (
        args is None or (args is NO_CMD_ARGS and not s['args']) or
        (args is not NO_CMD_ARGS and args in s['args']))]
    return chosen, name, args


def run(case, obs):
    old = sys.getswitchinterval()
    sys.setswitchinterval(case['interval'])
    try:
        run_threads(case, obs)
    finally:
        sys.setswitchinterval(old)


def run_threads(case, obs):
    import random
    slow = case['slow']
    pause = (lambda: time.sleep(slow)) if slow else None
    procs = [Proc(p['name'], ['/bin/%s' % p['name']] + p['args'], pause) for p in case['procs']]
    io, info = ActiveIoHandler(), ActiveProcInfoHandler()

    # what to append: per appender a list of (handler, event)
    todo = [[] for _ in range(case['appenders'])]
    rng = random.Random(case['seed'])
    script = []
    queues = [(p, list(s['events'])) for p, s in zip(procs, case['procs'])]
    for p, s in zip(procs, case['procs']):
        if s['track']:
            io.track(s['name'])
    while any(q for _, q in queues):
        n = rng.choice([n for n, (_, q) in enumerate(queues) if q])
        p, q = queues[n]
        event = q.pop(0)
        if event[0] == 'io':
            # sharing: output of one process comes from several threads
            k = rng.randrange(len(todo)) if case['share'] else n % len(todo)
            todo[k].append((io, p.io(event[1], event[2].encode())))
        else:
            made = p.started() if event[0] == 'start' else p.exited(event[1])
            todo[n % len(todo)].append((info, made))
        script.append(event)
    appended = Log()
    done = threading.Event()
    go = threading.Event()
    problems = []
    kept = []

    def guarded(fn):
        def target():
            go.wait()
            try:
                fn()
            except BaseException as exc:
                problems.append(exc)
        return threading.Thread(target=target, daemon=True)

    def appender(items, seed):
        rng = random.Random(seed)

        def body():
            for handler, event in items:
                if case['pause']:
                    time.sleep(rng.random() * case['pause'])
                appended.call(handler.append, event)
        return guarded(body)

    def reader(log, seed):
        rng = random.Random(seed)

        def iterate(handler):
            out = []
            for event in handler:
                if not out:
                    asked = time.monotonic()
                out.append(event)
                if rng.random() < .2:
                    time.sleep(0)
            return out, asked if out else time.monotonic()

        def peek(handler, key):
            try:
                return handler[key]
            except KeyError:
                return None

        calls = {
            'io': lambda key: iterate(io),
            'io_procs': lambda key: io.processes(),
            'io_names': lambda key: io.process_names(),
            'io_of': lambda key: peek(io, key),
            'io_of_name': lambda key: peek(io, key.details['name']),
            'info': lambda key: iterate(info),
            'info_procs': lambda key: info.processes(),
            'info_names': lambda key: info.process_names(),
            'info_of': lambda key: peek(info, key),
            'info_of_name': lambda key: peek(info, key.details['name']),
        }
        names = sorted(calls)

        def body():
            left = 12
            while left and len(log.calls) < 400:
                left -= done.is_set()
                name = rng.choice(names)
                key = rng.choice(procs)

                def read(name, key):
                    return calls[name](key)
                result = log.call(read, name, key)
                if isinstance(result, list):
                    log.calls[-1] = log.calls[-1][:3] + (list(result),)
                    if rng.random() < .3:
                        result.clear()  # it is ours
                    kept.append((name, result, list(result)))
                if rng.random() < .3:
                    time.sleep(rng.random() * .001)
        return guarded(body)

    def waiter(wait, log):
        chosen, name, args = selected(case, procs, wait)
        kind, timeout = wait['kind'], wait['timeout']
        stream = wait.get('stream')

        def perform(wait):
            common = {'timeout': timeout}
            if kind in ('waitFor', 'assertWaitFor'):
                kwargs = dict(common, strict_proc_matching=False)
                if stream != 'stderr':
                    kwargs['stream'] = stream
                out = getattr(io, kind)(expectation(wait['expect']), name, args, **kwargs)
                return True if kind == 'assertWaitFor' else out
            if kind == 'exit':
                info.assertWaitForShutdown(name, args, **common)
                return True
            if kind == 'start':
                info.assertWaitForStartup(name, args, **common)
                return True
            target = procs[wait['target']]
            if kind == 'proc_event':
                with info.proc_event:
                    return info.proc_event.wait_for(lambda: target in info.processes(), timeout)
            with io.io_event:
                return io.io_event.wait_for(
                    lambda: contains(wait['expect'], text_of(list(io), [target], stream)), timeout)

        def body():
            time.sleep(wait['delay'])
            log.call(perform, wait)
        return guarded(body)

    appenders = [appender(items, case['seed'] + n) for n, items in enumerate(todo)]
    read_logs = [Log() for _ in range(case['readers'])]
    wait_logs = [Log() for _ in case['waits']]
    readers = [reader(log, case['seed'] + 100 + n) for n, log in enumerate(read_logs)]
    usable = []
    for wait, log in zip(case['waits'], wait_logs):
        chosen, _, _ = selected(case, procs, wait)
        if wait['kind'] in ('exit', 'start') and (len(chosen) > 1 or wait['by'] == 'all'):
            continue  # ambiguous, or not one process: C25
        if wait['timeout'] in (None, NEVER) and wait['kind'] in ('waitFor', 'assertWaitFor', 'io_event'):
            # the order of shared output is not known in advance: only wait for what must come
            if case['share'] and wait['by'] != 'none' and isinstance(wait['expect'], list):
                wait = dict(wait, timeout=.05)
            elif case['share'] and any(
                    e[0] == 'io' and e[3] in repr(wait['expect']) and e[3] not in e[2]
                    for p in case['procs'] for e in p['events']):
                wait = dict(wait, timeout=.05)
        usable.append((wait, log, waiter(wait, log)))
    threads = appenders + readers + [t for _, _, t in usable]
    for thread in threads:
        thread.start()
    go.set()
    for thread in appenders:
        thread.join(30)
    end = time.monotonic()
    done.set()
    for thread in readers:
        thread.join(30)
    for wait, log, thread in usable:
        limit = GRACE if wait['timeout'] in (None, NEVER) else wait['timeout'] + GRACE
        thread.join(max(0, end + limit - time.monotonic()))
    if any(t.is_alive() for t in appenders + readers):
        obs.fail('stuck', 'a thread that appends or reads never finished')
        return
    if problems:
        obs.fail('thread-died', repr(problems))
        return
    for (event,), begin, finish, result in appended.calls:
        if isinstance(result, Exception):
            obs.fail('append-failed', repr(result))
            return
    for p in procs:
        p.pause = None
    for name, result, copy in kept:
        if result != copy:
            obs.fail('alive:' + name, 'what %s returned changed later' % name)
            return
    judge(case, obs, procs, io, info, todo, appended, read_logs, usable, end)


def text_of(events, procs, stream):
    raw = b''.join(e.text for e in events if e.action in procs and
                   (e.from_stdout if stream == 'stdout' else e.from_stderr))
    return raw.decode(errors='replace')


def judge(case, obs, procs, io, info, todo, appended, read_logs, usable, end):
    inv = {id(a[0]): b for a, b, _, _ in appended.calls}
    ret = {id(a[0]): e for a, _, e, _ in appended.calls}
    obs.count('appended', len(inv))
    final = list(io)
    events = [e for items in todo for h, e in items if h is io]
    changes = [e for items in todo for h, e in items if h is info]
    if sorted(map(id, final)) != sorted(map(id, events)):
        obs.fail('lost-output', '%d outputs appended but %d recorded' % (len(events), len(final)))
        return
    latest = 0.
    for e in final:
        if ret[id(e)] < latest:
            obs.fail('order', 'output recorded in another order than it was appended')
            return
        latest = max(latest, inv[id(e)])
    tracked = [p['name'] for p in case['procs'] if p['track']]
    order = []  # of the processes with changes, fixed by the final listing
    order = list(info.processes())
    if set(order) != {e.action for e in changes} or len(order) != len(set(order)):
        obs.fail('lost-process', 'processes recorded: %r' % [p.details['name'] for p in order])
        return
    history = {p: [e for e in changes if e.action is p] for p in procs}

    def bounds(seq, begin, finish):
        return (sum(1 for e in seq if ret[id(e)] < begin), sum(1 for e in seq if inv[id(e)] <= finish))

    def prefix(seq, got, begin, finish, what):
        low, high = bounds(seq, begin, finish)
        obs.count('reads')
        if low != high:
            obs.count('racing_reads')
        if not low <= len(got) <= high or any(a is not b for a, b in zip(got, seq)):
            obs.fail('torn:' + what, '%s showed %d entries, which is not one of the first %d to %d of %d'
                     % (what, len(got), low, high, len(seq)))
        return len(got)

    for log in read_logs:
        seen = {}
        for (name, key), begin, finish, got in log.calls:
            if isinstance(got, Exception):
                obs.fail('read-failed:' + name, '%s raised %r' % (name, got))
                return
            of = [e for e in final if e.action is key]
            n = None
            if name in ('io', 'info'):
                got, finish = got
            if name == 'io':
                n = prefix(final, got, begin, finish, name)
                if len(got) < len(final):
                    obs.count('iterated_while_appending')
            elif name in ('io_of', 'io_of_name'):
                n = prefix(of, got or [], begin, finish, name)
                if got is None and key.details['name'] in tracked:
                    obs.fail('tracked', 'no entry for a tracked process')
                name += key.details['name']
            elif name in ('io_procs', 'io_names'):
                firsts = {}
                for e in final:
                    firsts.setdefault(e.action, e)
                names = name == 'io_names'
                must = {p for p, e in firsts.items() if ret[id(e)] < begin}
                may = {p for p, e in firsts.items() if inv[id(e)] <= finish}
                ids = {p.details['name'] if names else p for p in must}
                top = {p.details['name'] if names else p for p in may}
                if names:
                    ids |= set(tracked)
                    top |= set(tracked)
                obs.count('reads')
                if len(set(got)) != len(got) or not ids <= set(got) <= top:
                    obs.fail('torn:' + name, 'listed %r; expected at least %r and at most %r'
                             % (got, ids, top))
                n = len(got)
            elif name in ('info_procs', 'info_names', 'info'):
                obs.count('reads')
                low = [p for p in order if ret[id(history[p][0])] < begin]
                high = [p for p in order if inv[id(history[p][0])] <= finish]
                if name == 'info':
                    listed = [e.action for e in got]
                    for e in got:
                        check_state(obs, history, e.action, e, ret, inv, begin, finish, name)
                elif name == 'info_names':
                    listed = got
                    low = [p.details['name'] for p in low]
                    high = [p.details['name'] for p in high]
                    if listed != [p.details['name'] for p in order][:len(listed)]:
                        obs.fail('torn:info_names', repr(listed))
                else:
                    listed = got
                if not (set(low) <= set(listed) <= set(high)) or len(set(listed)) != len(listed) or (
                        name != 'info_names' and listed != order[:len(listed)]):
                    obs.fail('torn:' + name, 'listed %r' % (listed,))
                n = len(listed)
            else:
                obs.count('reads')
                check_state(obs, history, key, got, ret, inv, begin, finish, name)
                name += key.details['name']
                n = -1 if got is None else [e is got for e in history[key]].index(True) \
                    if any(e is got for e in history[key]) else 0
            if n is not None:
                if n < seen.get(name, -1):
                    obs.fail('backwards:' + name, 'a later read showed less than an earlier one')
                seen[name] = n
            if obs.violations:
                return
    if len(usable) > 1:
        obs.count('several_waiters')
    for wait, log, thread in usable:
        judge_wait(case, obs, procs, final, history, inv, ret, wait, log, thread, end)
        if obs.violations:
            return
    obs.sig((case['seed'], [len(log.calls) for log in read_logs],
             [log.calls and log.calls[0][3].__class__.__name__ for _, log, _ in usable]))


def check_state(obs, history, key, got, ret, inv, begin, finish, what):
    changes = history[key]
    low = sum(1 for e in changes if ret[id(e)] < begin)
    high = sum(1 for e in changes if inv[id(e)] <= finish)
    states = ([None] + changes)[low:high + 1]
    if not any(got is s for s in states):
        obs.fail('state:' + what, 'the event recorded for a process was not one it could be: %r' % got)


def judge_wait(case, obs, procs, final, history, inv, ret, wait, log, thread, end):
    kind, timeout = wait['kind'], wait['timeout']
    chosen, name, args = selected(case, procs, wait)
    if wait['by'] == 'args':
        obs.count('selected_by_args')
    # the event that makes the condition true, if one does
    cause = None
    if kind in ('start', 'proc_event', 'exit'):
        if kind == 'proc_event':
            chosen = [procs[wait['target']]]
        obs.count('waits_on_exit' if kind == 'exit' else 'waits_on_start')
        for p in chosen:
            for e in history[p]:
                if kind != 'exit' or isinstance(e, ProcessExited):
                    cause = e
                    break
        if kind == 'exit' and cause is not None and isinstance(history[chosen[0]][-1], ProcessExited) \
                and len(history[chosen[0]]) > 2:
            # started again: between the two the condition does not hold
            transient = True
        else:
            transient = False
    else:
        transient = False
        if kind == 'io_event':
            chosen = [procs[wait['target']]]
        for p in chosen:
            mine = [e for e in final if e.action is p]
            held = False
            for n in range(1, len(mine) + 1):
                text = text_of(mine[:n], [p], wait['stream'])
                if kind != 'io_event':
                    text = strip(text)  # as waitFor does; the predicate for io_event is our own
                if contains(wait['expect'], text):
                    if not held and (cause is None or inv[id(mine[n - 1])] < inv[id(cause)]):
                        cause = mine[n - 1]
                    held = True
                elif held:
                    transient = True  # a part of an escape sequence or of a character
    obs.count('waits')
    hold = 'the condition never holds' if cause is None else \
        'the condition holds %.4f s before the last append returned' % (end - ret[id(cause)])
    label = '%s(by %s, timeout %s)' % (kind, wait['by'], timeout)
    if not log.calls:
        if timeout in (None, NEVER) and cause is None:
            return  # rightly blocked
        obs.fail('blocked', '%s did not return; %s' % (label, hold))
        return
    _, begin, finish, result = log.calls[0]
    if isinstance(result, Exception):
        text = str(result)
        if not (isinstance(result, AssertionError) or (
                kind in ('waitFor', 'assertWaitFor') and not any(
                    e.action in chosen and ret[id(e)] < begin for e in final))):
            obs.fail('error', '%s raised %r' % (label, result))
            return
        if not isinstance(result, AssertionError):
            obs.count('no_such_process')
        elif kind in ('waitFor', 'io_event', 'proc_event'):
            obs.fail('error', '%s raised %r %s' % (label, result, text))
            return
        success = False
    else:
        if result is not True and result is not False:
            obs.fail('result', '%s returned %r' % (label, result))
            return
        if result is False and kind == 'assertWaitFor':
            obs.fail('result', 'assertWaitFor returned without its condition')
        success = result
    if success:
        obs.count('waits_succeeded')
        if cause is None or inv[id(cause)] > finish:
            obs.fail('false-success', '%s succeeded at a time when its condition did not hold; %s'
                     % (label, hold))
            return
        if ret[id(cause)] > begin:
            obs.count('waits_blocked')
        if finish > max(begin, ret[id(cause)]) + GRACE and not transient:
            obs.fail('late', '%s returned %.1f s after its condition became true'
                     % (label, finish - max(begin, ret[id(cause)])))
        return
    obs.count('waits_failed')
    if timeout is None or finish < begin + timeout:
        obs.fail('gave-up', '%s failed after %.4f s; %s' % (label, finish - begin, hold))
        return
    if finish > begin + timeout + GRACE:
        obs.fail('overdue', '%s failed after %.4f s' % (label, finish - begin))
    if cause is not None and ret[id(cause)] < begin + timeout and not transient:
        obs.fail('false-failure', '%s failed although its condition held %.4f s before its timeout'
                 % (label, begin + timeout - ret[id(cause)]))


def strip(text):
    from vf.texts import ANSI
    return ANSI.sub('', text)
