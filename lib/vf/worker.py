"""Child side: generates and executes cases of one check, one JSON line per request."""
import collections
import ctypes
import faulthandler
import gc
import hashlib
import importlib
import json
import logging
import os
import random
import re
import signal
import sys
import traceback

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))

PROCESS_LOGGER = re.compile(r'-[0-9]+(-stdout|-stderr)?$')


class Inconclusive(Exception):
    """The case decided nothing (e.g. a watchdog fired)."""


class Obs:
    """What the monitors of one case observed."""

    def __init__(self):
        self.counts = collections.Counter()
        self.maxima = {}
        self.sigs = []
        self.violations = []

    def count(self, name, n=1):
        self.counts[name] += n

    def maximum(self, name, value):
        self.maxima[name] = max(value, self.maxima.get(name, value))

    def sig(self, value):
        """Report a distinct non-trivial observation."""
        self.sigs.append(hashlib.sha1(repr(value).encode()).hexdigest()[:16])

    def fail(self, key, message):
        self.violations.append((key, str(message)[:3000]))

    def expect(self, condition, key, message):
        if not condition:
            self.fail(key, message)
        return condition

    def equal(self, actual, expected, key, what):
        if actual != expected:
            self.fail(key, '%s: expected %r but observed %r' % (what, expected, actual))
            return False
        return True


def from_repo(exc):
    """Tell whether an exception was raised in (or passed through) the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame in traceback.extract_tb(exc.__traceback__):
            if os.path.realpath(frame.filename).startswith(REPO + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def forget_loggers():
    """Drop the loggers of processes, the logging module gets slower with each of them."""
    loggers = logging.Logger.manager.loggerDict
    for name in [n for n in loggers if PROCESS_LOGGER.search(n)]:
        del loggers[name]


def run_case(mod, case):
    obs = Obs()
    error = None
    environ = dict(os.environ)
    cwd = os.getcwd()
    try:
        mod.run(case, obs)
    except Inconclusive as exc:
        error = 'inconclusive: %s' % exc
    except Exception as exc:
        text = traceback.format_exc()[-2500:]
        if from_repo(exc):
            obs.fail('unexpected-exception', text)
        else:
            error = text
    finally:
        if dict(os.environ) != environ:
            os.environ.clear()
            os.environ.update(environ)
        os.chdir(cwd)
        forget_loggers()
    if error and obs.violations and not error.startswith('inconclusive'):
        error = None  # the violations explain why the harness could not go on
    text = json.dumps(case)
    return {
        'obs': dict(obs.counts), 'max': obs.maxima, 'sigs': sorted(set(obs.sigs)),
        'violations': obs.violations[:5], 'error': error, 'case': case,
        'sample': case if len(text) < 3000 else text[:3000],
    }


def main():
    prop, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    req = os.fdopen(int(os.environ.pop('VF_REQ')), 'rb')
    res = os.fdopen(int(os.environ.pop('VF_RES')), 'wb', 0)
    os.set_inheritable(req.fileno(), False)
    os.set_inheritable(res.fileno(), False)
    stacks = open(os.environ.pop('VF_STACKS'), 'w')
    faulthandler.register(signal.SIGUSR2, stacks, all_threads=True)
    libc = ctypes.CDLL(None, use_errno=True)
    libc.prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER: orphans come to us
    libc.prctl(1, 9, 0, 0, 0)   # PR_SET_PDEATHSIG
    # whoever started us (nohup, a shell in the background) may ignore signals
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for number in (signal.SIGQUIT, signal.SIGTERM, signal.SIGHUP, signal.SIGCHLD, signal.SIGUSR1):
        signal.signal(number, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    mod = importlib.import_module('checks.%s' % prop.lower())
    for n, line in enumerate(req):
        msg = json.loads(line)
        if msg['op'] == 'meta':
            out = {
                'cases': mod.CASES, 'wall': mod.WALL, 'timeout': getattr(mod, 'TIMEOUT', 60),
                'hang': getattr(mod, 'HANG', True), 'need': getattr(mod, 'NEED', {}),
                'rule': mod.RULE, 'level': getattr(mod, 'LEVEL', 'exploration'),
                'assumptions': getattr(mod, 'ASSUMPTIONS', []),
                'jobs': getattr(mod, 'JOBS', None),
            }
        else:
            case = msg.get('case')
            if case is None:
                case = {'__index__': msg['i'], '__seed__': seed, '__tier__': tier}
            if '__index__' in case:
                rng = random.Random('%s:%s:%s' % (prop, case['__seed__'], case['__index__']))
                case = mod.gen(rng, case['__index__'], case['__tier__'])
                case = json.loads(json.dumps(case))
            out = run_case(mod, case)
            if n % 20 == 0:
                gc.collect()
        sys.stdout.flush()
        res.write(json.dumps(out).encode() + b'\n')


if __name__ == '__main__':
    main()
