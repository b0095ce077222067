"""Parent side: hands cases to worker processes, collects verdicts, writes evidence.

Verdicts are three-valued.  Exit 0: held on what was observed.  Exit 1 and a VIOLATION line: violated.
Exit 2: inconclusive (the harness failed, timed out or observed too little).
"""
import argparse
import collections
import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
MAX_VIOLATIONS = 8
HANG_ATTEMPTS = 3


def jobs():
    return int(os.environ.get('VERIF_JOBS', '0')) or max(2, min(8, os.cpu_count() or 4))


class Worker:
    """One worker process: executes cases one after another."""

    def __init__(self, home, prop, tier, seed, scratch, n):
        self.args = (home, prop, tier, seed, scratch, n)
        self.proc = None
        self.generation = 0

    def start(self):
        home, prop, tier, seed, scratch, n = self.args
        self.generation += 1
        self.dir = os.path.join(scratch, 'w%d.%d' % (n, self.generation))
        os.makedirs(self.dir)
        self.stack_file = os.path.join(self.dir, 'stacks.txt')
        req_r, req_w = os.pipe()
        res_r, res_w = os.pipe()
        env = {k: v for k, v in os.environ.items()
               if k in ('PATH', 'LANG', 'VERIF_REPO', 'VERIF_DEBUG', 'LC_ALL')}
        env.setdefault('LANG', 'C.UTF-8')
        # the installed packages are links to /repo
        repo = os.environ.get('VERIF_REPO', '/repo')
        env.update({
            'PYTHONPATH': os.pathsep.join(
                [home, os.path.join(home, 'lib'), os.path.join(home, 'lib', 'stubs')] +
                ([] if repo == '/repo' else [os.path.join(repo, p) for p in (
                    'launch', 'launch_xml', 'launch_yaml', 'launch_testing', 'launch_pytest')])),
            'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
            'VERIF_REPO': repo,
            'HOME': self.dir, 'ROS_LOG_DIR': os.path.join(self.dir, 'log'), 'TMPDIR': self.dir,
            'VF_REQ': str(req_r), 'VF_RES': str(res_w), 'VF_STACKS': self.stack_file,
        })
        out = open(os.path.join(self.dir, 'out.txt'), 'wb')
        self.proc = subprocess.Popen(
            [PYTHON, '-W', 'ignore', '-m', 'vf.worker', prop, tier, str(seed)],
            env=env, cwd=self.dir, pass_fds=(req_r, res_w), stdin=subprocess.DEVNULL,
            stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
        out.close()
        os.close(req_r)
        os.close(res_w)
        self.req = os.fdopen(req_w, 'wb', 0)
        self.res = res_r
        self.buf = b''

    def readline(self, timeout):
        end = time.monotonic() + timeout
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                return None
            r, _, _ = select.select([self.res], [], [], min(left, 1.0))
            if r:
                data = os.read(self.res, 1 << 16)
                if not data:
                    return b''
                self.buf += data
        line, self.buf = self.buf.split(b'\n', 1)
        return line

    def call(self, msg, timeout):
        """Return (kind, payload), kind being 'ok', 'timeout' or 'crash'."""
        if self.proc is None:
            self.start()
        try:
            self.req.write(json.dumps(msg).encode() + b'\n')
            line = self.readline(timeout)
        except OSError as exc:
            return 'crash', repr(exc)
        if line is None:
            stacks = self.stacks()
            self.stop()
            return 'timeout', stacks
        if line == b'':
            out = self.tail()
            self.stop()
            return 'crash', out
        return 'ok', json.loads(line)

    def stacks(self):
        try:
            os.kill(self.proc.pid, signal.SIGUSR2)
            time.sleep(0.5)
            with open(self.stack_file, errors='replace') as f:
                return f.read()[-3000:]
        except OSError as exc:
            return repr(exc)

    def tail(self):
        try:
            with open(os.path.join(self.dir, 'out.txt'), errors='replace') as f:
                return f.read()[-3000:]
        except OSError as exc:
            return repr(exc)

    def stop(self):
        if self.proc is None:
            return
        for pid in [self.proc.pid] + descendants(self.proc.pid):
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        try:
            self.req.close()
            os.close(self.res)
        except OSError:
            pass
        self.proc = None
        shutil.rmtree(self.dir, ignore_errors=True)


def descendants(pid):
    """Return the pids of all running descendants of a process of ours."""
    children = collections.defaultdict(list)
    for name in os.listdir('/proc'):
        if name.isdigit():
            try:
                with open('/proc/%s/stat' % name) as f:
                    data = f.read()
            except OSError:
                continue
            children[int(data.rsplit(')', 1)[1].split()[1])].append(int(name))
    found, todo = [], [pid]
    while todo:
        for child in children.get(todo.pop(), ()):
            found.append(child)
            todo.append(child)
    return found


def load_known(home, prop):
    known, path = {}, os.path.join(home, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    known[key.partition('=')[2]] = text
    return known


def main(argv, home):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args(argv)
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    started = time.monotonic()
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % args.property)
    try:
        return Check(args, home, scratch, started).run()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Check:

    def __init__(self, args, home, scratch, started):
        self.args, self.home, self.scratch, self.started = args, home, scratch, started
        self.lock = threading.Lock()
        self.violations = []      # (key, message, case)
        self.known_seen = collections.OrderedDict()
        self.errors = []
        self.obs = collections.Counter()
        self.maxima = {}
        self.sigs = set()
        self.samples = []
        self.evaluations = 0
        self.retried = 0
        self.next_index = 0
        self.known = load_known(home, args.property)

    def worker(self, n):
        return Worker(self.home, self.args.property, self.args.tier, self.args.seed,
                      self.scratch, n)

    def stop_now(self):
        return len(self.violations) >= MAX_VIOLATIONS or len(self.errors) >= 5

    def run(self):
        first = self.worker(0)
        kind, meta = first.call({'op': 'meta'}, 120)
        if kind != 'ok':
            print('INCONCLUSIVE property=%s the worker cannot start: %s' %
                  (self.args.property, meta))
            first.stop()
            return 2
        self.meta = meta
        if self.args.replay:
            with open(self.args.replay) as f:
                replay = json.load(f)
            self.handle(first, {'op': 'case', 'case': replay['case']}, 'replay')
            first.stop()
            self.total, self.cap = 1, 0
            return self.finish(replay=True)
        tier = self.args.tier
        self.total = self.args.cases or meta['cases'][tier]
        self.cap = meta['wall'][tier]
        n_workers = min(jobs(), meta.get('jobs') or 99)
        threads = [threading.Thread(
            target=self.loop, args=(first if n == 0 else self.worker(n),))
            for n in range(n_workers)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        return self.finish()

    def loop(self, worker):
        try:
            while True:
                with self.lock:
                    if self.stop_now() or self.next_index >= self.total or \
                            time.monotonic() - self.started > self.cap:
                        break
                    index = self.next_index
                    self.next_index += 1
                self.handle(worker, {'op': 'case', 'i': index}, index)
        except Exception as exc:
            import traceback
            with self.lock:
                self.errors.append('engine: %r %s' % (exc, traceback.format_exc()))
        finally:
            worker.stop()

    def handle(self, worker, msg, index):
        bad = []
        for attempt in range(HANG_ATTEMPTS):
            timeout = self.meta['timeout'] * (1 if attempt == 0 else 1.5)
            if attempt and self.stop_now():
                return
            kind, res = worker.call(msg, timeout)
            if kind == 'ok':
                break
            bad.append((kind, res))
            with self.lock:
                self.retried += 1
        with self.lock:
            self.evaluations += 1
            if kind == 'ok':
                self.accept(res, index)
            elif all(k == 'timeout' for k, _ in bad) and self.meta['hang']:
                self.add_violation(
                    'hang', 'the run did not end in any of %d attempts; stacks: %s' % (
                        len(bad), bad[-1][1]), {'index': index}, msg)
            else:
                self.errors.append('case %s: worker %s' % (index, '; '.join(
                    '%s: %s' % b for b in bad)))

    def accept(self, res, index):
        for key, value in res['obs'].items():
            self.obs[key] += value
        for key, value in res.get('max', {}).items():
            self.maxima[key] = max(value, self.maxima.get(key, value))
        for sig in res['sigs']:
            self.sigs.add(sig)
        if res['sigs'] and len(self.samples) < 3:
            self.samples.append(res['sample'])
        if res['error']:
            self.errors.append('case %s: %s' % (index, res['error']))
        for key, message in res['violations']:
            self.add_violation(key, message, res['case'], None)
        if self.args.verbose:
            print(index, json.dumps(res['case'])[:300], res['obs'], res['violations'], flush=True)

    def add_violation(self, key, message, case, msg):
        if key in self.known:
            self.known_seen.setdefault(key, self.known[key])
            return
        if case is not None and 'index' in case and msg is not None:
            case = msg.get('case') or {'__index__': msg['i'], '__seed__': self.args.seed,
                                       '__tier__': self.args.tier}
        if len(self.violations) < MAX_VIOLATIONS * 2:
            self.violations.append((key, message, case))

    def finish(self, replay=False):
        prop = self.args.property
        wall = time.monotonic() - self.started
        needs = [] if replay or self.args.cases else [
            '%s=%d<%d' % (k, self.obs.get(k, 0), v)
            for k, v in self.meta['need'].items() if self.obs.get(k, 0) < v]
        if not replay:
            self.write_evidence(wall)
        for key, text in self.known_seen.items():
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        print('%s: %d cases, %d distinct non-trivial, %.1f s, seed %d, %s; observed %s' % (
            prop, self.evaluations, len(self.sigs), wall, self.args.seed, self.args.tier,
            ' '.join('%s=%d' % kv for kv in sorted(self.obs.items()))))
        if self.violations:
            os.makedirs(os.path.join(self.home, 'replays'), exist_ok=True)
            seen = set()
            for key, message, case in self.violations:
                if key in seen:
                    continue
                seen.add(key)
                digest = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(self.home, 'replays', '%s-%s.json' % (prop, digest))
                with open(path, 'w') as f:
                    json.dump({'property': prop, 'key': key, 'message': message, 'case': case},
                              f, indent=1)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print(('  [%s] %s' % (key, message)).encode(errors='backslashreplace').decode())
            return 1
        soft = [e for e in self.errors if 'inconclusive:' in e[:40]]
        if len(soft) == len(self.errors) and len(soft) <= max(2, self.evaluations // 50):
            for error in soft:
                print('note: undecided %s' % error[:200])
            self.errors = []
        if self.errors or needs:
            for error in self.errors[:5]:
                print('INCONCLUSIVE property=%s %s' % (prop, error))
            if needs:
                print('INCONCLUSIVE property=%s observed too little: %s' % (
                    prop, ', '.join(needs)))
            return 2
        return 0

    def write_evidence(self, wall):
        coverage = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.sigs),
            'rule': self.meta['rule'],
            'samples': self.samples,
            'observed': dict(sorted(self.obs.items())),
            'planned_cases': self.total,
            'undecided_cases': len(self.errors),
            'retried_attempts': self.retried,
        }
        if self.maxima:
            coverage['maxima'] = self.maxima
        evidence = {
            'property': self.args.property, 'tier': self.args.tier, 'seed': self.args.seed,
            'level': self.meta['level'], 'coverage': coverage,
            'assumptions': self.meta['assumptions'], 'wall_s': round(wall, 2),
            'violations': len(self.violations),
        }
        path = os.path.join(self.home, 'evidence', '%s.json' % self.args.property)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path + '.tmp', 'w') as f:
            json.dump(evidence, f, indent=1)
        os.replace(path + '.tmp', path)
