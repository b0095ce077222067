"""C15: the launch service can be driven from any thread without loss or deadlock."""
import logging
import random
import sys
import threading
import time

from launch import LaunchDescription
from launch.actions import OpaqueCoroutine, OpaqueFunction, TimerAction
from launch.events import Shutdown as ShutdownEvent
from vf.kit import Handler, LogTap, MyEvent, asyncio, execute, new_service

CASES = {'quick': 2500, 'thorough': 90000}
WALL = {'quick': 100, 'thorough': 780}
TIMEOUT = 60
NEED = {'from_threads': 18000, 'carried_over': 2000, 'runs': 4000, 'shutdown_calls': 3500,
        'includes': 7000, 'refused': 1300, 'ended_by_thread': 300, 'from_inside': 1000}
RULE = ('a case runs a service several times while threads emit, include and shut down with random '
        'pauses, in part injected between the lines of the service; what was processed is compared '
        'with the calls which returned; non-trivial: a distinct order of what was processed')
ASSUMPTIONS = ['run() is called from the main thread, as documented',
               'within the thread of the loop the result of shutdown() is awaited, as documented']


def gen(rng, i, tier):
    threads = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([3, 10, 25])):
            roll = rng.random()
            op = 'emit' if roll < .55 else 'include' if roll < .8 else 'shutdown' if roll < .95 \
                else 'run'
            ops.append([op, rng.choice([0, 0, 0, 0, .0002, .001, .003])])
        threads.append(ops)
    return {'threads': threads,
            'inside': [[rng.choice(['emit', 'include', 'coroutine-emit', 'shutdown', 'run',
                                    'run_async', 'force_shutdown', 'timer']), rng.random() < .5]
                       for _ in range(rng.choice([0, 0, 1, 2, 4]))],
            'before': rng.choice([0, 1, 3]), 'idle': rng.choice([True, True, False]),
            'new_loop': rng.random() < .4, 'jitter': rng.choice([0, 0, .02, .1]),
            'switch': rng.choice([.005, 1e-6, 1e-5, 1e-4]), 'pause': rng.choice([0, .001, .01]),
            'seed': rng.randrange(1 << 30)}


class Driver:

    def __init__(self, case, obs):
        self.case, self.obs = case, obs
        self.service, self.loop = new_service(asyncio.new_event_loop())
        self.returned = {}      # thread -> list of uids whose call returned
        self.processed = []     # (uid, number of the run)
        self.run = 0
        self.shutdowns = 0
        self.shut_runs = set()
        self.inside_left = list(case['inside'])
        self.counter = 0
        context = self.service.context
        context.register_event_handler(Handler(lambda e: isinstance(e, MyEvent), self.on_event))
        context.register_event_handler(Handler(
            lambda e: isinstance(e, ShutdownEvent), self.on_shutdown))

    def on_shutdown(self, event, context):
        self.shutdowns += 1
        if self.run in self.shut_runs:
            self.obs.fail('announced', 'shutdown was announced again in run %d: %r' % (
                self.run, event.reason))
        self.shut_runs.add(self.run)
        if 'shutdown() called' in event.reason:
            self.obs.count('ended_by_thread')

    def process(self, uid, context):
        if threading.current_thread() is not threading.main_thread():
            self.obs.fail('thread', '%r was processed in another thread' % (uid,))
        if context.asyncio_loop is not self.loop or self.service.event_loop is not self.loop:
            self.obs.fail('outside', '%r was processed outside of a run (%r, %r)' % (
                uid, context.asyncio_loop, self.service.event_loop))
        self.processed.append((tuple(uid), self.run))

    def on_event(self, event, context):
        self.process(event.uid, context)
        entities = []
        while self.inside_left:
            what, more = self.inside_left.pop()
            entities.append(self.inside(what, context))
            if not more:
                break
        return entities

    def inside(self, what, context):
        """Do something with the service from within its run."""
        self.obs.count('from_inside')
        service = self.service
        if what == 'emit':
            self.call('inside', 'emit')
        elif what == 'include':
            self.call('inside', 'include')
        elif what == 'timer':
            return TimerAction(period=.002, actions=[OpaqueFunction(
                function=lambda context: self.call('inside', 'emit'))])
        elif what == 'force_shutdown':
            service.shutdown(force_sync=True)
        elif what == 'run':
            try:
                service.run()
                self.obs.fail('nested', 'run() within a run was not refused')
            except RuntimeError:
                self.obs.count('refused')
        else:
            async def coroutine(context):
                if what == 'coroutine-emit':
                    await asyncio.sleep(.001)
                    self.call('inside', 'emit')
                elif what == 'shutdown':
                    coro = service.shutdown()
                    if coro is not None:
                        await coro
                else:
                    try:
                        await service.run_async()
                        self.obs.fail('nested', 'run_async() within a run was not refused')
                    except RuntimeError:
                        self.obs.count('refused')
            return OpaqueCoroutine(coroutine=coroutine)

    def call(self, who, op):
        service, mine = self.service, self.returned.setdefault(who, [])
        uid = (who, len(mine))
        if op == 'emit':
            service.emit_event(MyEvent('k', uid))
        else:
            def visit(context):
                self.process(uid, context)
            entity = OpaqueFunction(function=visit)
            service.include_launch_description(LaunchDescription([entity]))
            self.obs.count('includes')
        mine.append(uid)

    def thread(self, number, ops):
        for op, pause in ops:
            if pause:
                time.sleep(pause)
            try:
                if op in ('emit', 'include'):
                    self.call('t%d' % number, op)
                    self.obs.count('from_threads')
                elif op == 'shutdown':
                    self.service.shutdown()
                    self.obs.count('shutdown_calls')
                else:
                    try:
                        self.service.run()
                        self.obs.fail('thread-run', 'run() in another thread was not refused')
                    except RuntimeError:
                        self.obs.count('refused')
            except Exception as exc:
                import traceback
                self.obs.fail('call', '%s failed: %s' % (op, traceback.format_exc()[-1200:]))


def tracer(rng, probability):
    """Trace function which pauses between the lines of the service now and then."""
    def local(frame, event, arg):
        if event == 'line' and rng.random() < probability:
            time.sleep(rng.choice([0, .0001, .0005]))
        return local

    def trace(frame, event, arg):
        name = frame.f_code.co_filename
        if name.endswith(('launch_service.py', 'launch_context.py')):
            return local
    return trace


def run(case, obs):
    rng = random.Random(case['seed'])
    driver = Driver(case, obs)
    service = driver.service
    for k in range(case['before']):
        driver.call('main', rng.choice(['emit', 'include']))
    threads = [threading.Thread(target=driver.thread, args=(n, ops), daemon=True)
               for n, ops in enumerate(case['threads'])]
    tap = LogTap()
    for name in ('launch', 'asyncio'):
        logging.getLogger(name).addHandler(tap)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(case['switch'])
    if case['jitter']:
        trace = tracer(random.Random(case['seed'] + 1), case['jitter'])
        threading.settrace(trace)
        sys.settrace(trace)
    stop = threading.Event()
    running = threading.Event()

    def stopper():
        # makes runs which do not end by themselves end
        while not stop.is_set():
            if running.is_set():
                time.sleep(.004)
                service.shutdown()
            time.sleep(.001)

    helper = threading.Thread(target=stopper, daemon=True)
    if not case['idle']:
        helper.start()
    try:
        for t in threads:
            t.start()
        final = False
        while True:
            alive = any(t.is_alive() for t in threads)
            final = not alive
            if final:
                for t in threads:
                    t.join()
            if case['new_loop'] and driver.run:
                driver.loop.close()
                driver.loop = asyncio.new_event_loop()
            driver.run += 1
            obs.count('runs')
            running.set()
            idle = case['idle'] or final
            result = execute(service, driver.loop, shutdown_when_idle=idle)
            running.clear()
            if result.error is not None:
                obs.fail('raised', 'run() raised %r' % result.error)
            obs.expect(result.rc == 0, 'return-code', 'run() returned %r, errors: %r' % (
                result.rc, [r for r in tap.records if r[1] > 30]))
            obs.expect(driver.run in driver.shut_runs, 'unannounced',
                       'run %d ended without announcing it' % driver.run)
            if obs.violations:
                return
            if final:
                break
            if rng.random() < .5:
                driver.call('main', rng.choice(['emit', 'include']))
            service.shutdown()     # does nothing now
            if case['pause']:
                time.sleep(case['pause'])
    finally:
        sys.settrace(None)
        threading.settrace(None)
        stop.set()
        running.clear()
        for name in ('launch', 'asyncio'):
            logging.getLogger(name).removeHandler(tap)
        sys.setswitchinterval(interval)
        if helper.ident:
            helper.join(20)
            obs.expect(not helper.is_alive(), 'blocked', 'shutdown() does not return')
    for n, t in enumerate(threads):
        t.join(20)
        obs.expect(not t.is_alive(), 'blocked', 'a call in thread %d does not return' % n)
    pending = [t for t in asyncio.all_tasks(driver.loop) if not t.done()]
    obs.expect(not pending, 'tasks', 'tasks are left: %r' % pending)
    for t in pending:
        t.cancel()
    driver.loop.close()
    asyncio.set_event_loop(None)
    runs = {}
    for uid, number in driver.processed:
        runs.setdefault(uid, []).append(number)
    for who, uids in driver.returned.items():
        got = [uid for uid, _ in driver.processed if uid[0] == who]
        if got != uids:
            lost = [u for u in uids if u not in got]
            twice = sorted({u for u in got if got.count(u) > 1})
            obs.fail('lost' if lost else 'twice' if twice else 'order', 'calls of %s: lost %r, '
                     'processed more than once %r, order %r' % (who, lost, twice, got[:40]))
        obs.count('carried_over', sum(number > 1 for u in uids for number in runs.get(u, ())))
    if len(driver.processed) > 3:
        obs.sig(driver.processed)
