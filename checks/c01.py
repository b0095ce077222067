"""C01: events are processed exactly once, in order, by the right handlers."""
from collections import deque

from launch.actions import EmitEvent, OpaqueFunction, RegisterEventHandler, UnregisterEventHandler
from launch.event_handler import EventHandler
from vf.kit import (Handler, LaunchDescription, MyEvent, Shutdown, Visit, execute, finish,
                    first_difference, judge, new_service)

CASES = {'quick': 16000, 'thorough': 400000}
WALL = {'quick': 60, 'thorough': 700}
TIMEOUT = 40
NEED = {'events': 8000, 'handlings': 8000, 'registered_while_processing': 500,
        'unregistered_while_processing': 200, 'once': 200, 'carried_over': 200}
RULE = ('a case is a random program of event handlers (matching, append, once) which emit events, '
        'register and unregister handlers, nest entities and defer emissions, driven over one or '
        'more runs of a service in virtual time; the recorded trace must equal the trace of an '
        'independent sequential model; non-trivial: at least 3 events handled by 2 handlers')
ASSUMPTIONS = ['matchers of handlers are pure', 'virtual time: queued events precede the passing '
               'of time']
BUDGET = 60


def gen_steps(rng, n, depth):
    steps = []
    for _ in range(rng.randint(0, 3)):
        r = rng.random()
        if r < .40:
            steps.append(['emit', rng.randrange(4), rng.choice(['action', 'sync', 'opaque'])])
        elif r < .58:
            steps.append(['reg', rng.randrange(n), rng.random() < .3, rng.choice(['a', 'c'])])
        elif r < .72:
            steps.append(['unreg', rng.randrange(n), rng.choice(['a', 'c'])])
        elif r < .82:
            steps.append(['later', rng.choice([0.5, 1, 2, 3.5]), rng.randrange(4)])
        elif r < .90:
            steps.append(['mark', rng.randrange(100)])
        elif r < .92:
            steps.append(['shutdown'])
        elif depth < 3:
            steps.append(['nest', gen_steps(rng, n, depth + 1), rng.random() < .5])
    return steps


def gen(rng, i, tier):
    n = rng.randint(2, 7)
    handlers = []
    for _ in range(n):
        handlers.append({
            'kinds': sorted(rng.sample(range(4), rng.randint(1, 3))),
            'mod': rng.choice([1, 1, 2, 3]), 'rem': 0,
            'shutdown': rng.random() < .15,
            'once': rng.random() < .25,
            'style': rng.choice(['entities', 'custom', 'custom']),
            'steps': gen_steps(rng, n, 0),
        })
        handlers[-1]['rem'] = rng.randrange(handlers[-1]['mod'])
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        runs.append({
            'before': [rng.randrange(4) for _ in range(rng.choice([0, 0, 1, 2, 3]))],
            'steps': gen_steps(rng, n, 0) + [['emit', rng.randrange(4), 'action']
                                             for _ in range(rng.randint(1, 4))],
        })
    initial = [[h, rng.random() < .3] for h in rng.sample(range(n), rng.randint(1, n))]
    return {'handlers': handlers, 'initial': initial, 'runs': runs}


def matches(spec, event):
    """Event is ('S',) or (kind, uid)."""
    if event[0] == 'S':
        return spec['shutdown']
    return event[0] in spec['kinds'] and event[1] % spec['mod'] == spec['rem']


# ---------------------------------------------------------------- reference model

def model(case):
    specs = case['handlers']
    trace, queue, later, registered = [], deque(), [], []
    uid, budget, now, seq = 0, BUDGET, 0.0, 0
    done_once = set()
    stats = {'events': 0, 'handlings': 0, 'registered_while_processing': 0,
             'unregistered_while_processing': 0, 'once': 0, 'carried_over': 0}

    def emit(kind):
        nonlocal uid, budget
        if budget <= 0:
            return
        budget -= 1
        queue.append((kind, uid))
        uid += 1

    def steps(items, current):
        nonlocal seq, budget
        for step in items:
            op = step[0]
            if op == 'emit':
                emit(step[1])
            elif op == 'reg':
                if step[1] not in registered and step[1] not in done_once:
                    if step[2]:
                        registered.append(step[1])
                    else:
                        registered.insert(0, step[1])
                    stats['registered_while_processing'] += 1
            elif op == 'unreg':
                spec = specs[step[1]]
                if step[1] in registered and not (
                        spec['once'] and current and matches(spec, current)):
                    registered.remove(step[1])
                    stats['unregistered_while_processing'] += 1
            elif op == 'later':
                if budget > 0:
                    later.append((now + step[1], seq, step[2]))
                    seq += 1
            elif op == 'mark':
                trace.append(['mark', step[1]])
            elif op == 'shutdown':
                if budget > 0:
                    budget -= 1
                    queue.append(('S',))
            elif op == 'nest':
                steps(step[1], current)

    for h, append in case['initial']:
        registered.append(h) if append else registered.insert(0, h)
    for number, run in enumerate(case['runs']):
        for kind in run['before']:
            emit(kind)
            stats['carried_over'] += 1
        queue.append(('include', number))
        trace.append(['run', number])
        shut = False
        while True:
            if not queue:
                if later:
                    later.sort()
                    now = later[0][0]
                    while later and later[0][0] == now:
                        emit(later.pop(0)[2])
                    continue
                elif not shut:
                    queue.append(('S',))
                else:
                    break
            event = queue.popleft()
            if event[0] == 'include':
                steps(case['runs'][event[1]]['steps'], None)
                continue
            if event[0] == 'S':
                shut = True
            stats['events'] += 1
            for h in tuple(registered):
                spec = specs[h]
                if matches(spec, event):
                    stats['handlings'] += 1
                    trace.append(['handle', h, list(event)])
                    if spec['once']:
                        registered.remove(h)
                        done_once.add(h)
                        stats['once'] += 1
                    steps(spec['steps'], event)
                    trace.append(['end', h, list(event)])
        trace.append(['ended', number])
    return trace, stats


# ---------------------------------------------------------------- execution

class Driver:

    def __init__(self, case):
        self.case, self.trace = case, []
        self.uid, self.budget = 0, BUDGET
        self.registered, self.done_once = set(), set()
        self.current = None
        self.handlers = [self.make(h, spec) for h, spec in enumerate(case['handlers'])]

    def new_event(self, kind):
        if self.budget <= 0:
            return None
        self.budget -= 1
        event = MyEvent(kind, self.uid)
        self.uid += 1
        return event

    @staticmethod
    def describe(event):
        return ('S',) if isinstance(event, Shutdown) else (event.kind, event.uid)

    def make(self, h, spec):
        def matcher(event):
            return isinstance(event, (MyEvent, Shutdown)) and matches(spec, self.describe(event))

        def begin(event):
            self.current = self.describe(event)
            self.trace.append(['handle', h, list(self.current)])
            if spec['once']:
                self.registered.discard(h)
                self.done_once.add(h)

        def end(context):
            self.trace.append(['end', h, list(self.describe(context.locals.event))])

        if spec['style'] == 'entities':
            return EventHandler(
                matcher=matcher, handle_once=spec['once'],
                entities=[Visit(lambda context: begin(context.locals.event)),
                          *self.entities(spec['steps']), Visit(end)])

        def function(event, context):
            begin(event)
            return [*self.entities(spec['steps']), OpaqueFunction(function=end)]
        return Handler(matcher, function, handle_once=spec['once'])

    def entities(self, steps):
        return [self.entity(step) for step in steps]

    def entity(self, step):
        op = step[0]
        if op == 'nest':
            inner = self.entities(step[1])
            return LaunchDescription(inner) if step[2] else Visit(lambda context: inner)
        if op == 'mark':
            return OpaqueFunction(function=lambda context: self.trace.append(['mark', step[1]]))
        if op == 'emit':
            def emit(context):
                event = self.new_event(step[1])
                if event is not None:
                    if step[2] == 'action':
                        return [EmitEvent(event=event)]
                    context.emit_event_sync(event)
            return Visit(emit) if step[2] == 'sync' else OpaqueFunction(function=emit)
        if op == 'reg':
            def reg(context):
                if step[1] in self.registered or step[1] in self.done_once:
                    return None
                self.registered.add(step[1])
                if step[2]:
                    context.register_event_handler(self.handlers[step[1]], append=True)
                elif step[3] == 'a':
                    return [RegisterEventHandler(self.handlers[step[1]])]
                else:
                    context.register_event_handler(self.handlers[step[1]])
            return Visit(reg)
        if op == 'unreg':
            def unreg(context):
                spec = self.case['handlers'][step[1]]
                event = context.get_locals_as_dict().get('event')
                event = self.describe(event) if isinstance(event, (MyEvent, Shutdown)) else None
                if step[1] not in self.registered or (
                        spec['once'] and event and matches(spec, event)):
                    return None
                self.registered.discard(step[1])
                if step[2] == 'a':
                    return [UnregisterEventHandler(self.handlers[step[1]])]
                context.unregister_event_handler(self.handlers[step[1]])
            return Visit(unreg)
        if op == 'shutdown':
            def shutdown(context):
                if self.budget > 0:
                    self.budget -= 1
                    return [EmitEvent(event=Shutdown(reason='program'))]
            return Visit(shutdown)
        assert op == 'later', op

        def later(context):
            if self.budget <= 0:
                return None
            loop = context.asyncio_loop
            future = loop.create_future()

            def fire():
                event = self.new_event(step[2])
                if event is not None:
                    context.emit_event_sync(event)
                future.set_result(None)
            loop.call_later(step[1], fire)
            context.add_completion_future(future)
        return OpaqueFunction(function=later)


def run(case, obs):
    expected, stats = model(case)
    driver = Driver(case)
    service, loop = new_service()
    try:
        for h, append in case['initial']:
            driver.registered.add(h)
            service.context.register_event_handler(driver.handlers[h], append=append)
        for number, spec in enumerate(case['runs']):
            for kind in spec['before']:
                event = driver.new_event(kind)
                if event is not None:
                    service.emit_event(event)
            service.include_launch_description(
                LaunchDescription(driver.entities(spec['steps'])))
            driver.trace.append(['run', number])
            result = execute(service, loop)
            if not judge(result, obs):
                obs.fail('trace', 'before that: %s' % first_difference(expected, driver.trace))
                return
            driver.trace.append(['ended', number])
    finally:
        finish(loop)
    for key, value in stats.items():
        obs.count(key, value)
    difference = first_difference(expected, driver.trace)
    obs.expect(difference is None, 'trace', difference)
    if stats['events'] >= 3 and len({t[1] for t in expected if t[0] == 'handle'}) > 1:
        obs.sig(expected)
