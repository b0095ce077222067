"""C04: context locals are scoped to the event being handled."""
from collections import deque

from launch.actions import EmitEvent, GroupAction, OpaqueFunction, TimerAction
from launch.event_handler import EventHandler
from launch.event_handlers import OnShutdown
from launch.events import ExecutionComplete, Shutdown
from launch.substitutions import LocalSubstitution
from vf.kit import (Handler, LaunchDescription, MyEvent, Visit, execute, finish,
                    first_difference, judge, new_service)

CASES = {'quick': 9000, 'thorough': 300000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 40
NEED = {'snapshots': 50000, 'errors': 500, 'timer_snapshots': 2000, 'shadowed': 1000,
        'leak_checks': 10000}
RULE = ('a case is a random program of handlers, timers and nested entities which extend locals '
        'and globals, raise, and take snapshots of all locals (as a dictionary, as attributes and '
        'through LocalSubstitution); every snapshot must equal that of a model with one scope per '
        'handling; non-trivial: at least 4 snapshots, 2 of them different')
ASSUMPTIONS = ['virtual time', 'the locals of a timer shadow its own event']
NAMES = ['x', 'y', 'z', 'event2']
BUDGET = 80


def gen_steps(rng, depth):
    steps = []
    for _ in range(rng.randint(0, 4)):
        r = rng.random()
        if r < .28:
            steps.append(['ext', rng.choice(NAMES), rng.randrange(100)])
        elif r < .38:
            steps.append(['glob', rng.choice(NAMES), rng.randrange(100, 200)])
        elif r < .68:
            steps.append(['snap', rng.randrange(1000)])
        elif r < .78:
            steps.append(['emit', rng.randrange(3)])
        elif r < .80:
            steps.append(['fail'])
        elif depth < 3:
            kind = rng.choice(['timer', 'nest', 'group', 'ld', 'multi'])
            inner = gen_steps(rng, depth + 1)
            steps.append([kind, inner] + (
                [rng.choice([.25, .5, 1, 1, 2.25])] if kind == 'timer' else []))
    return steps


def gen(rng, i, tier):
    handlers = [{'kinds': sorted(rng.sample(range(4), rng.randint(1, 3))),
                 'style': rng.choice(['handle', 'entity', 'both', 'handler']),
                 'steps': gen_steps(rng, 0), 'direct': [
                     s for s in gen_steps(rng, 9) if s[0] in ('ext', 'glob', 'snap', 'fail')]}
                for _ in range(rng.randint(1, 5))]
    return {'handlers': handlers, 'start': gen_steps(rng, 0) or [['emit', 0]],
            'globals': {n: 'g' + n for n in NAMES if rng.random() < .3},
            'locals': {n: 'b' + n for n in NAMES if rng.random() < .2},
            'emit': [rng.randrange(3) for _ in range(rng.randint(0, 3))]}


class Failed(Exception):
    pass


class Model:
    """One scope per handling of an event by one handler."""

    def __init__(self, case):
        self.case = case
        self.globals, self.locals = dict(case['globals']), dict(case['locals'])
        self.queue, self.timers, self.trace = deque(), [], []
        self.seq, self.now, self.uid, self.budget = 0, 0.0, 0, BUDGET
        self.failed, self.down = False, False
        self.in_timer = 0
        self.stats = dict.fromkeys(['timer_snapshots', 'shadowed'], 0)

    def steps(self, steps):
        for step in steps:
            kind = step[0]
            if kind == 'ext':
                self.locals[step[1]] = step[2]
            elif kind == 'glob':
                self.globals[step[1]] = step[2]
            elif kind == 'snap':
                view = {**self.globals, **self.locals}
                self.trace.append([step[1], sorted((k, repr(v)) for k, v in view.items())])
                self.stats['timer_snapshots'] += self.in_timer
                self.stats['shadowed'] += any(
                    k in self.globals and self.globals[k] != v for k, v in self.locals.items())
            elif kind == 'emit':
                if self.budget > 0:
                    self.budget -= 1
                    self.queue.append(['my', step[1], self.uid])
                    self.uid += 1
            elif kind == 'fail':
                raise Failed()
            elif kind == 'timer':
                if self.budget > 0:
                    self.budget -= 1
                    self.timers.append((self.now + step[2], self.seq, step[1],
                                        {**self.globals, **self.locals}))
                    self.seq += 1
            else:
                self.steps(step[1])

    def handling(self, event, *parts, captured=None):
        saved = self.locals
        self.locals = dict(saved)
        self.locals['event'] = event
        if captured is not None:
            self.locals.update(captured)
        try:
            for part in parts:
                self.steps(part)
        except Failed:
            return False
        finally:
            self.locals = saved
        return True

    def run(self):
        for kind in self.case['emit']:
            self.queue.append(['my', kind, self.uid])
            self.uid += 1
        self.queue.append(['start'])
        while True:
            if not self.queue:
                if self.timers:
                    self.timers.sort(key=lambda t: t[:2])
                    self.now = self.timers[0][0]
                    while self.timers and self.timers[0][0] == self.now:
                        _, _, steps, captured = self.timers.pop(0)
                        self.queue.append(['timer', steps, captured])
                    continue
                if self.down:
                    return
                self.down = True
                self.queue.append(['shutdown'])
                continue
            event = self.queue.popleft()
            ok = True
            if event[0] == 'start':
                ok = self.handling('<include>', self.case['start'])
            elif event[0] == 'timer':
                self.in_timer = 1
                ok = self.handling('<timer>', event[1], captured=event[2])
                self.in_timer = 0
            else:
                kind, name = (event[1], 'my-%d-%d' % (event[1], event[2])) \
                    if event[0] == 'my' else (3, '<shutdown>')
                for h in reversed(self.case['handlers']):
                    if kind in h['kinds']:
                        parts = {'handle': [h['direct']], 'entity': [h['steps']],
                                 'both': [h['direct'], h['steps']], 'handler': [h['steps']]}
                        ok = self.handling(name, *parts[h['style']]) and ok
            if not ok:
                self.failed = True
                if not self.down:
                    self.down = True
                    self.queue.append(['shutdown'])


def name_of(value):
    if isinstance(value, MyEvent):
        return 'my-%d-%d' % (value.kind, value.uid)
    if isinstance(value, Shutdown):
        return '<shutdown>'
    name = type(value).__name__
    return {'IncludeLaunchDescription': '<include>', 'TimerEvent': '<timer>'}.get(name, value)


class Boom(Exception):
    pass


def run(case, obs):
    model = Model(case)
    model.run()
    service, loop = new_service()
    trace, timers = [], {}
    state = {'uid': 0, 'budget': BUDGET, 'globals': dict(case['globals'])}

    def snap(context, tag):
        view = dict(context.get_locals_as_dict())
        for key, value in view.items():
            obs.expect(getattr(context.locals, key) is value, 'attribute',
                       'locals.%s differs from the dictionary' % key)
            if isinstance(value, str):
                obs.equal(LocalSubstitution(key).perform(context), value, 'substitution',
                          'LocalSubstitution(%r)' % key)
            try:
                setattr(context.locals, key, 'overwritten')
                obs.fail('read-only', 'locals.%s could be assigned' % key)
            except AttributeError:
                pass
        try:
            context.locals.surely_missing
            obs.fail('missing', 'a missing local is found')
        except AttributeError:
            pass
        obs.equal(dict(context.get_locals_as_dict()), view, 'snapshot-effect',
                  'locals after reading them')
        trace.append([tag, sorted((k, repr(name_of(v))) for k, v in view.items())])
        obs.count('snapshots')

    def direct(steps, context):
        for step in steps:
            if step[0] == 'ext':
                context.extend_locals({step[1]: step[2]})
            elif step[0] == 'glob':
                state['globals'][step[1]] = step[2]
                context.extend_globals({step[1]: step[2]})
            elif step[0] == 'snap':
                snap(context, step[1])
            elif step[0] == 'fail':
                raise Boom('as planned')

    def make_event(kind):
        event = MyEvent(kind, state['uid'])
        state['uid'] += 1
        return event

    def entity(step):
        kind = step[0]
        if kind in ('ext', 'glob', 'snap', 'fail'):
            return Visit(lambda context: direct([step], context))
        if kind == 'emit':
            def emit(context):
                if state['budget'] <= 0:
                    return None
                state['budget'] -= 1
                return [EmitEvent(event=make_event(step[1]))]
            return OpaqueFunction(function=emit)
        if kind == 'timer':
            def timer(context):
                if state['budget'] <= 0:
                    return None
                state['budget'] -= 1
                if id(step) not in timers:
                    timers[id(step)] = TimerAction(
                        period=float(step[2]), actions=build(step[1]), cancel_on_shutdown=False)
                # the same timer may be executed again, with other locals, while it is pending
                return [timers[id(step)]]
            return OpaqueFunction(function=timer)
        inner = build(step[1])
        if kind == 'group':
            return GroupAction(inner, scoped=True)
        if kind == 'ld':
            return LaunchDescription(inner)
        return OpaqueFunction(function=lambda context: inner)

    def build(steps):
        return [entity(step) for step in steps]

    def handler(h):
        def matcher(event):
            if isinstance(event, MyEvent):
                return event.kind in h['kinds']
            return isinstance(event, Shutdown) and 3 in h['kinds']

        if h['style'] == 'handler':
            class Entities(OpaqueFunction):
                pass
            return EventHandler(matcher=matcher, entities=[
                Entities(function=lambda context: build(h['steps']))])

        def function(event, context):
            if h['style'] in ('handle', 'both'):
                direct(h['direct'], context)
            if h['style'] in ('entity', 'both'):
                return build(h['steps'])
            return None
        if h['kinds'] == [3] and h['style'] != 'handler':
            return OnShutdown(on_shutdown=function)
        return Handler(matcher, function)

    def leaks(event):
        # matchers are called between handlings: nothing may be left there
        if isinstance(event, ExecutionComplete):
            return False     # an action asks whether it would be handled
        obs.count('leak_checks')
        view = service.context.get_locals_as_dict()
        expected = {**state['globals'], **case['locals']}
        obs.equal(view, expected, 'leak', 'locals between two handlings')
        return False

    try:
        service.context.extend_globals(case['globals'])
        service.context.extend_locals(case['locals'])
        service.context.register_event_handler(Handler(leaks, None))
        for h in case['handlers']:
            service.context.register_event_handler(handler(h))
        service.context.register_event_handler(Handler(leaks, None))
        for kind in case['emit']:
            service.context.emit_event_sync(make_event(kind))
        service.include_launch_description(LaunchDescription(build(case['start'])))
        result = execute(service, loop)
    finally:
        finish(loop)
    if not judge(result, obs, 1 if model.failed else 0):
        return
    obs.count('errors', int(model.failed))
    for key, value in model.stats.items():
        obs.count(key, value)
    difference = first_difference(model.trace, trace)
    obs.expect(difference is None, 'locals', difference)
    obs.equal(dict(service.context.get_locals_as_dict()), {**model.globals, **model.locals},
              'after-run', 'locals after the run')
    if len(trace) >= 4 and len({repr(t[1]) for t in trace}) > 1:
        obs.sig(trace)
