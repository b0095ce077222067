"""Helpers to execute launch descriptions under monitors (virtual time)."""
import asyncio
import logging
import os
import threading

import launch
import launch.logging
from launch import LaunchContext, LaunchDescription, LaunchService
from launch.action import Action
from launch.event import Event
from launch.event_handler import BaseEventHandler
from launch.events import Shutdown

from .vloop import LogicalDeadlock, Runaway, VirtualLoop


class LogTap(logging.Handler):
    """Collects log records of the launch logging system."""

    def __init__(self):
        super().__init__(level=logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append((record.name, record.levelno, record.getMessage()))


class Run:
    """Outcome of one run of a launch service in virtual time."""

    def __init__(self):
        self.rc = None
        self.error = None      # exception which left run()
        self.deadlock = False
        self.service = None
        self.loop = None
        self.ended_at = None


def new_service(loop=None, **kwargs):
    kwargs.setdefault('noninteractive', True)
    loop = loop or VirtualLoop()
    asyncio.set_event_loop(loop)
    return LaunchService(**kwargs), loop


def execute(service, loop, *, shutdown_when_idle=True):
    """Run the service to its end on a virtual loop."""
    run = Run()
    run.service, run.loop = service, loop
    asyncio.set_event_loop(loop)
    try:
        run.rc = service.run(shutdown_when_idle=shutdown_when_idle)
    except (LogicalDeadlock, Runaway) as exc:
        run.deadlock = True
        run.error = exc
    except BaseException as exc:
        run.error = exc
        if isinstance(exc, (KeyboardInterrupt, SystemExit)):
            pass
    run.ended_at = loop.time()
    return run


def finish(loop):
    """Dispose of a loop; returns descriptions of tasks which were left pending."""
    left = []
    try:
        for task in asyncio.all_tasks(loop):
            if not task.done():
                left.append(repr(task))
                task.cancel()
        if not loop.is_closed():
            loop.set_exception_handler(lambda *a: None)
            for _ in range(5):
                loop.call_soon(loop.stop)
                loop.run_forever()
            loop.close()
    except Exception as exc:
        left.append('closing: %r' % exc)
    asyncio.set_event_loop(None)
    return left


def run_description(entities, *, obs=None, prop_key='run', expect_rc=0, setup=None, argv=None,
                    shutdown_when_idle=True, noninteractive=True, loop=None):
    """Run a list of entities (or a LaunchDescription) in a new service."""
    service, loop = new_service(loop, noninteractive=noninteractive, argv=argv)
    try:
        if setup is not None:
            setup(service)
        ld = entities if isinstance(entities, LaunchDescription) else LaunchDescription(entities)
        service.include_launch_description(ld)
        run = execute(service, loop, shutdown_when_idle=shutdown_when_idle)
    finally:
        finish(loop)
    if obs is not None:
        judge(run, obs, expect_rc)
    return run


def judge(run, obs, expect_rc=0, key='run'):
    """Common expectations on a run."""
    if run.deadlock:
        obs.fail('deadlock', 'the run cannot end: %r' % run.error)
        return False
    if run.error is not None:
        import traceback
        obs.fail('run-raised', 'run() raised: %s' % ''.join(
            traceback.format_exception(run.error))[-1500:])
        return False
    if expect_rc is not None and (run.rc != 0) != (expect_rc != 0):
        obs.fail('return-code', 'run() returned %r, expected %s' % (
            run.rc, 'zero' if expect_rc == 0 else 'non-zero'))
        return False
    return True


class MyEvent(Event):
    """An event with an identity."""

    name = 'verif.MyEvent'

    def __init__(self, kind, uid):
        self.kind, self.uid = kind, uid

    def __repr__(self):
        return 'MyEvent(%r, %r)' % (self.kind, self.uid)


class Visit(Action):
    """Action which calls a function with the context when executed and yields what it returns."""

    def __init__(self, function, future=None, **kwargs):
        super().__init__(**kwargs)
        self._function = function
        self._make_future = future
        self._future = None

    def execute(self, context):
        self._future = self._make_future(context) if self._make_future else None
        return self._function(context)

    def get_asyncio_future(self):
        return self._future


class Handler(BaseEventHandler):
    """Handler with a matcher and a function(event, context) giving entities."""

    def __init__(self, matcher, function, **kwargs):
        super().__init__(matcher=matcher, **kwargs)
        self._function = function

    def handle(self, event, context):
        super().handle(event, context)
        return self._function(event, context)


def first_difference(expected, actual):
    for n, (a, b) in enumerate(zip(expected, actual)):
        if a != b:
            return 'at step %d expected %r but observed %r (before that: %r)' % (
                n, a, b, expected[max(0, n - 4):n])
    if len(expected) > len(actual):
        return 'missing after step %d: %r' % (len(actual), expected[len(actual):][:4])
    if len(actual) > len(expected):
        return 'surplus after step %d: %r (before that: %r)' % (
            len(expected), actual[len(expected):][:4], expected[-3:])
    return None


__all__ = ['Action', 'BaseEventHandler', 'Event', 'Handler', 'LaunchContext', 'LaunchDescription',
           'LaunchService', 'LogTap', 'LogicalDeadlock', 'MyEvent', 'Run', 'Runaway', 'Shutdown',
           'VirtualLoop', 'Visit', 'asyncio', 'execute', 'finish', 'first_difference', 'judge',
           'launch', 'new_service', 'os', 'run_description', 'threading']
