"""Independent model of text expectations and of process selection (launch_testing asserts)."""
import functools
import re

from launch.actions import ExecuteProcess
from launch.events.process import ProcessExited, ProcessStarted, ProcessStderr, ProcessStdout

ANSI = re.compile('\x1b\\[[0-9;]*[A-Za-z]')


class Proc(ExecuteProcess):
    """An action that looks started, without a process."""

    def __init__(self, name, cmd, pause=None):
        super().__init__(cmd=cmd)
        self.details = {'name': name, 'cmd': list(cmd), 'cwd': None, 'env': None, 'pid': 1}
        self.pause = pause

    @property
    def process_details(self):
        if self.pause:
            self.pause()
        return self.details

    def args(self):
        return dict(self.details, action=self)

    def started(self):
        return ProcessStarted(**self.args())

    def exited(self, code):
        return ProcessExited(returncode=code, **self.args())

    def io(self, stream, text):
        cls = {'stdout': ProcessStdout, 'stderr': ProcessStderr}[stream]
        if self.pause:
            cls = slow(cls)
        return cls(text=text, **self.args())


@functools.lru_cache(None)
def slow(cls):
    class Slow(cls):
        @property
        def action(self):
            action = super().action
            if action.pause:
                action.pause()
            return action
    return Slow


def expectation(spec):
    """Build what is given to an assertion: text, {'re': pattern} or a list of these."""
    if isinstance(spec, dict):
        return re.compile(spec['re'])
    if isinstance(spec, list):
        return [expectation(s) for s in spec]
    return spec


def lf(text):
    return text.replace('\r\n', '\n')


def find(spec, text, start=0):
    """Position of the first match from start as (begin, end), or None."""
    if isinstance(spec, str):
        at = text.find(spec, start)
        return None if at < 0 else (at, at + len(spec))
    if isinstance(spec, dict):
        match = re.compile(spec['re']).search(text, start)
        return match and match.span()
    begin = None
    for item in spec:
        match = find(item, text, start)
        if match is None:
            return None
        start = match[1]
        begin = match[0] if begin is None else begin
    return begin, start


def contains(spec, text):
    return find(spec, lf(text)) is not None
