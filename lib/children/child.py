"""A process for the checks which keeps a journal of what happens to it.

usage: child.py JOURNAL PLAN [anything]; PLAN is JSON: {"out": [[fd, hex, pause], ...], "code": n,
"stay": seconds, "int": "ignore" | "exit" | null, "term": the same, "die": signal number}
"""
import json
import os
import signal
import sys
import time

journal = os.open(sys.argv[1], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
plan = json.loads(sys.argv[2])


def note(what, *more):
    os.write(journal, (json.dumps([what, os.getpid(), time.monotonic()] + list(more)) +
                       '\n').encode())


def on_signal(signum, frame):
    note('signal', signum)
    if reactions.get(signum) == 'exit':
        note('end', 100 + signum)
        os._exit(100 + signum)


reactions = {}
for name, signum in (('int', signal.SIGINT), ('term', signal.SIGTERM), ('usr1', signal.SIGUSR1)):
    reactions[int(signum)] = plan.get(name)
    if plan.get(name):
        signal.signal(signum, on_signal)
    else:
        signal.signal(signum, signal.SIG_DFL)
note('start', sys.argv[3:], os.getcwd(), dict(os.environ), os.getppid(), os.getsid(0))
start = time.monotonic()
for fd, data, pause in plan.get('out', ()):
    data = bytes.fromhex(data) * plan.get('times', 1)
    while data:
        data = data[os.write(fd, data):]
    if pause:
        time.sleep(pause)
while True:
    left = start + plan.get('stay', 0) - time.monotonic()
    if left <= 0:
        break
    time.sleep(min(left, 1))
note('end', plan.get('code', 0))
if plan.get('die'):
    os.kill(os.getpid(), plan['die'])
    time.sleep(5)
os._exit(plan.get('code', 0))
