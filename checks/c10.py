"""C10: termination escalates SIGINT, SIGTERM, SIGKILL only as far as needed."""
from vf import procs, real

CASES = {'quick': 12000, 'thorough': 400000}
WALL = {'quick': 110, 'thorough': 780}
TIMEOUT = 60
NEED = {'signals': 5000, 'sigterms': 1500, 'sigkills': 600, 'terminal_sigints': 300,
        'real_stopped': 20, 'real_sigterms': 5}
RULE = ('a case runs random processes (lives, faults, respawn, timeouts, signals, triggers) and the '
        'journal of signals of each process is compared with a model; non-trivial: at least two '
        'signals were received')
ASSUMPTIONS = ['most cases run in virtual time with processes simulated below the asyncio '
               'subprocess API; some run real processes in real time']
PROFILE = {'idle': .1, 'endless': .5, 'output': 0}


def gen(rng, i, tier):
    if i % 60 == 7:
        return real.gen(rng)
    return procs.gen(rng, PROFILE)


def run(case, obs):
    if case.get('real'):
        real.judge_signals(real.perform(case), obs)
        return
    rec = procs.perform(case)
    if procs.ended_well(rec, obs):
        procs.judge_signals(rec, obs)
