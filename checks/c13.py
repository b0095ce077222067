"""C13: respawn restarts a process as often and as late as configured."""
from vf import procs, real

CASES = {'quick': 11000, 'thorough': 400000}
WALL = {'quick': 110, 'thorough': 780}
TIMEOUT = 60
NEED = {'restarts': 4000, 'retries_exhausted': 1000, 'stopped_in_delay': 300,
        'stopped_respawning': 1000, 'real_restarts': 20}
RULE = ('a case runs random processes (lives, faults, respawn, timeouts, signals, triggers) and the '
        'times and number of starts are compared with a model; non-trivial: there was a restart')
ASSUMPTIONS = ['most cases run in virtual time with processes simulated below the asyncio '
               'subprocess API; some run real processes in real time']
PROFILE = {'respawn': .7, 'latency': 0, 'output': .1, 'endless': .05, 'idle': .25}


def gen(rng, i, tier):
    if i % 60 == 7:
        return real.gen(rng, respawn=.7)
    return procs.gen(rng, PROFILE)


def run(case, obs):
    if case.get('real'):
        real.judge_respawn(real.perform(case), obs)
        return
    rec = procs.perform(case)
    if procs.ended_well(rec, obs):
        procs.judge_respawn(rec, obs)
