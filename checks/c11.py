"""C11: each process yields one start, then its output, then one exit event."""
from vf import burst, procs, real

CASES = {'quick': 11000, 'thorough': 400000}
WALL = {'quick': 110, 'thorough': 780}
TIMEOUT = 60
NEED = {'starts': 5000, 'on_exits': 4000, 'failed_starts': 500, 'repeated_executions': 200,
        'real_lives': 60, 'real_codes': 40, 'burst_lives': 300, 'burst_outputs': 200}
RULE = ('a case runs random processes (lives, faults, respawn, timeouts, signals, triggers) and the '
        'events of each process are compared with its journal and a model; non-trivial: at least '
        'two starts')
ASSUMPTIONS = ['most cases run in virtual time with processes simulated below the asyncio '
               'subprocess API; some run real processes in real time']
PROFILE = {'fault': .15, 'steps': ['again', 'stop', 'signal', 'config']}


def gen(rng, i, tier):
    if i % 60 == 7:
        return real.gen(rng)
    if i % 60 == 37:
        return burst.gen(rng)
    return procs.gen(rng, PROFILE)


def run(case, obs):
    if case.get('real'):
        real.judge_life(real.perform(case), obs)
        return
    if case.get('burst'):
        burst.judge_life(burst.perform(case), obs)
        return
    rec = procs.perform(case)
    if procs.ended_well(rec, obs):
        procs.judge_life(rec, obs)
