"""C12: process output is captured completely, in order, line by line."""
from vf import burst, procs, real

CASES = {'quick': 9000, 'thorough': 300000}
WALL = {'quick': 110, 'thorough': 780}
TIMEOUT = 60
NEED = {'bytes': 300000, 'lines': 15000, 'unterminated': 6000, 'not_utf8': 3000, 'cached': 3000,
        'real_bytes': 50000, 'burst_bytes': 10000, 'burst_tails': 200}
RULE = ('a case runs random processes (lives, faults, respawn, timeouts, signals, triggers) and write '
        'random bytes in random pieces; the events, the lines logged and the cached output are '
        'compared with what was written; non-trivial: more than 30 bytes')
ASSUMPTIONS = ['most cases run in virtual time with processes simulated below the asyncio '
               'subprocess API; some run real processes in real time']
PROFILE = {'output': .9, 'respawn': .35, 'endless': .1, 'latency': .1}


def gen(rng, i, tier):
    if i % 60 == 7:
        return real.gen(rng, big=True)
    if i % 60 == 37:
        return burst.gen(rng)
    return procs.gen(rng, PROFILE)


def run(case, obs):
    if case.get('real'):
        real.judge_output(real.perform(case), obs)
        return
    if case.get('burst'):
        burst.judge_output(burst.perform(case), obs)
        return
    rec = procs.perform(case)
    if procs.ended_well(rec, obs):
        procs.judge_output(rec, obs)
