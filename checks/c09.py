"""C09: shutdown is announced once and leaves nothing running."""
from vf import procs, real

CASES = {'quick': 12000, 'thorough': 400000}
WALL = {'quick': 110, 'thorough': 780}
TIMEOUT = 60
NEED = {'processes': 5000, 'handlers_told': 3000, 'trigger_idle': 300, 'trigger_sigint': 200,
        'trigger_error': 200, 'coroutines_cancelled': 500, 'coroutines_again': 400, 'timers_cancelled': 200,
        'ended_by_hand': 50, 'real_processes': 60}
RULE = ('a case runs random processes (lives, faults, respawn, timeouts, signals, triggers) and the '
        'announcements, the end of the run and what is left then are compared with a model; '
        'non-trivial: there was a process and a trigger or other work')
ASSUMPTIONS = ['most cases run in virtual time with processes simulated below the asyncio '
               'subprocess API; some run real processes in real time']
PROFILE = {'idle': .6, 'endless': .08, 'required': .12, 'steps': ['stop', 'signal', 'config', 'again']}


def gen(rng, i, tier):
    if i % 60 == 7:
        return real.gen(rng)
    return procs.gen(rng, PROFILE)


def run(case, obs):
    if case.get('real'):
        real.judge_shutdown(real.perform(case), obs)
        return
    rec = procs.perform(case)
    if procs.ended_well(rec, obs):
        procs.judge_shutdown(rec, obs)
