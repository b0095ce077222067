"""C06: configuration and environment actions change exactly what they name."""
from vf import scopes

CASES = {'quick': 12000, 'thorough': 250000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 40
NEED = {'executed': 50000, 'snapshots': 30000, 'errors': 500, 'children': 2000}
RULE = ('a case is a random sequence of set, unset, append, push, pop and reset actions with '
        'substitutions for names and values, repeated executions of the same action objects and '
        'child processes; the complete configurations and environment at every snapshot, as read '
        'through the context, substitutions and child processes, must equal those of a reference '
        'model; non-trivial: at least 3 different states')
ASSUMPTIONS = ['virtual time', 'child processes are simulated below the asyncio subprocess API']
WEIGHTS = {'setc': 5, 'unsetc': 2, 'sete': 5, 'unsete': 2, 'append': 5, 'resetc': 1, 'resete': 1,
           'pushc': 2, 'pushe': 2, 'popc': 2.5, 'pope': 2.5, 'group': .7, 'include': .7,
           'repeat': 2, 'timer': .7, 'snap': 3, 'proc': 1.5}


def gen(rng, i, tier):
    g = scopes.Gen(rng, WEIGHTS, unbalanced=rng.choice([0, 0, .1, .3]), safe=rng.random() < .8)
    return {'nodes': g.nodes(0, 14),
            'cfg': {n: rng.choice(scopes.TEXTS) for n in scopes.CONFIGS if rng.random() < .5},
            'env': {n: rng.choice(scopes.TEXTS) for n in scopes.ENVS if rng.random() < .5},
            'late': {n: 'late' for n in scopes.ENVS if rng.random() < .15}}


def run(case, obs):
    model, ok = scopes.perform(case, obs)
    if len({repr(t[2:]) for t in model.trace}) >= 3:
        obs.sig([[t[0], sorted(t[-1].items())] for t in model.trace])
