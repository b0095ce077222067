"""C05: a scoped group leaves configurations and environment untouched outside."""
from vf import scopes

CASES = {'quick': 12000, 'thorough': 250000}
WALL = {'quick': 90, 'thorough': 700}
TIMEOUT = 40
NEED = {'scoped_groups': 10000, 'snapshots': 50000, 'isolated': 1000, 'unscoped': 1000}
RULE = ('a case is a random nesting of groups (scoped or not, forwarding or not, with given '
        'configurations), includes, timers and actions which change configurations and '
        'environment; the state before and after each scoped group is compared directly, and all '
        'states with those of a reference model; non-trivial: a scoped group whose contents '
        'changed something')
ASSUMPTIONS = ['push and pop actions within a group are balanced', 'virtual time']
WEIGHTS = {'setc': 5, 'unsetc': 2, 'sete': 4, 'unsete': 2, 'append': 2, 'resetc': .7, 'resete': .6,
           'pushc': .5, 'pushe': .5, 'popc': 1, 'pope': 1, 'group': 6, 'include': 1, 'repeat': .6,
           'timer': .7, 'snap': 1, 'proc': .3}


def gen(rng, i, tier):
    g = scopes.Gen(rng, WEIGHTS)
    return {'nodes': g.nodes(0), 'cfg': {n: rng.choice(scopes.TEXTS) for n in scopes.CONFIGS
                                         if rng.random() < .5},
            'env': {n: rng.choice(scopes.TEXTS) for n in scopes.ENVS if rng.random() < .5},
            'late': {n: 'late' for n in scopes.ENVS if rng.random() < .15}}


def walk(nodes):
    for node in nodes:
        yield node
        yield from walk(node.get('children', ()))


def run(case, obs):
    model, ok = scopes.perform(case, obs)
    groups = [n for n in walk(case['nodes']) if n['k'] == 'group']
    obs.count('isolated', sum(g['scoped'] and not g['forwarding'] for g in groups))
    obs.count('unscoped', sum(not g['scoped'] for g in groups))
    if model.scoped and len({repr(t[2:]) for t in model.trace}) > 2:
        obs.sig([[t[0], sorted(t[-1].items())] for t in model.trace])
