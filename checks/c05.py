"""Fast start units follow their inflexibility profile."""
from .world import *
from .families import *

META = dict(
    bounds='up to 6 units in every mode 0..4; time in mode 0..60, lengths 0.25..60 minutes, minimum loading 0..1000 MW',
    outside='mode two or four of zero length; larger markets; bidirectional fast start units',
)


def b(*fs):
    def f(w):
        w.bids(prices=False)
        for g in fs:
            g(w)
    return f


ALL = [G('g%d' % i, 'A') for i in range(5)] + [G('plain', 'A', ('energy', 'raise_reg'))]
LOADS = [L('l%d' % i, 'A') for i in range(5)] + [G('g', 'A')]


def removed(w):
    fast_start(w, {'g2': 2, 'g3': 3})
    w.cons = [c for c in w.cons if c.key != 'fast_start']
    w.m.remove_fast_start_constraints()


def removed_soft(w):
    fast_start(w, {'g2': 2, 'g3': 3}, violation_cost=1000.0)
    w.cons = [c for c in w.cons if c.key != 'fast_start']
    w.m.remove_fast_start_constraints()


SHAPES = {
    'all_modes': dict(regions=['A'], units=ALL, build=b(lambda w: fast_start(w, {'g%d' % i: i for i in range(5)})),
                      variants=('', 'shuffled', 'reset', 'redispatch')),
    'two_each': dict(regions=['A'], units=ALL, build=b(lambda w: fast_start(w, {'g0': 2, 'g1': 2, 'g2': 4, 'g3': 4, 'g4': 3}))),
    'loads': dict(regions=['A'], units=LOADS, build=b(lambda w: fast_start(w, {'l%d' % i: i for i in range(5)}))),
    'with_ramp': dict(regions=['A'], units=ALL, build=b(lambda w: fast_start(w, {'g2': 2, 'g3': 3, 'g4': 4}),
                                                        lambda w: ramp(w, profiles={'g2': dict(end_mode=2),
                                                                                    'g3': dict(end_mode=3, since=True),
                                                                                    'g4': dict(end_mode=4, since=False)},
                                                                       run_type='fast_start_second_run'), demand)),
    'removed': dict(regions=['A'], units=ALL, build=b(removed, demand), variants=('', 'redispatch')),
    'removed_soft': dict(regions=['A'], units=ALL, build=b(removed_soft, demand), variants=('', 'redispatch')),
}
for m in range(5):
    SHAPES['only_mode_%d' % m] = dict(regions=['A'], units=[G('g1', 'A', bands=2), G('g2', 'A')],
                                      build=b(lambda w, m=m: fast_start(w, {'g1': m})), variants=('',))


def cases(tier):
    return cases_from(SHAPES, tier)
