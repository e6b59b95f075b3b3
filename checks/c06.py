"""FCAS trapeziums: maximum availability, joint capacity and energy + regulation capacity."""
from .world import *
from .families import *

META = dict(
    bounds='up to 4 units (generator, load, bidirectional), several services each; trapezium break points 0..1000 (bidirectional '
           '-1000..1000) in order, maximum availability 0.5..1000',
    outside='maximum availability of zero (slope undefined); unordered trapeziums; larger markets',
)
ALL = ('energy', 'raise_reg', 'lower_reg', 'raise_6s', 'lower_5min')
CON = ('energy', 'raise_6s', 'lower_5min', 'raise_1s')


def b(*fs):
    def f(w):
        w.bids(prices=False)
        for g in fs:
            g(w)
    return f


def jc(*which, **k):
    return lambda w: joint_capacity(w, list(which), **k)


def er(*which, **k):
    return lambda w: energy_regulation(w, list(which), **k)


g, l, d = G('g1', 'A', ALL), L('l1', 'A', ALL), B('b1', 'A', ALL)
GEN = [('g1', 'generator', 'raise_6s'), ('g1', 'generator', 'lower_5min')]
LOAD = [('l1', 'load', 'raise_6s'), ('l1', 'load', 'lower_5min')]
BDU = [('b1', 'generator', 'raise_6s'), ('b1', 'generator', 'lower_5min')]
ER = [('g1', 'generator', 'raise_reg'), ('g1', 'generator', 'lower_reg'), ('l1', 'load', 'raise_reg'),
      ('l1', 'load', 'lower_reg'), ('b1', 'generator', 'raise_reg'), ('b1', 'generator', 'lower_reg'),
      ('b1', 'load', 'raise_reg'), ('b1', 'load', 'lower_reg')]
SHAPES = {
    'max_availability': dict(regions=['A'], units=[g, l, d], build=b(fcas_max),
                             variants=('', 'shuffled', 'reset', 'redispatch')),
    'max_some': dict(regions=['A'], units=[g, l, d], build=b(lambda w: fcas_max(
        w, which=[('g1', 'generator', 'raise_6s'), ('l1', 'load', 'raise_reg')]))),
    'max_mincols': dict(regions=['A'], units=[G('g1', 'A', ALL), G('g2', 'A', ('raise_reg',))],
                        build=b(fcas_max)),
    'gen': dict(regions=['A'], units=[g], build=b(jc(*GEN)), variants=('', 'shuffled', 'reset', 'redispatch')),
    'gen_nocol': dict(regions=['A'], units=[g, G('g2', 'A', ALL)], build=b(jc(*GEN, columns=False)), min_columns=False),
    'gen_no_reg': dict(regions=['A'], units=[G('g1', 'A', CON), G('g2', 'A', ('energy', 'raise_reg'))], build=b(jc(*GEN))),
    'gen_one_reg': dict(regions=['A'], units=[G('g1', 'A', CON + ('lower_reg',))], build=b(jc(*GEN))),
    'load': dict(regions=['A'], units=[l, g], build=b(jc(*LOAD))),
    'load_one_reg': dict(regions=['A'], units=[L('l1', 'A', CON + ('raise_reg',))], build=b(jc(*LOAD))),
    'bdu': dict(regions=['A'], units=[d], build=b(jc(*BDU)), variants=('', 'shuffled', 'reset', 'redispatch')),
    'bdu_one_reg': dict(regions=['A'], units=[B('b1', 'A', {'generator': CON + ('raise_reg',), 'load': (
        'energy', 'lower_reg')})], build=b(jc(*BDU))),
    'all_units': dict(regions=['A', 'B'], units=[g, l, B('b1', 'B', ALL)], build=b(jc(*(BDU + GEN + LOAD)))),
    'energy_reg': dict(regions=['A'], units=[g, l, d], build=b(er(*ER)), variants=('', 'shuffled', 'reset', 'redispatch')),
    'energy_reg_some': dict(regions=['A'], units=[g, l, d], build=b(er(ER[1], ER[2], ER[7]))),
    'energy_reg_nocol': dict(regions=['A'], units=[g, G('g2', 'A', ALL)], build=b(er(ER[0], ER[1], columns=False))),
    'everything': dict(regions=['A'], units=[g, l, d], build=b(fcas_max, jc(*(GEN + LOAD + BDU)), er(*ER), capacity, demand)),
}


def cases(tier):
    return cases_from(SHAPES, tier)
