"""FCAS requirement sets and generic constraints hold."""
from .world import *
from .families import *

META = dict(
    bounds='up to 3 regions, 6 units, 3 interconnectors (one of them a pair of links), 5 constraint sets; coefficients -10..10, '
           'right hand sides -5000..5000, requirements 0..2000',
    outside='region level energy terms in markets with scheduled loads (the sign convention is not documented); larger markets',
)
ALL = ('energy', 'raise_reg', 'lower_reg', 'raise_6s', 'lower_5min')


def b(*fs):
    def f(w):
        w.bids(prices=False)
        for g in fs:
            g(w)
    return f


def ic(*ls):
    return lambda w: interconnectors(w, [Link(*a, **k) for a, k in ls], mnsp=any('link' in k for _, k in ls))


def fr(sets, **k):
    return lambda w: fcas_requirements(w, sets, **k)


def gc(sets, **k):
    return lambda w: generic(w, sets, **k)


U3 = [G('g1', 'A', ALL), L('l1', 'A', ALL), G('g2', 'B', ALL), B('b1', 'C', ALL), G('g11', 'C', ('raise_6s',))]
SHAPES = {
    'req_one': dict(regions=['A'], units=[G('g1', 'A', ALL), L('l1', 'A', ALL)], build=b(fr([('s', 'raise_6s', ['A'], '>=')]))),
    'req_sets': dict(regions=['A', 'B', 'C'], units=U3, build=b(fr([
        ('glob', 'raise_6s', ['A', 'B', 'C'], '>='), ('loc', 'raise_6s', ['B'], '>='), ('eq', 'lower_5min', ['A', 'C'], '='),
        ('top', 'lower_reg', ['A', 'B'], '<=')])), variants=('', 'shuffled', 'reset', 'redispatch')),
    'req_notypes': dict(regions=['A', 'B', 'C'], units=U3, build=b(fr([
        ('glob', 'raise_6s', ['A', 'B', 'C'], '='), ('loc', 'raise_reg', ['A'], '=')], types=False))),
    'req_multi_service': dict(regions=['A', 'B', 'C'], units=U3, build=b(fr([
        ('mix', 'raise_6s', ['A', 'B'], '>='), ('mix', 'raise_reg', ['A', 'B'], '>=')]))),
    'req_bdu': dict(regions=['A'], units=[B('b1', 'A', ALL), G('g1', 'A', ALL)], build=b(fr([
        ('s1', 'raise_reg', ['A'], '>='), ('s2', 'lower_reg', ['A'], '>=')]))),
    'gen_units': dict(regions=['A', 'B', 'C'], units=U3, build=b(gc({
        'c1': ('<=', [('unit', 'g1', 'energy'), ('unit', 'g2', 'energy')]),
        'c2': ('>=', [('unit', 'b1', 'energy'), ('unit', 'l1', 'energy')]),
        'c3': ('=', [('unit', 'g1', 'raise_6s'), ('unit', 'b1', 'raise_reg'), ('unit', 'g11', 'raise_6s')]),
        'c10': ('<=', [('unit', 'g1', 'energy')])})), variants=('', 'shuffled', 'reset', 'redispatch')),
    'gen_bands': dict(regions=['A'], units=[G('g1', 'A', ALL, bands=3), B('b1', 'A', ALL, bands=2)], build=b(gc({
        'c1': ('<=', [('unit', 'g1', 'energy'), ('unit', 'b1', 'energy')]), 'c2': ('>=', [('unit', 'b1', 'lower_reg')])}))),
    'gen_inter': dict(regions=['A', 'B', 'C'], units=U3, build=b(
        ic((('I1', 'A', 'B'), {}), (('I2', 'B', 'C'), {})),
        gc({'c1': ('<=', [('inter', 'I1')]), 'c2': ('>=', [('inter', 'I2'), ('inter', 'I1'), ('unit', 'g1', 'energy')])}))),
    'gen_mnsp': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')], build=b(
        ic((('I1', 'A', 'B'), dict(link='a', factor=1)), (('I1', 'B', 'A'), dict(link='b', factor=-1))),
        gc({'c1': ('<=', [('inter', 'I1'), ('unit', 'g1', 'energy')]), 'c2': ('>=', [('inter', 'I1')])}))),
    'gen_region': dict(regions=['A', 'B'], units=[G('g1', 'A', ALL), G('g2', 'A', ALL), G('g3', 'B', ALL)], build=b(
        gc({'c1': ('<=', [('region', 'A', 'energy'), ('region', 'B', 'energy')]),
            'c2': ('>=', [('region', 'B', 'raise_6s'), ('unit', 'g1', 'energy')])}))),
    'gen_region_fcas': dict(regions=['A', 'B', 'C'], units=U3, build=b(
        gc({'c1': ('<=', [('region', 'A', 'raise_6s'), ('region', 'C', 'raise_6s')]),
            'c2': ('=', [('region', 'C', 'lower_reg')])}))),
    'all_kinds': dict(regions=['A', 'B', 'C'], units=U3, build=b(
        ic((('I1', 'A', 'B'), {}), (('I2', 'C', 'B'), {})),
        fr([('s1', 'raise_6s', ['A', 'B'], '>='), ('s2', 'raise_reg', ['A'], '=')]),
        gc({'c1': ('<=', [('unit', 'g1', 'energy'), ('inter', 'I1'), ('region', 'A', 'raise_6s')]),
            'c2': ('>=', [('inter', 'I2')])}), demand), variants=('', 'shuffled', 'reset', 'redispatch')),
    'set_with_terms': dict(regions=['A', 'B', 'C'], units=U3, build=b(
        ic((('I1', 'A', 'B'), {})),
        fr([('s1', 'raise_6s', ['A', 'B'], '>='), ('s2', 'raise_reg', ['A'], '=')]),
        gc({'s1': (None, [('unit', 'g2', 'energy'), ('inter', 'I1')]), 'c2': ('>=', [('unit', 'g1', 'energy')])}))),
    'links_unused': dict(regions=['A', 'B', 'C'], units=U3, build=b(
        gc({'c1': ('<=', [('unit', 'g1', 'energy')]), 'nowhere': (None, [('unit', 'g2', 'energy')])}))),
}


def cases(tier):
    return cases_from(SHAPES, tier)
