"""Offered volumes, bid capacity limits and intermittent generation forecasts bound every unit's dispatch."""
from .world import *
from .families import *

META = dict(
    bounds='up to 6 units (generators, loads, bidirectional), 10 bands, energy plus FCAS services; volumes 0..2000 (bids under '
           '0.0001 included), capacities 0..3000',
    outside='larger markets; capacities left NaN',
)
FC = ('energy', 'raise_reg', 'lower_6s')


def offered(w):
    """Dispatch of every offered service is at least zero and at most what was offered."""
    for u, t, s in w.rows():
        v = w.vol[u.name, t, s]
        d = lambda ww, u=u, t=t, s=s: ww.D(u.name, t, s)  # noqa
        tot = 0.0
        for x in v:
            tot = tot + x
        w.cons.append(Con('at-most-offered', d, '<=', tot))
        w.cons.append(Con('not-negative', d, '>=', 0.0))


def b(*fs, **bk):
    def f(w):
        w.bids(**bk)
        offered(w)
        for g in fs:
            g(w)
    return f


SHAPES = {
    'volumes': dict(regions=['A', 'B'], units=[G('g1', 'A', FC, bands=3), L('l1', 'B', FC), B('b1', 'B', FC, bands=2)],
                    build=b()),
    'small_volumes': dict(regions=['A'], units=[G('g1', 'A', bands=3), G('g2', 'A')],
                          build=b(demand, small=('g1',)), modes=('sound',)),
    'small_volumes_load': dict(regions=['A'], units=[G('g2', 'A'), L('l1', 'A', FC), G('g3', 'A')],
                               build=b(demand, small=('l1', 'g3')), modes=('sound',)),
    'ten_bands': dict(regions=['A'], units=[G('g1', 'A', bands=10), L('l1', 'A', bands=10)], build=b()),
    'capacity': dict(regions=['A'], units=[G('g1', 'A', bands=2), L('l1', 'A'), B('b1', 'A', bands=2), G('g2', 'A')],
                     build=b(capacity)),
    'capacity_some': dict(regions=['A', 'B'], units=[G('g1', 'A', FC), L('l1', 'A', FC), B('b1', 'B', FC), G('g11', 'A')],
                          build=b(lambda w: capacity(w, units=['g1', 'b1']))),
    'capacity_mincols': dict(regions=['A'], units=[G('g1', 'A', bands=2), G('g2', 'A')], build=b(capacity),
                             min_columns=True),
    'uigf': dict(regions=['A'], units=[G('g1', 'A', FC, bands=2), G('g2', 'A'), L('l1', 'A')],
                 build=b(lambda w: uigf(w, ['g1']))),
    'both': dict(regions=['A'], units=[G('g1', 'A', FC, bands=2), G('g2', 'A'), B('b1', 'A')],
                 build=b(capacity, lambda w: uigf(w, ['g2', 'g1']), demand)),
    'one_unit': dict(regions=['A'], units=[G('g1', 'A')], build=b(capacity, lambda w: uigf(w, ['g1']))),
    'bdu_only': dict(regions=['A'], units=[B('b1', 'A')], build=b(capacity)),
    'fcas_only_units': dict(regions=['A'], units=[G('g1', 'A'), G('f1', 'A', ('raise_reg', 'raise_1s')),
                                                  L('f2', 'A', ('lower_1s',))], build=b(capacity)),
}
for n in ('capacity', 'both'):
    SHAPES[n]['variants'] = ('', 'shuffled', 'reset', 'redispatch')


def cases(tier):
    return cases_from(SHAPES, tier)
