"""Ramp limits of generators and loads."""
from .world import *
from .families import *

META = dict(
    bounds='up to 6 units; initial output 0..1500 MW, rates 0..6000 MW/h, dispatch interval 1..60 minutes; fast start run types '
           'first/second/third with every mode 0..4',
    outside='negative rates; larger markets; bidirectional units are decided by C04',
)


def b(*fs):
    def f(w):
        w.bids(prices=False)
        for g in fs:
            g(w)
    return f


def sym_interval(E, **kw):
    return scenario(E, interval=E.real('interval', 1, 60), **kw)


U = [G('g1', 'A', bands=2), L('l1', 'A'), G('g2', 'A')]
MIX = [G('g1', 'A', bands=2), L('l1', 'A'), B('b1', 'A')]
FS = [G('g%d' % i, 'A') for i in range(5)] + [G('plain', 'A'), L('l1', 'A')]
first = {'g%d' % i: dict(current_mode=i) for i in range(5)}
second = {'g%d' % i: dict(end_mode=i, since=i >= 3) for i in range(5)}
second_nosince = {'g%d' % i: dict(end_mode=i, since=False) for i in range(5)}
mixed2 = {'g2': dict(end_mode=2), 'g3': dict(end_mode=3, since=True), 'g4': dict(end_mode=3, since=False),
          'g0': dict(end_mode=4, since=False)}
SC = {'g0': (True, True), 'g3': (True, False), 'g4': (True, True), 'plain': (False, True)}
SHAPES = {
    'plain': dict(regions=['A'], units=U, build=b(lambda w: ramp(w)), variants=('', 'shuffled', 'reset', 'redispatch')),
    'some_units': dict(regions=['A'], units=U, build=b(lambda w: ramp(w, units=['g2']))),
    'fcas_too': dict(regions=['A', 'B'], units=[G('g1', 'A', ('energy', 'raise_reg')), L('l1', 'B', ('energy', 'lower_reg')),
                                                G('g11', 'B')], build=b(lambda w: ramp(w))),
    'scada_both': dict(regions=['A'], units=U, build=b(lambda w: ramp(w, scada={'g1': (True, True), 'l1': (True, True),
                                                                              'g2': (True, True)}))),
    'scada_part': dict(regions=['A'], units=U, build=b(lambda w: ramp(w, scada={'g1': (True, False), 'l1': (False, True)}))),
    'scada_up_only': dict(regions=['A'], units=U, build=b(lambda w: ramp(w, scada={'g1': (True, False), 'l1': (True, False)}))),
    'scada_down_only': dict(regions=['A'], units=U, build=b(lambda w: ramp(w, scada={'g1': (False, True), 'l1': (False, True)}))),
    'scada_reset': dict(regions=['A'], units=U, build=b(lambda w: ramp(w, scada={'g1': (True, False), 'l1': (True, True)})),
                        variants=('reset', 'redispatch')),
    'first_run': dict(regions=['A'], units=FS, build=b(lambda w: ramp(w, profiles=first, run_type='fast_start_first_run'))),
    'first_run_scada': dict(regions=['A'], units=FS, build=b(lambda w: ramp(w, profiles=first, scada=SC,
                                                                            run_type='fast_start_first_run'))),
    'second_run': dict(regions=['A'], units=FS, build=b(lambda w: ramp(w, profiles=second,
                                                                       run_type='fast_start_second_run'))),
    'second_run_2': dict(regions=['A'], units=FS, build=b(lambda w: ramp(w, profiles=second_nosince,
                                                                         run_type='fast_start_second_run'))),
    'second_run_scada': dict(regions=['A'], units=FS, build=b(lambda w: ramp(w, profiles=mixed2, scada=SC,
                                                                             run_type='fast_start_second_run')),
                             variants=('', 'shuffled', 'reset', 'redispatch')),
    'third_run_none': dict(regions=['A'], units=FS, build=b(lambda w: ramp(w, run_type='no_fast_start_units'))),
    'all_excluded': dict(regions=['A'], units=[G('g1', 'A')],
                         build=b(lambda w: ramp(w, profiles={'g1': dict(current_mode=1)},
                                                run_type='fast_start_first_run'), demand)),
    'mixed_bdu': dict(regions=['A'], units=MIX, build=b(lambda w: ramp(w)), modes=('sound',), only=('ramp-',)),
    'with_demand_capacity': dict(regions=['A'], units=U, build=b(lambda w: ramp(w), capacity, demand)),
    'mincols': dict(regions=['A'], units=[G('g1', 'A', bands=2), G('g2', 'A')], build=b(lambda w: ramp(w)),
                    min_columns=True),
}


def cases(tier):
    from vlib.runner import Case
    out = cases_from(SHAPES, tier)
    for n in ('plain', 'scada_part', 'second_run_scada'):
        for m in ('sound', 'complete'):
            a = {k: v for k, v in SHAPES[n].items() if k not in ('variants', 'modes')}
            out.append(Case('interval_%s_%s' % (n, m), sym_interval, dict(a, mode=m)))
    return out
