"""Energy and regulation together respect the telemetered ramp rates."""
from .world import *
from .families import *

META = dict(
    bounds='up to 6 units, bidding one, both or no regulation service on either side; rates 0..6000 MW/h, initial output 0..1500 '
           '(bidirectional -1500..1500), interval 1..60 minutes for generators and loads; fast start run types',
    outside='larger markets',
)
ALL = ('energy', 'raise_reg', 'lower_reg', 'raise_6s')
RR, LR = ('energy', 'raise_reg'), ('energy', 'lower_reg')


def b(*fs):
    def f(w):
        w.bids(prices=False)
        for g in fs:
            g(w)
    return f


def jr(**k):
    return lambda w: joint_ramping(w, **k)


def sym_interval(E, **kw):
    return scenario(E, interval=E.real('interval', 1, 60), **kw)


g, l, d = G('g1', 'A', ALL), L('l1', 'A', ALL), B('b1', 'A', ALL)
FS = [G('g%d' % i, 'A', ALL) for i in range(5)] + [L('l1', 'A', ALL)]
first = {'g%d' % i: dict(current_mode=i) for i in range(5)}
second = {'g0': dict(end_mode=4, since=False), 'g1': dict(end_mode=1), 'g2': dict(end_mode=2),
          'g3': dict(end_mode=3, since=True), 'g4': dict(end_mode=4, since=True)}
SHAPES = {
    'gen_load': dict(regions=['A'], units=[g, l], build=b(jr()), variants=('', 'shuffled', 'reset', 'redispatch')),
    'bdu': dict(regions=['A'], units=[d], build=b(jr()), variants=('', 'shuffled', 'reset', 'redispatch')),
    'all': dict(regions=['A', 'B'], units=[g, L('l1', 'B', ALL), d, G('g2', 'A')], build=b(jr())),
    'one_service': dict(regions=['A'], units=[G('g1', 'A', RR), L('l1', 'A', LR), G('g2', 'A', LR)], build=b(jr())),
    'raise_only': dict(regions=['A'], units=[G('g1', 'A', RR), L('l1', 'A', RR)], build=b(jr())),
    'lower_only': dict(regions=['A'], units=[G('g1', 'A', LR), L('l1', 'A', LR)], build=b(jr())),
    'bdu_gen_side': dict(regions=['A'], units=[B('b1', 'A', {'generator': ALL, 'load': ('energy',)}), g], build=b(jr())),
    'bdu_load_side': dict(regions=['A'], units=[B('b1', 'A', {'generator': ('energy',), 'load': ALL}), l], build=b(jr())),
    'bdu_split': dict(regions=['A'], units=[B('b1', 'A', {'generator': RR, 'load': LR}), B('b2', 'A', ALL)], build=b(jr())),
    'bands': dict(regions=['A'], units=[G('g1', 'A', ALL, bands=2), B('b1', 'A', ALL, bands=2)], build=b(jr())),
    'some_units': dict(regions=['A'], units=[g, G('g11', 'A', ALL), d], build=b(jr(units=['g11', 'b1']))),
    'first_run': dict(regions=['A'], units=FS, build=b(jr(profiles=first, run_type='fast_start_first_run'))),
    'second_run': dict(regions=['A'], units=FS, build=b(jr(profiles=second, run_type='fast_start_second_run'))),
    'missing_up': dict(regions=['A'], units=[g, l, d, G('g2', 'A', ALL)], build=b(jr(missing=dict(g1=('up',), l1=('up',), b1=('up',))))),
    'missing_down': dict(regions=['A'], units=[g, l, d, G('g2', 'A', ALL)],
                         build=b(jr(missing=dict(g1=('down',), l1=('down',), b1=('down',))))),
    'with_ramp': dict(regions=['A'], units=[g, l, d], build=b(jr(), lambda w: ramp(w), demand), modes=('sound',),
                      only=('gen-', 'load-', 'bdu-raise', 'bdu-lower')),
}


def cases(tier):
    from vlib.runner import Case
    out = cases_from(SHAPES, tier)
    for n in ('gen_load', 'bdu', 'second_run'):
        for m in ('sound', 'complete'):
            a = {k: v for k, v in SHAPES[n].items() if k not in ('variants', 'modes')}
            out.append(Case('interval_%s_%s' % (n, m), sym_interval, dict(a, mode=m)))
    return out
