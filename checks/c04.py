"""Bidirectional units ramp through zero on the rates of the side they are on."""
from .world import *
from .families import *

META = dict(
    bounds='1..2 bidirectional units among generators and loads; initial net output -1500..1500, rates 0..6000 MW/h on either '
           'side and direction (zero included), telemetered rates present or absent, interval 1..60 minutes',
    outside='negative rates; larger markets',
)


def b(*fs):
    def f(w):
        w.bids(prices=False)
        for g in fs:
            g(w)
    return f


SOLO = [B('b1', 'A')]
PAIR = [B('b1', 'A'), B('b2', 'A')]
MIX = [G('g1', 'A'), B('b1', 'A', bands=2), L('l1', 'A')]
ON = ('bdu-ramp',)
SHAPES = {
    'solo': dict(regions=['A'], units=SOLO, build=b(lambda w: ramp(w)), variants=('', 'shuffled', 'reset', 'redispatch')),
    'solo_30min': dict(regions=['A'], units=SOLO, build=b(lambda w: ramp(w)), interval=30),
    'mix': dict(regions=['A'], units=MIX, build=b(lambda w: ramp(w))),
    'mix_scada': dict(regions=['A'], units=MIX, build=b(lambda w: ramp(w, scada={'b1': (True, True), 'g1': (True, True)}))),
    'mix_scada_part': dict(regions=['A'], units=MIX, build=b(lambda w: ramp(w, scada={'b1': (True, False), 'g1': (False, True)}))),
    'mix_scada_part_2': dict(regions=['A'], units=MIX, build=b(lambda w: ramp(w, scada={'b1': (False, True), 'l1': (True, False)}))),
    'scada_up': dict(regions=['A'], units=SOLO, build=b(lambda w: ramp(w, scada={'b1': (True, False)}))),
    'scada_down': dict(regions=['A'], units=SOLO, build=b(lambda w: ramp(w, scada={'b1': (False, True)}))),
    'capacity': dict(regions=['A'], units=SOLO, build=b(lambda w: ramp(w), capacity)),
    'pair': dict(regions=['A'], units=PAIR, build=b(lambda w: ramp(w)), modes=('sound',), variants=('',)),
    'pair_complete': dict(regions=['A'], units=PAIR, build=b(lambda w: ramp(w)), modes=('complete',), variants=('',),
                          thorough=True),
}


def sym_interval(E, **kw):
    return scenario(E, interval=E.real('interval', 1, 60), **kw)


def cases(tier):
    from vlib.runner import Case
    return cases_from(SHAPES, tier) + [Case('interval_%s_%s' % (n, m), sym_interval, dict(regions=['A'], units=SOLO, build=f, mode=m))
                                       for n, f in (('offered', b(lambda w: ramp(w))),
                                                    ('scada', b(lambda w: ramp(w, scada={'b1': (True, True)})))) for m in ('sound', 'complete')]
