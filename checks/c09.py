"""Soft constraints never restrict dispatch and cost exactly their violation cost times the violation."""
import pandas as pd
from .world import *
from .families import *
from .c01 import lossy

META = dict(
    bounds='up to 6 single band units; every family of constraint soft at a cost of 1..500 (symbolic or two digit constants), '
           'scalar or per set; re-set soft, hard and soft again',
    outside='several bands per unit; with interconnector losses: that soft demand restricts nothing',
)
R = ('energy', 'raise_reg', 'lower_reg')
F = ('energy', 'raise_reg', 'lower_reg', 'raise_6s', 'lower_60s')


def b(*fs, **kw):
    def f(w):
        w.bids(prices=True)
        for g in fs:
            g(w)
    return f


def cost(w, n='cost'):
    return w.real(n, 1, 500)


def with_cost(fam, *a, sym=True, c=37.0, **k):
    def f(w):
        fam(w, *a, violation_cost=cost(w) if sym else c, **k)
    return f


def per_set(fam, sets, hard=(), **k):
    """A cost for each set, as a table; the sets without one stay hard."""
    names = sorted(({s[0] for s in sets} if isinstance(sets, list) else set(sets)) - set(hard))

    def f(w):
        cs = {n: w.real('cost_' + n, 1, 500) for n in names}
        fam(w, sets, violation_cost=w.df([dict(set=n, cost=cs[n]) for n in names]), **k)
        lookup = []
        if fam is fcas_requirements:
            order = []
            for n in [s[0] for s in sets]:
                if n not in order:
                    order.append(n)
            lookup = order
            key = 'fcas'
        else:
            lookup = [n for n, (sense, _) in sets.items() if sense is not None]
            key = 'generic'
        for c, n in zip([c for c in w.cons if c.key == key], lookup):
            c.cost = cs.get(n)
    return f


def elastic(fam, key, *a, c=None, **k):
    """Hard first, then made soft through make_constraints_elastic (twice: the second cost counts)."""
    def f(w):
        n0 = len(w.cons)
        fam(w, *a, **k)
        w.m.make_constraints_elastic(key, 7.0)
        cc = cost(w)
        w.m.make_constraints_elastic(key, cc)
        for x in w.cons[n0:]:
            if x.key == key:
                x.cost = cc
    return f


REQ = [('r1', 'raise_6s', ['A'], '>='), ('r2', 'lower_60s', ['A', 'B'], '='), ('r3', 'raise_reg', ['B'], '<=')]
GEN = {'g1': ('<=', [('unit', 'g1', 'energy'), ('unit', 'l1', 'energy')]),
       'g2': ('>=', [('unit', 'g2', 'energy'), ('unit', 'g1', 'raise_6s')]), 'g3': ('=', [('region', 'A', 'raise_6s')])}
MIX = [G('g1', 'A', F), G('g2', 'B', F), L('l1', 'A', F)]
CT = [('g1', 'generator', 'raise_6s'), ('l1', 'load', 'lower_60s')]
RG = [('g1', 'generator', 'raise_reg'), ('l1', 'load', 'lower_reg')]

SHAPES = {
    'demand': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B'), L('l1', 'A')], lf=True, build=b(with_cost(demand))),
    'demand_interconnector': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')], build=b(
        lambda w: interconnectors(w, [Link('I1', 'A', 'B')]), with_cost(demand))),
    'capacity': dict(regions=['A'], units=[G('g1', 'A'), L('l1', 'A'), B('b1', 'A')], build=b(with_cost(capacity), demand)),
    'uigf': dict(regions=['A'], units=[G('g1', 'A'), G('g2', 'A')], build=b(with_cost(uigf, ['g1', 'g2']))),
    'ramp': dict(regions=['A'], units=[G('g1', 'A'), L('l1', 'A'), B('b1', 'A')], build=b(with_cost(ramp)),
                 variants=('', 'shuffled', 'reset')),
    'ramp_bdu_only': dict(regions=['A'], units=[B('b1', 'A')], build=b(with_cost(ramp))),
    'fast_start': dict(regions=['A'], units=[G('g%d' % i, 'A') for i in range(5)],
                       build=b(with_cost(fast_start, {'g%d' % i: i for i in range(5)}))),
    'fcas_max': dict(regions=['A', 'B'], units=MIX, build=b(with_cost(fcas_max))),
    'joint_capacity': dict(regions=['A', 'B'], units=MIX + [B('b1', 'A', F)], build=b(with_cost(
        joint_capacity, CT + [('b1', 'generator', 'raise_6s')]))),
    'energy_reg': dict(regions=['A', 'B'], units=MIX, build=b(with_cost(energy_regulation, RG))),
    'joint_ramping': dict(regions=['A', 'B'], units=[G('g1', 'A', R), L('l1', 'A', R)], build=b(with_cost(joint_ramping))),
    'joint_ramping_bdu': dict(regions=['A', 'B'], units=[G('g1', 'A', ('energy', 'lower_reg')), B('b1', 'A', R)],
                              build=b(with_cost(joint_ramping))),
    'joint_ramping_some': dict(regions=['A'], units=[G('g1', 'A', ('energy', 'raise_reg')), B('b1', 'A', ('energy', 'lower_reg'))],
                               build=b(with_cost(joint_ramping))),
    'req_scalar': dict(regions=['A', 'B'], units=MIX, build=b(with_cost(fcas_requirements, REQ))),
    'req_table': dict(regions=['A', 'B'], units=MIX, build=b(per_set(fcas_requirements, REQ)), variants=('', 'shuffled', 'reset')),
    'generic_scalar': dict(regions=['A', 'B'], units=MIX, build=b(with_cost(generic, GEN))),
    'generic_table': dict(regions=['A', 'B'], units=MIX, build=b(per_set(generic, GEN)), variants=('', 'shuffled', 'reset')),
    'generic_interconnector': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')], build=b(
        lambda w: interconnectors(w, [Link('I1', 'A', 'B')]),
        with_cost(generic, {'a': ('<=', [('inter', 'I1'), ('unit', 'g1', 'energy')])}), demand)),
    'req_some_hard': dict(regions=['A', 'B'], units=MIX, build=b(per_set(fcas_requirements, REQ, hard=['r1']))),
    'generic_some_hard': dict(regions=['A', 'B'], units=MIX, build=b(per_set(generic, GEN, hard=['g2', 'g3']))),
    'losses': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')], build=b(
        lossy([Link('I1', 'A', 'B')], {('I1', 'I1'): [-100, 0, 120]}), with_cost(demand))),
    'elastic_demand': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'B')], build=b(elastic(demand, 'demand'))),
    'elastic_ramp_up': dict(regions=['A'], units=[G('g1', 'A'), G('g2', 'A')], build=b(elastic(ramp, 'ramp_up'))),
    'elastic_fcas': dict(regions=['A', 'B'], units=MIX, build=b(elastic(fcas_requirements, 'fcas', REQ))),
    'all_soft': dict(regions=['A', 'B'], units=MIX, build=b(
        with_cost(demand, sym=False, c=11.0), with_cost(capacity, sym=False, c=13.0), with_cost(ramp, sym=False, c=17.0),
        with_cost(fcas_max, sym=False, c=19.0), with_cost(fcas_requirements, REQ, sym=False, c=23.0),
        with_cost(generic, GEN, sym=False, c=29.0)), variants=('', 'reset')),
}


def hard_then(fam, key, *a, **k):
    """Soft first, then re-set as hard."""
    def f(w):
        n = len(w.cons)
        fam(w, *a, violation_cost=cost(w, 'oldcost'), **k)
        del w.cons[n:]
        fam(w, *a, **k)
    return f


for nm, fm, a in (('demand', demand, ()), ('ramp', ramp, ()), ('capacity', capacity, ()), ('fcas', fcas_requirements, (REQ,)),
                  ('generic', generic, (GEN,)), ('fast_start', fast_start, ({'g1': 3, 'g2': 2},)), ('fcas_max', fcas_max, ()),
                  ('energy_reg', energy_regulation, (RG,)), ('joint_capacity', joint_capacity, (CT,)),
                  ('joint_ramping', joint_ramping, ())):
    SHAPES['hardened_' + nm] = dict(regions=['A', 'B'], units=MIX, build=b(hard_then(fm, nm, *a)), variants=('',))


def cases(tier):
    out = []
    for n, a in SHAPES.items():
        a = dict(a)
        v = a.pop('variants', ('', 'shuffled') if tier != 'thorough' else None)
        out += expand(n, a, modes=('soft',) if n == 'losses' else ('soft', 'soft_exact'), variants=v)
    return out
