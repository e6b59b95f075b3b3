"""The regional summary and the FCAS availabilities agree with the dispatch."""
from .world import *
from .families import *
from .c01 import lossy

META = dict(
    bounds='up to 3 regions, 4 units of 2 bands, 2 interconnectors or a link pair, loss functions with up to 3 break points; '
           'availability: up to 3 units with up to 6 services',
    outside='FCAS availability of bidirectional units offering one service on both sides (reported without the side); regions with '
            'neither units nor interconnectors; trapezium slopes below 0.0001 but not zero; availability under violated soft constraints',
)


def summary(E, regions, units, build, style='plain', history='fresh', **kw):
    w = World(E, regions, units, style=style, **kw)
    if history != 'fresh':
        w.prefix = 'old_'
        build(w)
        w.run()
        w.clear()
        w.prefix = ''
    build(w)
    w.run()
    if E.symbolic:
        E.contract(w.snap)
    df = w.m.get_region_dispatch_summary()
    rows = {r['region']: r for r in df.to_dict('records')}
    E.true('summary-regions-unique', len(rows) == len(df))
    want = {u.region for u in units} | {k.to for k in w.links} | {k.frm for k in w.links}
    E.true('every-region-summarised', set(rows) == want, detail='%s instead of %s' % (sorted(rows), sorted(want)))
    for r, row in rows.items():
        disp = 0.0
        for u, t, s in w.rows():
            if u.region == r and s == 'energy':
                disp = disp + (w.D(u.name, t) if t == 'generator' else -1 * w.D(u.name, t))
        E.close('net-unit-dispatch', row['dispatch'], disp)
        inflow, scaled, il = 0.0, 0.0, 0.0
        for k in w.links:
            f = w.flow[k.inter, k.link]
            if k.to == r:
                inflow, scaled = inflow + f, scaled + f * k.to_lf
                if k.share is not None:
                    il = il + (1 - k.share) * w.loss[k.inter, k.link]
            if k.frm == r:
                inflow, scaled = inflow - f, scaled - f * k.from_lf
                if k.share is not None:
                    il = il + k.share * w.loss[k.inter, k.link]
        if w.links:
            E.close('net-inflow', row['inflow'], inflow)
            E.close('transmission-losses', row['transmission_losses'], inflow - scaled)
        losses = row['transmission_losses'] if w.links else 0.0
        if any(k.share is not None for k in w.links):
            E.close('interconnector-losses', row['interconnector_losses'], il)
            losses = losses + row['interconnector_losses']
        if r in w.demand_in:
            E.close('demand-served', w.demand_in[r], row['dispatch'] + (row['inflow'] if w.links else 0.0) - losses, tol=1e-3)


LIMITS = ('fcas_max', 'joint', 'energy_reg')


def availability(E, regions, units, build, style='plain', history='fresh', soft=None, **kw):
    w = World(E, regions, units, style=style, **kw)
    if history != 'fresh':
        w.prefix = 'old_'
        build(w)
        w.run()
        w.clear()
        w.prefix = ''
    build(w)
    w.run()
    if E.symbolic:
        E.contract(w.snap)
    for k in {c.key for c in w.cons if c.cost is not None}:
        E.hyp(E.eq(w.m.get_elastic_constraints_violation_degree(k), 0.0))
    df = w.m.get_fcas_availability()
    got = {(r.unit, r.service): r.availability for r in df.itertuples()}
    E.true('availability-rows-unique', len(got) == len(df))
    for u, t, s in w.rows():
        if s == 'energy':
            continue
        key = (u.name, t, s)
        if key not in w.disp:
            continue
        bound = []
        d0 = w.disp[key]
        base = [c.lhs(w) for c in w.cons]
        w.disp[key] = d0 + 1
        step = [c.lhs(w) for c in w.cons]
        w.disp[key] = d0
        for c, a, b in zip(w.cons, base, step):
            k = b - a
            if E.symbolic:
                k = E.sym.Sym(E.z3.simplify(E.sym.num(k), som=True))
            if not E.symbolic and abs(k) < 1e-9 or E.symbolic and E.sym.const_of(k.t) == 0:
                continue
            if c.key == 'fcas':
                continue
            E.hyp(E.Or(E.eq(k, 0), E.leq(0.0001, k), E.leq(k, -0.0001)))
            bound.append((c, k, a))
        if not bound:
            continue
        E.true('availability-reported', (u.name, s) in got)
        av = got.get((u.name, s))
        if av is None:
            continue
        if not E.symbolic and av == float('inf') or E.symbolic and E.sym._special(av) is not None:
            E.true('availability-bounded', E.And(*[E.Or(E.lt(k, 1e-5) if c.sense == '<=' else E.lt(-1e-5, k)) for c, k, a in bound]))
            continue
        tight = []
        for c, k, a in bound:
            sg = 1 if c.sense == '<=' else -1
            up = E.lt(1e-5, sg * k)          # more of the service brings this limit nearer
            new = a + k * (av - d0)
            E.true('availability-within-limits', E.leq(sg * new, sg * c.rhs + 0.001), when=up)
            tight.append(E.And(up, E.leq(sg * c.rhs - 0.001 - (0 if E.symbolic else 0.01), sg * new)))
        E.true('availability-not-understated', E.Or(*tight))


def b(*fs, prices=False):
    def f(w):
        w.bids(prices=prices)
        for g in fs:
            g(w)
    return f


AB, ABC = ['A', 'B'], ['A', 'B', 'C']
GG = [G('g1', 'A', bands=2), L('l1', 'A'), G('g2', 'B')]
PAIR = [Link('I1', 'A', 'B', link='p', lfs=True), Link('I1', 'B', 'A', link='n', lfs=True)]
SUM = {
    'no_links': dict(regions=AB, units=GG, build=b(demand)),
    'bdu': dict(regions=['A'], units=[G('g1', 'A'), B('b1', 'A'), L('l1', 'A')], build=b(demand)),
    'fcas_ignored': dict(regions=['A'], units=[G('g1', 'A', ('energy', 'raise_6s')), L('l1', 'A', ('energy', 'raise_6s'))], build=b(demand)),
    'link': dict(regions=AB, units=GG, build=b(lambda w: interconnectors(w, [Link('I1', 'A', 'B')]), demand)),
    'link_lf': dict(regions=AB, units=GG, build=b(lambda w: interconnectors(w, [Link('I1', 'A', 'B', lfs=True)]), demand)),
    'two_links_lf': dict(regions=ABC, units=GG + [G('g3', 'C')], build=b(lambda w: interconnectors(
        w, [Link('I1', 'B', 'A', lfs=True), Link('I2', 'B', 'C', lfs=True)]), demand)),
    'apart': dict(regions=ABC, units=GG + [G('g3', 'C')], build=b(lambda w: interconnectors(w, [Link('I1', 'A', 'B', lfs=True)]), demand)),
    'no_units': dict(regions=AB, units=[G('g1', 'A'), G('g2', 'A')], build=b(lambda w: interconnectors(w, [Link('I1', 'A', 'B', lfs=True)]), demand)),
    'losses': dict(regions=AB, units=GG, build=b(lossy([Link('I1', 'A', 'B', lfs=True)], {('I1', 'I1'): [-100, 0, 120]}), demand)),
    'losses_apart': dict(regions=ABC, units=GG + [G('g3', 'C')], build=b(lossy([Link('I1', 'B', 'A')], {('I1', 'I1'): [-100, 0, 120]}), demand)),
    'losses_pair': dict(regions=AB, units=GG, build=b(lossy(PAIR, {('I1', 'p'): [0, 50, 100], ('I1', 'n'): [0, 80]}, mnsp=True), demand)),
}
R = ('energy', 'raise_reg', 'lower_reg')
F = R + ('raise_6s', 'lower_60s')
T = ('generator',)
BSPLIT = {'generator': ('energy', 'raise_reg', 'raise_6s'), 'load': ('energy', 'lower_reg')}    # each service on one side only
AV = {
    'max_only': dict(units=[G('g1', 'A', F), L('l1', 'A', F)], build=b(fcas_max)),
    'joint_capacity': dict(units=[G('g1', 'A', F)], build=b(lambda w: joint_capacity(w, [('g1', 'generator', 'raise_6s'), ('g1', 'generator', 'lower_60s')]))),
    'joint_capacity_load': dict(units=[L('l1', 'A', F)], build=b(lambda w: joint_capacity(w, [('l1', 'load', 'raise_6s')]))),
    'regulation': dict(units=[G('g1', 'A', R), L('l1', 'A', R)], build=b(lambda w: energy_regulation(w, [('g1', 'generator', 'raise_reg'), ('l1', 'load', 'lower_reg')]))),
    'ramping': dict(units=[G('g1', 'A', R), L('l1', 'A', R)], build=b(joint_ramping)),
    'all': dict(units=[G('g1', 'A', F)], build=b(fcas_max, lambda w: joint_capacity(w, [('g1', 'generator', 'raise_6s')]),
                                                 lambda w: energy_regulation(w, [('g1', 'generator', 'raise_reg')]), joint_ramping)),
    'bdu_max': dict(units=[B('b1', 'A', BSPLIT), G('g1', 'A', R)], build=b(fcas_max)),
    'bdu_joint_capacity': dict(units=[B('b1', 'A', BSPLIT)], build=b(lambda w: joint_capacity(w, [('b1', 'generator', 'raise_6s')]))),
    'bdu_regulation': dict(units=[B('b1', 'A', BSPLIT)], build=b(lambda w: energy_regulation(w, [('b1', 'generator', 'raise_reg'), ('b1', 'load', 'lower_reg')]))),
    'bdu_ramping': dict(units=[B('b1', 'A', BSPLIT), G('g1', 'A', R)], build=b(joint_ramping)),
    'bdu_ramping_max': dict(units=[B('b1', 'A', BSPLIT)], build=b(fcas_max, joint_ramping)),
    'soft': dict(units=[G('g1', 'A', F)], build=b(lambda w: fcas_max(w, violation_cost=500.0), lambda w: joint_capacity(
        w, [('g1', 'generator', 'raise_6s')], violation_cost=400.0), prices=True)),
}


def cases(tier):
    from vlib.runner import Case
    out = []
    for n, a in SUM.items():
        for vn, vk in VARIANTS:
            if vn == 'reset' or (vn == 'redispatch' and n not in ('link_lf', 'losses')):
                continue
            out.append(Case('_'.join(x for x in ('sum', n, vn) if x), summary, dict(a, **vk)))
    for n, a in AV.items():
        for vn, vk in VARIANTS[:2]:
            if vn and n in ('regulation', 'all', 'bdu_regulation') and tier != 'thorough':
                continue
            out.append(Case('_'.join(x for x in ('avail', n, vn) if x), availability, dict(dict(regions=['A']), **a, **vk)))
    return out
