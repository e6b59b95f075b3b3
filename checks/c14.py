"""The over-constrained dispatch re-run relaxes exactly the violated soft network and FCAS constraints."""
from .world import *
from .families import *
from .c01 import lossy

META = dict(
    bounds='up to 2 regions, 3 single band units, 2 requirement sets and 2 generic constraints (all senses), soft at costs 1..20000, '
           'market price limits arbitrary',
    outside='more than two bands per unit; several requirement sets for one service of which the sum of prices, but none alone, reaches the limit; violations between 0 and 0.0001',
    assumptions=['solving the same problem twice gives the same answer; the linear problem\'s answer and duals are optimal (KKT)'],
)
F = ('energy', 'raise_6s')
MARGIN = 0.01


def rerun(E, regions, units, build, style='plain', lin_same=True, multi=False, **kw):
    w = World(E, regions, units, style=style, **kw)
    E.keep_rows = True
    build(w)
    mpc, floor, fpc = w.real('energy_ceiling', 1, 20000), w.real('energy_floor', -2000, -1), w.real('fcas_ceiling', 1, 20000)

    def prices():
        ep = {}
        if w.demand_in:
            ep = {r.region: r.price for r in w.m.get_energy_prices().itertuples()}
        fp = {}
        if getattr(w, 'req', None):
            fp = {(r.region, r.service): r.price for r in w.m.get_fcas_prices().itertuples()}
        return ep, fp
    w.run()
    s1, d1 = w.snaps, dict(w.disp)
    f1 = dict(w.flow) if w.links else {}
    ep, fp = prices()
    w.run(allow_over_constrained_dispatch_re_run=True, energy_market_ceiling_price=mpc, energy_market_floor_price=floor,
          fcas_market_ceiling_price=fpc)
    s2 = w.snaps
    ep2, fp2 = prices()
    if E.symbolic:
        E.true('at-least-two-solves', len(s1) >= 2 and len(s2) >= 2)
        E.same_answer(s1[0], s2[0])
        E.same_answer(s1[1], s2[1], duals=True)
        E.contract(s2[0])
        E.kkt(s2[1])
        if lin_same:
            E.same_answer(s2[0], s2[1])
        else:
            E.contract(s2[1])
    soft = [c for c in w.cons if c.cost is not None and c.key in ('generic', 'fcas')]
    for key in {c.key for c in soft}:
        # the optimum violates no more than it must
        tot = 0.0
        for c in soft:
            if c.key == key:
                tot = tot + w.violation(c)
        E.hyp(E.eq(w.m.get_elastic_constraints_violation_degree(key), tot))
    bad = [E.lt(0.0001, w.violation(c)) for c in soft]
    none = E.And(*[E.near(w.violation(c), 0.0) for c in soft])
    energy = [E.leq(mpc, q) for q in ep.values()] + [E.leq(q, floor) for q in ep.values()]
    breach = certain = E.Or(*(energy + [E.leq(fpc, q) for q in fp.values()]))
    if multi:
        # several requirement sets of a service: a breach for sure is one by a set, none for sure is none by their sum
        names0 = [E.memo('set %d' % i, lambda: find_row(E, w, s2[0], c)) for i, c in enumerate(w.cons) if c.key == 'fcas']
        if None in names0:
            raise E.sym.Inconclusive('no row for a requirement set')
        certain = E.Or(*(energy + [E.leq(fpc, E.row(s1[1], n)[1]) for n in names0]))
    for k, v in w.disp.items():
        E.close('dispatch-unchanged', v, d1[k])
    for k, v in f1.items():
        E.close('flow-unchanged', w.flow[k], v)
    idle = E.Or(none, E.Not(breach))
    for k in ep:
        E.close('energy-price-kept', ep2[k], ep[k], when=idle, tol=1e-3)
    for k in fp:
        E.close('fcas-price-kept', fp2[k], fp[k], when=idle, tol=1e-3)
    last, base = s2[-1], s2[1]
    act = E.And(certain, E.Or(*bad)) if bad else False
    names = {}
    for i, c in enumerate(w.cons):
        if c.key not in ('demand', 'fcas', 'generic', 'unit_bid_capacity'):
            continue            # limits kept as bounds of variables: compared below
        name = E.memo('row %d' % i, lambda: find_row(E, w, s2[0], c))
        names[i] = name
        if name is None:
            raise E.sym.Inconclusive('no row for %s' % c.label)
        a, b = E.row(base, name), E.row(last, name)
        a0 = E.row(s1[1], name)[0]
        E.close('dispatch-limits-kept', a[0], a0) if E.symbolic else None
        if c.key == 'demand':
            reg = c.label.split(':')[1]
            E.close('price-of-last-solve', ep2[reg], b[1], tol=1e-3)
        E.true('constraint-kept', b is not None)
        moved = b[0] - a0
        if c not in soft:
            E.close('other-limits-kept', moved, 0.0)
            continue
        over = c.lhs(w) - c.rhs
        want = E.If(E.lt(0.0, over), over + MARGIN, over - MARGIN)
        v = E.lt(0.0001, w.violation(c))
        E.close('violated-limit-relaxed', moved, want, when=E.And(act, v), tol=1e-3)
        E.close('met-limit-kept', moved, 0.0, when=E.near(w.violation(c), 0.0))
        E.close('limits-kept-without-re-run', moved, 0.0, when=idle)
    # the next dispatch is that of a market that was never re-run
    s3 = E.dispatch(w.m, steer=False) if lin_same else s1
    for name in names.values():
        for k in (0, 1):
            a, z = E.row(s1[k], name), E.row(s3[k], name)
            E.true('later-dispatch-constraint-kept', (a is None) == (z is None))
            if a is not None and z is not None:
                E.close('later-dispatch-limits-kept', z[0], a[0])
    if E.symbolic:
        for k in (0, 1):
            E.same_answer(s1[k], s3[k], duals=k == 1)
            E.true('later-dispatch-same-problem', [(r[1], r[3], set(r[0])) for r in s1[k].rows] == [(r[1], r[3], set(r[0])) for r in s3[k].rows])
            for j in set(s1[k].obj.coefs) | set(s3[k].obj.coefs):
                E.close('later-dispatch-costs-kept', s1[k].obj.coefs.get(j, 0.0), s3[k].obj.coefs.get(j, 0.0))
    if E.symbolic and last is not base:
        # nothing but right hand sides changed
        ok = [r[3] for r in base.rows] == [r[3] for r in last.rows]
        E.true('same-constraints', ok)
        if ok:
            for r, t in zip(base.rows, last.rows):
                E.true('same-senses', r[1] == t[1] and set(r[0]) == set(t[0]))
                for j in r[0]:
                    E.close('same-coefficients', r[0][j], t[0].get(j, 0.0))
            for j in set(base.obj.coefs) | set(last.obj.coefs):
                E.close('same-costs', base.obj.coefs.get(j, 0.0), last.obj.coefs.get(j, 0.0))
            for x, y in list(zip(base.lb, last.lb)) + list(zip(base.ub, last.ub)):
                E.close('same-bounds', x, y)


def find_row(E, w, snap, c):
    """The row whose part over the public results is this constraint."""
    S, z3 = E.sym, E.z3
    used = w.used_vars()
    d = S.num(c.lhs(w))
    for coefs, sense, rhs, name in snap.rows:
        if sense != c.sense[0] or S._special(rhs) is not None:
            continue
        t = z3.Sum([S.mul(S.num(k), snap.xs[j]) for j, k in coefs.items() if str(snap.xs[j]) in used] + [z3.RealVal(0)])
        if S.const_of(z3.simplify(t - d, som=True)) is None or S.const_of(z3.simplify(S.num(rhs) - S.num(c.rhs), som=True)) is None:
            continue
        if abs(S.const_of(z3.simplify(t - d, som=True))) < 1e-9 and abs(S.const_of(z3.simplify(S.num(rhs) - S.num(c.rhs), som=True))) < 1e-9:
            return name
    return None


def b(*fs):
    def f(w):
        w.bids(prices=True)
        for g in fs:
            g(w)
        w.sets = []
    return f


def soft(fam, *a, n='cost', **k):
    return lambda w: fam(w, *a, violation_cost=w.real(n, 1, 20000), **k)


def U(*terms):
    return list(terms)


S1 = [('s1', 'raise_6s', ['A'], '>=')]
GLE = {'c1': ('<=', [('unit', 'g1', 'energy')])}
GGE = {'c1': ('>=', [('unit', 'g1', 'energy')])}
GEQ = {'c1': ('=', [('unit', 'g1', 'energy')])}
G2 = {'c1': ('<=', [('unit', 'g1', 'energy')]), 'c2': ('>=', [('unit', 'g2', 'energy')])}
A, AB = ['A'], ['A', 'B']
GG = [G('g1', 'A'), G('g2', 'A')]
FF = [G('g1', 'A', F), G('g2', 'A', F)]
SHAPES = {
    'generic_le': dict(regions=A, units=GG, build=b(demand, soft(generic, GLE))),
    'generic_ge': dict(regions=A, units=GG, build=b(demand, soft(generic, GGE))),
    'generic_eq': dict(regions=A, units=GG, build=b(demand, soft(generic, GEQ))),
    'generic_two': dict(regions=A, units=GG, build=b(demand, soft(generic, G2))),
    'generic_hard': dict(regions=A, units=GG, build=b(demand, lambda w: generic(w, GLE))),
    'fcas': dict(regions=A, units=FF, build=b(demand, soft(fcas_requirements, S1))),
    'fcas_no_demand': dict(regions=A, units=FF, build=b(soft(fcas_requirements, S1))),
    'fcas_hard': dict(regions=A, units=FF, build=b(demand, lambda w: fcas_requirements(w, S1))),
    'fcas_generic': dict(regions=A, units=FF, build=b(demand, soft(fcas_requirements, S1), soft(generic, GLE, n='cost2'))),
    'fcas_two': dict(regions=A, units=[G('g1', 'A', F + ('raise_60s',)), G('g2', 'A', F[:1])], build=b(demand, soft(
        fcas_requirements, S1 + [('s2', 'raise_60s', ['A'], '>=')]))),
    'soft_demand': dict(regions=A, units=GG, build=b(soft(demand, n='cost0'), soft(generic, GLE))),
    'soft_capacity': dict(regions=A, units=GG, build=b(demand, soft(generic, GLE), lambda w: capacity(w, ['g2'], violation_cost=500.0))),
    'two_regions': dict(regions=AB, units=[G('g1', 'A'), G('g2', 'B')],
                        build=b(lambda w: interconnectors(w, [Link('I1', 'A', 'B')]), demand,
                                soft(generic, {'c1': ('<=', [('inter', 'I1')]), 'c2': ('>=', [('unit', 'g2', 'energy')])}))),
    'fcas_multi': dict(regions=AB, units=[G('g1', 'A', F), G('g2', 'B', F[1:])], multi=True, build=b(
        lambda w: interconnectors(w, [Link('I1', 'A', 'B')]), demand,
        soft(fcas_requirements, [('s1', 'raise_6s', ['A', 'B'], '>='), ('s2', 'raise_6s', ['A'], '>=')]))),
    'fcas_multi_one': dict(regions=A, units=FF, multi=True, build=b(
        demand, soft(fcas_requirements, [('s1', 'raise_6s', ['A'], '>='), ('s2', 'raise_6s', ['A'], '>=')]))),
    'bands': dict(regions=A, units=[G('g1', 'A', bands=2), G('g2', 'A')], build=b(demand, soft(generic, GLE))),
    'losses': dict(regions=AB, units=[G('g1', 'A'), G('g2', 'B')], lin_same=False,
                   build=b(lossy([Link('I1', 'A', 'B')], {('I1', 'I1'): [-100, 0, 120]}), demand, soft(generic, GLE))),
}


def cases(tier):
    from vlib.runner import Case
    return [Case('_'.join(x for x in (n, vn) if x), rerun, dict(a, **vk)) for n, a in SHAPES.items() for vn, vk in VARIANTS[:2]]
