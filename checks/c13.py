"""Prices are marginal values of a problem that agrees with the dispatched one."""
from .world import *
from .families import *
from .c01 import lossy

META = dict(
    bounds='up to 3 regions, 5 units of one or two bands, 3 requirement sets; prices -1000..15000, loss factors 0.5..1.5; up to 5 break points '
           '(numbers, also unevenly spaced, or 4 symbolic ones)',
    outside='more bands per unit (the mapping of bands to costs is decided by C11)',
    assumptions=['the duals returned for the linear pricing problem are optimal duals of the problem handed to the solver (KKT '
                 'conditions), and where pricing and dispatch problem are the same one, of the dispatch returned'],
)
F = ('energy', 'raise_6s', 'raise_60s')
EPS = 0.001


def priced(E, regions, units, build, style='plain', history='fresh', same=True, interior=(), **kw):
    """Reported prices support the dispatch: cheaper offers are fully used, dearer ones not at all, an interconnector
    is at the limit in the direction of the higher price."""
    w = World(E, regions, units, style=style, **kw)
    if history != 'fresh':
        w.prefix = 'old_'
        build(w)
        if history == 'redispatch':
            w.run()
        w.clear()
        w.prefix = ''
    build(w)
    w.run()
    mip, lin = w.snap, E.second_snapshot
    if E.symbolic:
        E.contract(mip)
        if same:
            # both solves answer the same linear problem: take the same primal answer
            for nm, y in zip(lin.names, lin.xs):
                E.hyp(E.sym.SymB(y == mip.xs[mip.names.index(nm)]))
        else:
            E.contract(lin)
        E.kkt(lin)
    val = (lambda t: E.at(t, mip, lin)) if not same else (lambda t: t)
    if not same and not E.symbolic:
        val = None
    keep(E, w, same)
    if val is None:
        return w
    ep = w.m.get_energy_prices()
    price = {r.region: r.price for r in ep.itertuples()}
    E.true('one-price-per-region', sorted(price) == sorted(w.demand_in) and len(price) == len(ep))
    fp = {}
    if getattr(w, 'req', None):
        fd = w.m.get_fcas_prices()
        fp = {(r.region, r.service): r.price for r in fd.itertuples()}
        E.true('one-price-per-service', len(fp) == len(fd))
        want = {(r, s) for n, s, rs, _ in w.sets for r in rs}
        E.true('fcas-price-for-each-service', set(fp) == want)
    for n in interior:
        u = [x for x in units if x.name == n][0]
        for s in u.services[u.types[0]]:
            d, v = w.D(n, u.types[0], s), w.vol[n, u.types[0], s][0]
            E.hyp(E.And(E.leq(1, d), E.leq(d, v - 1)))
    for u, t, s in w.rows():
        d, q = val(w.D(u.name, t, s)), None
        if s == 'energy':
            q = price[u.region]
        elif (u.region, s) in fp:
            q = fp[u.region, s]
        else:
            continue
        must, may = 0.0, 0.0
        for v, p in zip(w.vol[u.name, t, s], w.price[u.name, t, s]):
            if s == 'energy':
                p = p / w.lf[u.name, t]
            cheap, dear = E.lt(p + EPS, q), E.lt(q + EPS, p)
            if s == 'energy' and t == 'load':
                cheap, dear = dear, cheap
            must = must + E.If(cheap, v, 0.0)
            may = may + E.If(dear, 0.0, v)
        n = 'energy' if s == 'energy' else 'fcas'
        E.true('%s-cheaper-offer-used' % n, E.leq(must - 0.001, d))
        E.true('%s-dearer-offer-unused' % n, E.leq(d, may + 0.001))
    for k in w.links:
        if k.share is not None:
            continue
        f = val(w.flow[k.inter, k.link])
        gain = price[k.to] * k.to_lf - price[k.frm] * k.from_lf
        E.true('flow-towards-higher-price', E.leq(k.mx - 0.001, f), when=E.lt(EPS, gain))
        E.true('flow-away-from-lower-price', E.leq(f, k.mn + 0.001), when=E.lt(gain, -EPS))
    for c in w.cons:
        if c.cost is None or c.key not in ('demand', 'fcas'):
            continue
        vi = w.violation(c)
        if c.key == 'demand':
            q = price[c.label.split(':')[1]]
            E.le('price-at-most-violation-cost', E.Max(q, -1 * q), c.cost + EPS)
            E.true('violated-demand-prices-at-cost', E.leq(c.cost - EPS, E.Max(q, -1 * q)), when=E.lt(0.01, vi))
    return w


def keep(E, w, same):
    mip, lin = w.snap, E.second_snapshot
    E.keeps_point('dispatch-stays-feasible', mip, lin)
    E.keeps_choice('pricing-uses-one-link', mip, lin)
    if E.symbolic:
        # same rows and costs: an answer to the pricing problem meets the dispatch problem (but for the ordered sets)
        S, z3 = E.sym, E.z3
        n0 = len(E.hyps)
        if not same:
            pos = {nm: i for i, nm in enumerate(lin.names)}
            src = {nm: x for nm, x in zip(lin.names, lin.xs)}
            xs = [src.get(nm, x) for nm, x in zip(mip.names, mip.xs)]
            for coefs, sense, rhs, name in mip.rows:
                t = z3.Sum([S.mul(S.num(k), xs[j]) for j, k in coefs.items()] + [z3.RealVal(0)])
                E.rel('pricing-keeps-limits', S.Sym(t), sense, rhs)
            for i, x in enumerate(xs):
                for b, f in ((mip.lb[i], E.ge), (mip.ub[i], E.le)):
                    if S._special(b) is None:
                        f('pricing-keeps-limits', S.Sym(x), b)
            a = z3.Sum([S.mul(S.num(k), xs[j]) for j, k in mip.obj.coefs.items()] + [z3.RealVal(0)])
            b = z3.Sum([S.mul(S.num(k), lin.xs[j]) for j, k in lin.obj.coefs.items()] + [z3.RealVal(0)])
            E.close('pricing-keeps-costs', S.Sym(a), S.Sym(b))


def loss(E, regions, units, build, **kw):
    """With losses: the dispatch found stays feasible in the pricing problem, which otherwise is the dispatch problem."""
    w = World(E, regions, units, **kw)
    build(w)
    w.run()
    if E.symbolic:
        E.contract(w.snap)
        E.contract(E.second_snapshot)
    keep(E, w, False)


def b(*fs):
    def f(w):
        w.bids(prices=True)
        for g in fs:
            g(w)
    return f


def req(sets, **k):
    def f(w):
        w.sets = sets
        fcas_requirements(w, sets, **k)
    return f


S1 = [('s1', 'raise_6s', ['A'], '>=')]
S2 = [('s1', 'raise_6s', ['A', 'B'], '>='), ('s2', 'raise_6s', ['A'], '>='), ('s3', 'raise_60s', ['B'], '=')]
S3 = [('s1', 'raise_6s', ['A'], '>='), ('s1', 'raise_60s', ['A'], '>='), ('s2', 'raise_60s', ['A', 'B'], '>=')]
AB = ['A', 'B']
GG = [G('g1', 'A'), G('g2', 'B'), G('g3', 'A')]
PRICED = {
    'one_region': dict(regions=['A'], units=[G('g1', 'A'), G('g2', 'A'), L('l1', 'A')], build=b(demand), lf=True),
    'two_regions': dict(regions=AB, units=[G('g1', 'A'), G('g2', 'B')], build=b(demand), lf=True),
    'two_regions_interior': dict(regions=AB, units=[G('g1', 'A'), G('g2', 'B')], build=b(demand), interior=('g1', 'g2')),
    'three_regions': dict(regions=['B', 'C', 'A'], units=[G('g1', 'A'), G('g2', 'B'), G('g3', 'C')], build=b(demand),
                          interior=('g1', 'g2', 'g3')),
    'bands': dict(regions=['A'], units=[G('g1', 'A', bands=2), L('l1', 'A', bands=2)], build=b(demand)),
    'bands_fcas': dict(regions=['A'], units=[G('g1', 'A', F[:2], bands=2), G('g2', 'A', F[:2])], build=b(demand, req(S1))),
    'linked': dict(regions=AB, units=GG[:2], build=b(lambda w: interconnectors(w, [Link('I1', 'A', 'B')]), demand)),
    'linked_lf': dict(regions=AB, units=GG[:2], build=b(lambda w: interconnectors(w, [Link('I1', 'B', 'A', lfs=True)]), demand)),
    'bdu': dict(regions=['A'], units=[G('g1', 'A'), B('b1', 'A')], build=b(demand)),
    'soft_demand': dict(regions=AB, units=[G('g1', 'A'), G('g2', 'B')], build=b(lambda w: demand(w, violation_cost=w.real('cost', 1, 20000)))),
    'fcas_one': dict(regions=['A'], units=[G('g1', 'A', F), G('g2', 'A', F)], build=b(demand, req(S1))),
    'fcas_sets': dict(regions=AB, units=[G('g1', 'A', F), G('g2', 'B', F)], build=b(demand, req(S2))),
    'fcas_sets_interior': dict(regions=AB, units=[G('g1', 'A', F), G('g2', 'B', F)], build=b(demand, req(S2)), interior=('g1', 'g2')),
    'fcas_multi': dict(regions=AB, units=[G('g1', 'A', F), G('g2', 'B', F)], build=b(demand, req(S3))),
}
I = ('I1', 'I1')
LOSSES = {
    'two': [-100, 120], 'three': [-100, 0, 120], 'five': [-100, -50, 0, 50, 100], 'uneven4': [-100, -90, -80, 200],
    'uneven5': [-300, 0, 5, 10, 400], 'symbolic4': 4,
}


def cases(tier):
    from vlib.runner import Case
    out = []
    for n, a in PRICED.items():
        for vn, vk in VARIANTS:
            if vn in ('reset', 'redispatch') and n not in ('two_regions_interior', 'fcas_sets_interior') and tier != 'thorough':
                continue
            out.append(Case('_'.join(x for x in (n, vn) if x), priced, dict(a, **vk)))
    for n, p in LOSSES.items():
        out.append(Case('loss_' + n, loss, dict(regions=AB, units=GG[:2], build=b(lossy([Link('I1', 'A', 'B')], {I: p}), demand))))
    out.append(Case('loss_two_interconnectors', loss, dict(regions=AB, units=GG[:2], build=b(lossy(
        [Link('I1', 'A', 'B'), Link('I2', 'B', 'A')], {I: [-100, -90, 0, 50], ('I2', 'I2'): [-10, 0, 60, 61]}), demand))))
    out.append(Case('loss_pair', loss, dict(regions=AB, units=GG[:2], build=b(lossy(
        [Link('I1', 'A', 'B', link='p', lfs=True), Link('I1', 'B', 'A', link='n', lfs=True)],
        {('I1', 'p'): [0, 50, 100], ('I1', 'n'): [0, 30, 80, 90]}, mnsp=True), demand))))
    pair = [Link('I1', 'A', 'B', link='p', lfs=True), Link('I1', 'B', 'A', link='n', lfs=True)]
    out.append(Case('pair_without_losses', loss, dict(regions=AB, units=GG[:2], build=b(lambda w: interconnectors(w, pair), demand))))
    out.append(Case('pair_and_interconnector', loss, dict(regions=AB, units=GG[:2], build=b(
        lambda w: interconnectors(w, pair + [Link('I2', 'A', 'B')]), demand))))
    return out
