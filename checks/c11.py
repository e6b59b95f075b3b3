"""The market minimises the cost of the dispatched bids at the regional reference node."""
from .world import *
from .families import *

META = dict(
    bounds='up to 7 units, 10 bands, energy and FCAS services, prices -1000..15000, loss factors 0.5..1.5; volumes 1..2000 that differ '
           'between bids where a unit has several bands (they identify the bid)',
    outside='bids of equal volume in different bands of a unit; larger markets',
)
F = ('energy', 'raise_reg', 'lower_reg', 'raise_6s', 'lower_60s')


def bid_list(w):
    for u, t, s in w.rows():
        for b, (v, p) in enumerate(zip(w.vol[u.name, t, s], w.price[u.name, t, s])):
            price = p
            if s == 'energy':
                price = price / w.lf[u.name, t]
                if t == 'load':
                    price = -1 * price
            yield (u.name, t, s, b), v, price


def objective(E, regions, units, build, style='plain', history='fresh', distinct=True, lf=True, **kw):
    w = World(E, regions, units, style=style, lf=lf, **kw)
    if history != 'fresh':
        w.prefix = 'old_'
        build(w)
        if history == 'redispatch':
            w.run()
        w.clear()
        w.prefix = ''
    build(w)
    bids = list(bid_list(w))
    if distinct:
        for i, (_, v, _) in enumerate(bids[:-1]):
            E.assume(E.leq(v + 1, bids[i + 1][1]))
    w.run()
    if E.symbolic:
        E.contract(w.snap)
    want = 0.0
    if distinct:
        # every offered bid is one variable of the problem that was solved, bounded by its volume
        used = set()
        for key, v, price in bids:
            var = None
            for i, ub in enumerate(w.snap.ub):
                if i in used or not finite(E, ub):
                    continue
                if (ub is v or (isinstance(ub, E.sym.Sym) and ub.t.eq(E.sym.num(v)))) if E.symbolic else abs(ub - v) < 0.3:
                    var = i
                    break
            if var is None and E.symbolic:
                raise E.sym.Inconclusive('no variable bounded by the volume of bid %r' % (key,))
            if var is None:
                continue
            used.add(var)
            x = E.sym.Sym(w.snap.xs[var]) if E.symbolic else w.snap.values[var]
            want = want + price * x
    else:
        want = w.bid_cost()
    E.close('objective-is-bid-cost', w.m.objective_value, want, tol=1.0)
    return w


def finite(E, x):
    return E.sym._special(x) is None if E.symbolic else abs(x) != float('inf')


def merit(E, regions, units, build, **kw):
    """Bands of a unit are charged in merit order at the cheapest way of providing its dispatch."""
    w = World(E, regions, units, lf=True, **kw)
    build(w)
    for u, t, s in w.rows():
        p = w.price[u.name, t, s]
        for a, b in zip(p, p[1:]):
            E.assume(E.leq(a, b))
    w.run()
    if not E.symbolic:
        return
    S, z3, snap = E.sym, E.z3, w.snap
    E.contract(snap)
    import itertools
    names = {str(x): i for i, x in enumerate(snap.xs)}
    for u, t, s in w.rows():
        d = w.D(u.name, t, s)
        idx = [names[n] for n in consts(z3, S.num(d)) if n in names]
        bands = list(zip(w.vol[u.name, t, s], w.price[u.name, t, s]))
        sg = 1.0
        if s == 'energy':
            sg = 1 / w.lf[u.name, t]
            if t == 'load':
                sg = -1 * sg
                bands = bands[::-1]
        cum, low, fill = 0.0, 0.0, []
        for v, p in bands:
            m = E.Max(0.0, E.Min(v, d - cum))
            fill.append(m)
            low = low + m * p * sg
            cum = cum + v
        ch = 0.0
        for i in idx:
            ch = ch + snap.obj.coefs.get(i, 0.0) * S.Sym(snap.xs[i])
        E.ge('merit-order-cost-at-least', ch, low)
        opts = []
        for perm in itertools.permutations(fill, len(idx)):
            c = 0.0
            ok = []
            for i, m in zip(idx, perm):
                c = c + snap.obj.coefs.get(i, 0.0) * m
                ok.append(E.leq(m, snap.ub[i]))
            opts.append(E.And(E.leq(c, low + 1e-6), *ok))
        E.true('merit-order-cost-attained', E.Or(*opts))


def b(*fs, **bk):
    def f(w):
        w.bids(prices=True, **bk)
        for g in fs:
            g(w)
    return f


REQ = [('r1', 'raise_6s', ['A'], '>=')]
SHAPES = {
    'single': dict(units=[G('g1', 'A'), L('l1', 'A'), B('b1', 'A')], build=b(demand), distinct=False),
    'single_fcas': dict(units=[G('g1', 'A', F), L('l1', 'A', F), B('b1', 'A', F)], build=b(demand), distinct=False),
    'single_lf_one': dict(units=[G('g1', 'A', F), L('l1', 'A', F)], build=b(demand), distinct=False, lf=False),
    'single_mincols': dict(units=[G('g1', 'A'), G('g2', 'A')], build=b(demand), distinct=False, min_columns=True, lf=False),
    'bands3': dict(units=[G('g1', 'A', bands=3), L('l1', 'A', bands=2), B('b1', 'A', bands=2)], build=b(demand)),
    'bands_fcas': dict(units=[G('g1', 'A', F, bands=2), L('l1', 'A', F, bands=3)], build=b(
        demand, lambda w: fcas_requirements(w, REQ))),
    'bands10': dict(units=[G('g1', 'A', bands=10), L('l1', 'A', bands=10)], build=b(demand)),
    'two_regions': dict(regions=['A', 'B'], units=[G('g1', 'A', bands=2), G('g11', 'B', bands=2), G('g2', 'B')], build=b(
        lambda w: interconnectors(w, [Link('I1', 'A', 'B')]), demand)),
    'with_all': dict(regions=['A'], units=[G('g1', 'A', F, bands=2), G('g2', 'A', F)], build=b(
        demand, capacity, ramp, fcas_max, lambda w: fcas_requirements(w, REQ))),
}


def cases(tier):
    from vlib.runner import Case
    out = []
    for n, a in SHAPES.items():
        a = dict(dict(regions=['A']), **a)
        for vn, vk in VARIANTS:
            out.append(Case('_'.join(x for x in (n, vn) if x), objective, dict(a, **vk)))
    for n, u in (('gen2', [G('g1', 'A', bands=2)]), ('load2', [L('l1', 'A', bands=2)]), ('fcas2', [
            G('g1', 'A', ('energy', 'raise_6s'), bands=2)]), ('bdu2', [B('b1', 'A', bands=2)])):
        out.append(Case('merit_' + n, merit, dict(regions=['A'], units=u, build=b(demand))))
    return out
