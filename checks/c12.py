"""Tied energy bids share dispatch in proportion to volume, at the tie break cost."""
from .world import *
from .families import *

META = dict(
    bounds='2..4 single band units (generators and loads, one or two regions), any equalities between prices at the reference node, '
           'volumes 1..2000, tie break cost 1e-6..100',
    outside='several bands per unit (decided for two bands by bound identification); prices of different units that tie within '
            'floating point noise only',
)


def ties(w):
    E = w.E
    cost = w.real('tbcost', 0.001, 100)
    w.m.set_tie_break_constraints(cost)
    us = [(u, t) for u, t, s in w.rows() if s == 'energy']
    for i, (u, t) in enumerate(us):
        for v, t2 in us[i + 1:]:
            if u.name == v.name or u.region != v.region or t != t2:
                continue
            pu = w.price[u.name, t, 'energy'][0] / w.lf[u.name, t]
            pv = w.price[v.name, t2, 'energy'][0] / w.lf[v.name, t2]
            tie = E.decide(E.eq(pu, pv))
            if tie:
                vu, vv = w.vol[u.name, t, 'energy'][0], w.vol[v.name, t2, 'energy'][0]
                w.cons.append(Con('tie', lambda ww, u=u, v=v, t=t, vu=vu, vv=vv: ww.D(u.name, t) / vu - ww.D(v.name, t) / vv,
                                  '=', 0.0, key='tie_break', cost=cost))


def b(*fs, same=(), prices=True):
    def f(w):
        w.bids(prices=True)
        for g in fs:
            g(w)
        ties(w)
    return f


def b_equal(groups, *fs):
    """Units of a group offer at the same (arbitrary) price."""
    def f(w):
        orig = w.real

        def real(name, lo=None, hi=None):
            if name.startswith(w.prefix + 'p_') or name.startswith('p_'):
                u = name.split('_')[1]
                for i, g in enumerate(groups):
                    if u in g:
                        return orig('gp%d' % i, lo, hi)
            return orig(name, lo, hi)
        w.real = real
        try:
            w.bids(prices=True)
        finally:
            del w.real
        for g in fs:
            g(w)
        ties(w)
    return f


R = ('energy', 'raise_reg')
SHAPES = {
    'pair': dict(regions=['A'], units=[G('g1', 'A'), G('g2', 'A')], build=b(demand)),
    'pair_lf': dict(regions=['A'], units=[G('g1', 'A'), G('g2', 'A')], build=b(demand), lf=True),
    'three': dict(regions=['A'], units=[G('g1', 'A'), G('g2', 'A'), G('g3', 'A')], build=b(demand)),
    'three_equal': dict(regions=['A'], units=[G('g1', 'A'), G('g2', 'A'), G('g3', 'A')], build=b_equal([('g1', 'g2', 'g3')], demand)),
    'regions': dict(regions=['A', 'B'], units=[G('g1', 'A'), G('g2', 'A'), G('g3', 'B')], build=b_equal([('g1', 'g2', 'g3')], demand)),
    'loads': dict(regions=['A'], units=[G('g1', 'A'), L('l1', 'A'), L('l2', 'A')], build=b(demand)),
    'bdu': dict(regions=['A'], units=[G('g1', 'A'), B('b1', 'A')], build=b(demand)),
    'two_bdu': dict(regions=['A'], units=[G('g1', 'A'), B('b1', 'A'), B('b2', 'A')], build=b_equal([('b1', 'b2')], demand)),
    'fcas': dict(regions=['A'], units=[G('g1', 'A', R), G('g2', 'A', R)], build=b_equal([('g1', 'g2')], demand)),
    'names': dict(regions=['A'], units=[G('u1', 'A'), G('u11', 'A'), G('u', 'A')], build=b_equal([('u1', 'u11', 'u')], demand)),
    'one_unit': dict(regions=['A'], units=[G('g1', 'A')], build=b(demand)),
}


def bands(E, style='plain'):
    """Two bands each; bids identified by the volume bounding them."""
    units = [G('g1', 'A', bands=2), G('g2', 'A', bands=2)]
    w = World(E, ['A'], units, style=style)
    w.bids(prices=True)
    demand(w)
    cost = E.real('tbcost', 0.001, 100)
    vols = [(u.name, i, w.vol[u.name, 'generator', 'energy'][i], w.price[u.name, 'generator', 'energy'][i])
            for u in units for i in range(2)]
    for a, c in zip(vols, vols[1:]):
        E.assume(E.leq(a[2] + 1, c[2]))
    # within a unit bands differ in price
    E.assume(E.leq(vols[0][3] + 1, vols[1][3]))
    E.assume(E.leq(vols[2][3] + 1, vols[3][3]))
    w.m.set_tie_break_constraints(cost)
    w.run()
    if E.symbolic:
        E.contract(w.snap)
    x, spec = {}, 0.0
    for n, i, v, p in vols:
        for j, ub in enumerate(w.snap.ub):
            if E.symbolic:
                hit = isinstance(ub, E.sym.Sym) and ub.t.eq(E.sym.num(v))
            else:
                hit = abs(ub - v) < 0.3
            if hit:
                x[n, i] = E.sym.Sym(w.snap.xs[j]) if E.symbolic else w.snap.values[j]
        if (n, i) not in x:
            if E.symbolic:
                raise E.sym.Inconclusive('bid not identified')
            return
        spec = spec + p * x[n, i]
    for n1, i1, v1, p1 in vols[:2]:
        for n2, i2, v2, p2 in vols[2:]:
            if E.decide(E.eq(p1, p2)):
                d = x[n1, i1] / v1 - x[n2, i2] / v2
                spec = spec + cost * E.Max(d, -1 * d)
    E.ge('tie-break-cost-at-least', w.m.objective_value, spec, tol=0.5)


def cases(tier):
    from vlib.runner import Case
    out = []
    for n, a in SHAPES.items():
        v = ('', 'shuffled', 'reset') if n in ('pair', 'three_equal') else ('', 'shuffled')
        out += expand(n, dict(a), modes=('soft',) if n == 'two_bdu' and tier == 'quick' else ('soft', 'soft_exact'), variants=v)
    out += [Case('bands', bands, {}), Case('bands_shuffled', bands, dict(style='shuffled'))]
    return out
