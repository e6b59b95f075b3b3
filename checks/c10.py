"""Interconnector flows stay in limits, losses interpolate the loss function, one direction of a link pair is used."""
from .world import *
from .families import *
from .c01 import lossy

META = dict(
    bounds='up to 3 interconnectors and a pair of links, 2..4 break points (numbers or symbols in increasing order), loss at each '
           'break point -50..200 or quadratic with coefficients 0..0.001 and -0.1..0.1, flow limits -1000..1000, loss shares 0..1',
    outside='more break points; break points that do not cover the flow limits restrict the flow; the loss is also bounded by the '
            'largest flow limit',
)


def interp(w):
    for k in w.links:
        if k.fn is not None:
            w.facts.append(('loss-interpolates', lambda ww, k=k: interpolated(ww, k)))


def b(*fs, bal=True):
    def f(w):
        w.bids(prices=False)
        for g in fs:
            g(w)
        if bal:
            demand(w)
        interp(w)
    return f


def inside(E, regions, units, build, pts, style='plain', **kw):
    """Every flow on a break point segment with the interpolated loss is allowed."""
    w = World(E, regions, units, style=style, **kw)
    build(w)
    k = w.links[0]
    w.facts = []
    E_ = E

    def aux(i, x):
        pass
    w.run()
    if E.symbolic:
        S = E.sym
        f, ls = w.flow[k.inter, k.link], w.loss[k.inter, k.link]
        for c in w.cons:
            a, r = S.num(c.lhs(w)), S.num(c.rhs)
            E.hyp(S.SymB(a <= r if c.sense == '<=' else a >= r if c.sense == '>=' else a == r))
        assert len(w.snap.sos) == 1
        idx, wt, _ = w.snap.sos[0]
        order = [i for i, _ in sorted(zip(idx, wt), key=lambda p: float(p[1]))]
        bp = k.bps
        seg = E.p.fresh('seg')
        E.assume(S.SymB(E.z3.Or(*[seg == i for i in range(len(bp) - 1)])))
        for i, (a, c) in enumerate(zip(bp, bp[1:])):
            on = S.SymB(seg == i)
            E.hyp(E.Or(E.Not(on), E.And(E.leq(a, f), E.leq(f, c), E.eq((ls - k.fn(a)) * (c - a),
                                                                       (k.fn(c) - k.fn(a)) * (f - a)))))
        for j, v in enumerate(order):
            val = 0.0
            for i, (a, c) in enumerate(zip(bp, bp[1:])):
                t = E.If(S.SymB(seg == i), (c - f) / (c - a) if j == i else (f - a) / (c - a) if j == i + 1 else 0.0, 0.0)
                val = val + t
            E.hyp(E.eq(S.Sym(w.snap.xs[v]), val))
        big = E.Max(k.mx, -1 * k.mn)
        E.hyp(E.And(E.leq(ls, big), E.leq(-1 * big, ls)))
        own = {str(w.snap.xs[v]) for v in order} | consts(E.z3, f.t) | consts(E.z3, ls.t)
        for t in w.snap.bound_terms:
            if not (consts(E.z3, t) & own):
                E.hyp(S.SymB(t))
        E.accepts('allowed', w.snap)


I = ('I1', 'I1')
TWO = [G('g1', 'A'), G('g2', 'B')]
ONLY = ('flow', 'loss', 'one-direction')
SHAPES = {
    'limits': dict(regions=['A', 'B', 'C'], units=[G('g1', 'A'), G('g2', 'B'), G('g3', 'C')],
                   build=b(lambda w: interconnectors(w, [Link('I1', 'A', 'B'), Link('I11', 'B', 'C'), Link('I2', 'C', 'A')])),
                   only=ONLY, modes=('sound',), variants=('', 'shuffled', 'reset', 'redispatch')),
    'pair': dict(regions=['A', 'B'], units=TWO, build=b(lambda w: interconnectors(w, [
        Link('I1', 'A', 'B', link='p', lfs=True), Link('I1', 'B', 'A', link='n', lfs=True)])), only=ONLY, modes=('sound',),
        variants=('', 'shuffled', 'reset', 'redispatch')),
    'two_pairs': dict(regions=['A', 'B'], units=TWO, build=b(lambda w: interconnectors(w, [
        Link('I1', 'A', 'B', link='p'), Link('I2', 'B', 'A', link='p'), Link('I1', 'B', 'A', link='n'),
        Link('I2', 'A', 'B', link='n'), Link('I3', 'A', 'B')])), only=ONLY, modes=('sound',)),
    'loss_table2': dict(regions=['A', 'B'], units=TWO, build=b(lossy([Link('I1', 'A', 'B')], {I: [-100, 120]})), only=ONLY,
                        modes=('sound',)),
    'loss_table3': dict(regions=['A', 'B'], units=TWO, build=b(lossy([Link('I1', 'A', 'B')], {I: [-100, 0, 120]})), only=ONLY,
                        modes=('sound',), variants=('', 'shuffled', 'reset')),
    'loss_table4': dict(regions=['A', 'B'], units=TWO, build=b(lossy([Link('I1', 'A', 'B')], {I: [-100, -10, 5, 120]})),
                        only=ONLY, modes=('sound',), variants=('', 'shuffled')),
    'loss_quadratic': dict(regions=['A', 'B'], units=TWO, build=b(lossy([Link('I1', 'B', 'A')], {I: [-100, 0, 120]},
                                                                         'quadratic')), only=ONLY, modes=('sound',)),
    'loss_two': dict(regions=['A', 'B', 'C'], units=[G('g1', 'A'), G('g2', 'B'), G('g3', 'C')],
                     build=b(lossy([Link('I1', 'A', 'B'), Link('I2', 'B', 'C')], {I: [-100, 120], ('I2', 'I2'): [0, 7, 50]})),
                     only=ONLY, modes=('sound',)),
    'loss_pair': dict(regions=['A', 'B'], units=TWO,
                      build=b(lossy([Link('I1', 'A', 'B', link='p', lfs=True), Link('I1', 'B', 'A', link='n', lfs=True)],
                                    {('I1', 'p'): [0, 100], ('I1', 'n'): [0, 80]}, mnsp=True)), only=ONLY, modes=('sound',)),
    'loss_redispatch': dict(regions=['A', 'B'], units=TWO, build=b(lossy([Link('I1', 'A', 'B')], {I: [-100, 0, 120]})),
                            only=ONLY, modes=('sound',), variants=('redispatch',), thorough=True),
}


def cases(tier):
    from vlib.runner import Case
    out = cases_from(SHAPES, tier)
    for n, pts in (('table2', [-100, 120]), ('table3', [-100, 0, 120]), ('table3b', [0, 50, 120])):
        for st in ('plain', 'shuffled'):
            out.append(Case('inside_%s_%s' % (n, st), inside, dict(regions=['A', 'B'], units=TWO, pts=pts, style=st, build=b(
                lossy([Link('I1', 'A', 'B')], {I: pts})))))
    # symbolic break points
    out.append(Case('loss_symbolic2', scenario, dict(regions=['A', 'B'], units=TWO, only=ONLY, build=b(
        lossy([Link('I1', 'A', 'B')], {I: 2})))))
    if tier == 'thorough':
      out.append(Case('loss_symbolic3', scenario, dict(regions=['A', 'B'], units=TWO, only=ONLY, build=b(
        lossy([Link('I1', 'A', 'B')], {I: 3})))))
    return out
