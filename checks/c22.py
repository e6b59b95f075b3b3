"""Historical interconnector data reach the market unchanged in meaning."""
from .hist import *

META = dict(
    bounds='two regulated and up to two market interconnectors (two links each, oriented either way) between three regions, up to three loss '
           'segments, any subset of regions with demand coefficients; every limit, availability, loss factor, share, coefficient, demand and '
           'break point arbitrary, the loss functions evaluated at any flow',
    outside='link factors other than plus and minus one; demand coefficients of regions that have no demand; segments that are not integers',
)


def network(E, market, shape):
    f = E.real
    regions = ['NSW1', 'QLD1', 'TAS1']
    demand = {r: (f('is' + r, 0, 15000), f('df' + r, -500, 500)) for r in regions}
    c = Case(E)
    defs, cons, mnsp, seg, lfm = [], [], [], [], []
    want, losses, points, shares = {}, {}, {}, {}
    names = [('N-Q-MNSP1', 'REGULATED', 'NSW1', 'QLD1'), ('V-SA', 'REGULATED', 'TAS1', 'NSW1')]
    names += [('T-V-MNSP1', 'MNSP', 'TAS1', 'QLD1'), ('X-LINK', 'MNSP', 'NSW1', 'TAS1')][:market]
    order = names if shape != 1 else names[::-1]
    for i, (n, kind, a, b) in enumerate(order):
        imp, exp, share = f('imp' + n, 0, 2000), f('exp' + n, 0, 2000), f('sh' + n, 0, 1)
        const, coef = f('k' + n, 0.5, 1.5), f('c' + n, 0, 0.01)
        defs.insert(0, dict(INTERCONNECTORID=n, REGIONFROM=a, REGIONTO=b))
        cons.append(dict(INTERCONNECTORID=n, EFFECTIVEDATE='2020/01/01 00:00:00', VERSIONNO=1, FROMREGIONLOSSSHARE=share, LOSSCONSTANT=const,
                         ICTYPE=kind, LOSSFLOWCOEFFICIENT=coef, IMPORTLIMIT=imp, EXPORTLIMIT=exp))
        having = [r for j, r in enumerate(regions) if (i + j + shape) % 3 or shape == 2]
        having = [] if shape == 0 and i == 0 else having
        dc = {r: f('d%s%s' % (n, r), -0.001, 0.001) for r in having}
        lfm += [dict(INTERCONNECTORID=n, EFFECTIVEDATE='x', VERSIONNO=1, REGIONID=r, DEMANDCOEFFICIENT=x) for r, x in dc.items()]
        bp = {k: f('bp%s%d' % (n, k), -2000, 2000) for k in ((-1, 1, 2) if (i + shape) % 2 else (-2, 0))}
        seg += [dict(INTERCONNECTORID=n, EFFECTIVEDATE='x', VERSIONNO=1, LOSSSEGMENT=k, MWBREAKPOINT=x) for k, x in bp.items()]
        total = const
        for r, x in dc.items():
            total = total + x * (demand[r][0] + demand[r][1])
        poly = lambda flow, total=total, coef=coef: (total - 1) * flow + coef * flow * flow * 0.5
        if kind == 'REGULATED':
            links = [(n, a, b, 1, -imp, exp, 1.0, 1.0)]
        else:
            links = []
            for j, (la, lb, factor) in enumerate(((a, b, 1), (b, a, -1))):
                factor = factor if not (shape == 1 and n == 'X-LINK') else -factor
                ft, tt, avail = f('ft%s%d' % (n, j), 0.8, 1.2), f('tt%s%d' % (n, j), 0.8, 1.2), f('av%s%d' % (n, j), 0, 600)
                mnsp.insert(j, dict(INTERCONNECTORID=n, LINKID='%s-%d' % (n, j), EFFECTIVEDATE='x', VERSIONNO=1, FROMREGION=la, TOREGION=lb,
                                    MAXCAPACITY=f('mc%s%d' % (n, j), 0, 900), LHSFACTOR=factor, FROM_REGION_TLF=ft, TO_REGION_TLF=tt))
                links.append(('%s-%d' % (n, j), la, lb, factor, 0.0, avail, ft, tt))
            c.links.append(dict(name=n, offers=[(l[2], l[5]) for l in links]))
        for link, la, lb, factor, lo, hi, ft, tt in links:
            want[n, link, la, lb] = dict(min=lo, max=hi, from_region_loss_factor=ft, to_region_loss_factor=tt, generic_constraint_factor=factor)
            losses[n, link] = (poly, factor)
            shares[n, link] = dict(from_region_loss_share=1.0 if n == 'T-V-MNSP1' else share)
            points.update({(n, link, k * factor): dict(break_point=x * factor) for k, x in bp.items()})
    c.cons, c.violations = [], ({}, {})
    c.unit('U1', initial=PLAIN_INITIAL, trades=[plain_trade('ENOF')])
    c.unit('U2', initial=PLAIN_INITIAL, trades=[plain_trade('ENOF')])
    from nempy.historical_inputs import interconnectors
    d = interconnectors.InterconnectorData(loader(
        E, c, DISPATCHREGIONSUM=[dict(SETTLEMENTDATE='x', REGIONID=r, TOTALDEMAND=77.0, DEMANDFORECAST=x[1], INITIALSUPPLY=x[0]) for r, x in demand.items()],
        LOSSMODEL=seg[::-1], LOSSFACTORMODEL=lfm, INTERCONNECTOR=defs, INTERCONNECTORCONSTRAINT=cons, MNSP_INTERCONNECTOR=mnsp))
    cols = ['min', 'max', 'from_region_loss_factor', 'to_region_loss_factor', 'generic_constraint_factor']
    keys = ['interconnector', 'link', 'from_region', 'to_region']
    same_rows(E, 'definitions', d.get_interconnector_definitions(), want, keys, cols)
    for again in range(2):
        fn, bp = d.get_interconnector_loss_model()
        same_rows(E, 'loss-share', fn, shares, ['interconnector', 'link'], ['from_region_loss_share'], exact=False)
        E.true('loss-function-columns', sorted(fn.columns) == ['from_region_loss_share', 'interconnector', 'link', 'loss_function'])
        flow = f('flow', -2000, 2000)
        for i in range(len(fn)):
            r = fn.iloc[i]
            if (r['interconnector'], r['link']) in losses:
                poly, factor = losses[r['interconnector'], r['link']]
                E.close('loss-function', r['loss_function'](flow), poly(flow * factor), tol=1e-3)
        same_rows(E, 'break-points', bp, points, ['interconnector', 'link', 'loss_segment'], ['break_point'])
    same_rows(E, 'definitions-again', d.get_interconnector_definitions(), want, keys, cols)


def cases(tier):
    from vlib.runner import Case as C
    return [C('market%d_shape%d' % (m, s), network, dict(market=m, shape=s)) for m in (1, 2, 0) for s in range(3)]
