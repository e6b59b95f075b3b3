"""Historical constraints and demand reach the market unchanged in meaning."""
from .hist import *

META = dict(
    bounds='five constraints with no, one or several regional, unit and interconnector terms of every service, with and without a '
           'published right hand side and intervention; three regions; every right hand side, coefficient, cost and demand arbitrary',
    outside='constraints in the outputs that have no input element; reading the case file itself (C23)',
)
SENSE = dict(LE='<=', GE='>=', EQ='=')
KINDS = ['ENOF', 'LDOF', 'DROF', 'BDOF', 'L5RE', 'R5RE', 'R5MI', 'L5MI', 'R60S', 'L60S', 'R6SE', 'L6SE', 'R1SE', 'L1SE']


def name(t):
    return SERVICES[BID[t]]


def constraints(E, shape, intervention):
    from nempy.historical_inputs import constraints as cm
    c = Case(E)
    c.intervention = intervention
    c.prices = {k: E.real('p' + k, 0, 1e7) for k in CASE_PRICES}
    c.violations = ({}, {})
    f = lambda n: E.real(n, -10, 10)
    senses = ['LE', 'GE', 'EQ', 'GE', 'LE']
    lens = [(1, 0, 0), (0, 3, 1), (2, 2, 2), (0, 0, 2), (1, 4, 1)]
    for i, n in enumerate(['CB', 'CA', 'CE', 'CD', 'CC']):
        a, b, d = lens[(i + shape) % 5]
        k = KINDS[(i * 3 + shape * 5) % 14:] + KINDS
        c.cons.append(dict(name=n, sense=senses[(i + shape) % 5], cost=E.real('cost' + n, 0, 1e6), rhs=None if i == 3 and shape % 2 else E.real('rhs' + n, -5000, 5000),
                           **({'RegionFactor': [(r, k[j + 4] if k[j + 4] not in KINDS[:4] else 'L1SE', f('r%s%d' % (n, j))) for j, r in enumerate(['NSW1', 'QLD1'][:a])]} if a else {}),
                           **({'TraderFactor': [('U%d' % j if k[j] in KINDS[:4] else 'U9', k[j], f('u%s%d' % (n, j))) for j in range(b)]} if b else {}),
                           **({'InterconnectorFactor': [('I%d' % j, None, f('i%s%d' % (n, j))) for j in range(d)]} if d else {})))
    d = cm.ConstraintData(loader(E, c))
    for again in range(2):
        rhs = {(x['name'], SENSE[x['sense']]): {'rhs': x['rhs']} for x in c.cons if x['rhs'] is not None}
        same_rows(E, 'rhs', d.get_rhs_and_type(), rhs, ['set', 'type'], ['rhs'])
        same_rows(E, 'rhs-without-fcas', d.get_rhs_and_type_excluding_regional_fcas_constraints(),
                  {(x['name'], SENSE[x['sense']]): {'rhs': x['rhs']} for x in c.cons if x['rhs'] is not None and 'RegionFactor' not in x}, ['set', 'type'], ['rhs'])
        for key, get, cols in (('RegionFactor', d.get_region_lhs, ['set', 'region', 'service']), ('TraderFactor', d.get_unit_lhs, ['set', 'unit', 'service'])):
            same_rows(E, cols[1] + '-lhs', get(), {(x['name'], i, name(s)): {'coefficient': v} for x in c.cons for i, s, v in x.get(key, ())}, cols, ['coefficient'])
        same_rows(E, 'interconnector-lhs', d.get_interconnector_lhs(), {(x['name'], i): {'coefficient': v} for x in c.cons for i, s, v in x.get('InterconnectorFactor', ())},
                  ['set', 'interconnector'], ['coefficient'])
        same_rows(E, 'fcas-requirements', d.get_fcas_requirements(),
                  {(x['name'], name(s), r, SENSE[x['sense']]): {'volume': x['rhs']} for x in c.cons if x['rhs'] is not None for r, s, v in x.get('RegionFactor', ())},
                  ['set', 'service', 'region', 'type'], ['volume'])
        same_rows(E, 'violation-costs', d.get_violation_costs(), {(x['name'],): {'cost': x['cost']} for x in c.cons}, ['set'], ['cost'])
    got = d.get_constraint_violation_prices()
    E.true('violation-price-names', set(got) == set(CASE_PRICES))
    for k in CASE_PRICES:
        if k in got:
            E.close('violation-price', got[k], c.prices[k])


def demand(E, order):
    from nempy.historical_inputs import demand as dm
    rows = {r: {k: E.real(k + r, -2000, 20000) for k in ('TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY')} for r in ['TAS1', 'NSW1', 'SA1'][::order]}
    d = dm.DemandData(loader(E, None, DISPATCHREGIONSUM=[dict(SETTLEMENTDATE='x', REGIONID=r, **v) for r, v in rows.items()]))
    for again in range(2):
        same_rows(E, 'demand', d.get_operational_demand(), {(r,): {'demand': v['TOTALDEMAND']} for r, v in rows.items()}, ['region'], ['demand'])


def rerun(E, name, over):
    from nempy.historical_inputs import constraints as cm
    c = Case(E)
    c.violations = ({}, {})
    c.cons = [dict(name='C%d' % i, sense='LE', cost=1.0, rhs=E.real('r%d' % i, -9, 9), TraderFactor=[('U1', 'ENOF', 1.0)], RegionFactor=[('NSW1', 'R6SE', 1.0)]) for i in range(2)]
    r = loader(E, c)
    r.xml.get_file_name = lambda: name
    E.true('over-constrained-rerun', bool(r.is_over_constrained_dispatch_rerun()) == over)
    E.true('over-constrained-rerun', bool(cm.ConstraintData(r).is_over_constrained_dispatch_rerun()) == over)


def cases(tier):
    from vlib.runner import Case as C
    out = [C('constraints%d%s' % (s, '_int' if i else ''), constraints, dict(shape=s, intervention=i)) for s in range(5) for i in (False, True)]
    out += [C('demand%d' % o, demand, dict(order=o)) for o in (1, -1)]
    return out + [C('rerun_' + n, rerun, dict(name=f, over=o)) for n, f, o in (('plain', 'NEMSPDOutputs_2024071009700.loaded', False), ('ocd', 'NEMSPDOutputs_2024071009700_OCD.loaded', True))]
