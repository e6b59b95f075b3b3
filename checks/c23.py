"""Values read from a case file are those of the matching element."""
from .nemde import *

META = dict(
    bounds='case files with three units (generator, load, bidirectional, demand response), one to four offers each, optional fast start data, '
           'forecasts and initial conditions; four constraints with no, one or several terms of each kind; two market links; two or three '
           'regions; with and without intervention; two intervals read one after another, and the first again; every number arbitrary',
    outside='collections of which the market always has several (units, constraints, regions, interconnectors, initial conditions) with a '
            'single element; numbers as text that Python cannot parse; the names of the three price attributes whose spelling cannot be '
            'checked offline (5 minute lower and both regulation services)',
)
TRAP = ('EnablementMin', 'EnablementMax', 'LowBreakpoint', 'HighBreakpoint')


def trade(E, n, typ, direction=None, energy=None, ramps=True):
    energy = BID[typ] == 'ENERGY' if energy is None else energy
    attrs = {'MaxAvail': E.real(n + 'max', 0, 1000)}
    if not energy:
        attrs.update({k: E.real(n + k, -500, 1000) for k in TRAP})
    elif ramps:
        attrs.update({k: E.real(n + k, 0, 1000) for k in ('RampUpRate', 'RampDnRate')})
    return dict(type=typ, direction=direction, attrs=attrs, bands=[E.real(n + 'b%d' % b, 0, 1000) for b in BANDS],
                prices=[E.real(n + 'p%d' % b, -1000, 17500) for b in BANDS])


def initial(E, n, names=('InitialMW', 'SCADARampUpRate', 'SCADARampDnRate', 'AGCStatus', 'WhatIfInitialMW')):
    return {k: E.real(n + k, -500, 1000) for k in names}


def fast(E, n, whatif):
    names = ['MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4'] + (['WhatIfCurrentMode', 'WhatIfCurrentModeTime'] if whatif else [])
    return {k: E.int(n + k, 0, 60) for k in names}


def units(E, intervention, kinds, types, into=None):
    c = Case(E)
    c.intervention = intervention
    c.violations = ({k: 0.0 for k in VIOLATIONS}, {})
    alln = ('InitialMW', 'SCADARampUpRate', 'SCADARampDnRate', 'AGCStatus', 'WhatIfInitialMW')
    sets = [alln, alln[::-1], ('WhatIfInitialMW', 'AGCStatus', 'InitialMW'), ('SCADARampDnRate', 'WhatIfInitialMW', 'InitialMW')]
    names = ['U2', 'U1', 'U10'][:len(kinds)]
    for i, (n, k) in enumerate(zip(names, kinds)):
        ts = []
        for j, t in enumerate(types[i]):
            typ, d = t if isinstance(t, tuple) else (t, None)
            ts.append(trade(E, '%s_%d_' % (n, j), typ, d, ramps=(typ != 'DROF')))
        c.unit(n, k, initial(E, n, sets[(i + E.pick('ic', [0, 1, 2, 3])) % 4]), fast(E, n, intervention) if i != 1 else None, ts,
               E.real(n + 'uigf', 0, 500) if i == E.pick('uigf', [0, 2]) else None)
    m = c.manager() if into is None else into(c)
    # initial conditions
    mw = 'WhatIfInitialMW' if intervention else 'InitialMW'
    want = {(u['name'], u['kind']): {'INITIALMW': u['initial'].get(mw), 'RAMPUPRATE': u['initial'].get('SCADARampUpRate'),
                                     'RAMPDOWNRATE': u['initial'].get('SCADARampDnRate'), 'AGCSTATUS': u['initial'].get('AGCStatus')} for u in c.units}
    same_rows(E, 'initial-conditions', m.get_unit_initial_conditions(), want, ['DUID', 'TRADERTYPE'], ['INITIALMW', 'RAMPUPRATE', 'RAMPDOWNRATE', 'AGCSTATUS'])
    # fast start parameters
    w = 'WhatIf' if intervention else ''
    want = {(u['name'],): {'CurrentMode': u['fast'][w + 'CurrentMode'], 'CurrentModeTime': u['fast'][w + 'CurrentModeTime'],
                           **{k: u['fast'][k] for k in ('MinLoadingMW', 'T1', 'T2', 'T3', 'T4')}} for u in c.units if u['fast']}
    same_rows(E, 'fast-start', m.get_unit_fast_start_parameters(), want, ['DUID'], ['MinLoadingMW', 'CurrentMode', 'CurrentModeTime', 'T1', 'T2', 'T3', 'T4'])
    # forecasts
    want = {(u['name'],): {'UIGF': u['uigf']} for u in c.units if u['uigf'] is not None}
    same_rows(E, 'forecast', m.get_UIGF_values(), want, ['DUID'], ['UIGF'])
    # offers
    dirs = {'GEN': 'GENERATOR', 'LOAD': 'LOAD', None: None}
    cols = dict(MAXAVAIL='MaxAvail', ENABLEMENTMIN='EnablementMin', ENABLEMENTMAX='EnablementMax', LOWBREAKPOINT='LowBreakpoint',
                HIGHBREAKPOINT='HighBreakpoint', RAMPDOWNRATE='RampDnRate', RAMPUPRATE='RampUpRate')
    vol, pri = {}, {}
    for u in c.units:
        for t in u['trades']:
            vol[u['name'], BID[t['type']], dirs[t['direction']]] = {
                **{k: t['attrs'].get(a) for k, a in cols.items()}, **{'BANDAVAIL%d' % b: x for b, x in zip(BANDS, t['bands'])}}
            d = dirs[t['direction']] or ('LOAD' if u['kind'] == 'LOAD' else 'GENERATOR')
            pri[u['name'], BID[t['type']], d] = {'PRICEBAND%d' % b: x for b, x in zip(BANDS, t['prices'])}
    same_rows(E, 'volume-offers', m.get_unit_volume_bids(), vol, ['DUID', 'BIDTYPE', 'DIRECTION'], list(cols) + ['BANDAVAIL%d' % b for b in BANDS])
    same_rows(E, 'price-offers', m.get_unit_price_bids(), pri, ['DUID', 'BIDTYPE', 'DIRECTION'], ['PRICEBAND%d' % b for b in BANDS])


def constraints(E, intervention, into=None):
    c = Case(E)
    c.intervention = intervention
    f = lambda n: E.real(n, -10, 10)
    shape = E.pick('shape', [0, 1, 2, 3])
    terms = {'RegionFactor': [('NSW1', 'R6SE', f('f0')), ('QLD1', 'L5RE', f('f1')), ('NSW1', 'L1SE', f('f2'))],
             'TraderFactor': [('NSW1', 'ENOF', f('g0')), ('U1', 'ENOF', f('g1')), ('U1', 'R5RE', f('g2')), ('U2', 'LDOF', f('g3'))],
             'InterconnectorFactor': [('I1', None, f('h0')), ('I2', None, f('h1'))]}

    def cut(k, a, b):
        return {k: terms[k][a:b]} if b > a else {}
    lens = [(0, 1, 2), (1, 2, 0), (3, 0, 1), (2, 4, 2)]
    for i, (name, sense) in enumerate((('CB', 'LE'), ('CA', 'GE'), ('CC', 'EQ'), ('CD', 'LE'))):
        a, b, d = lens[(i + shape) % 4]
        c.cons.append(dict(name=name, sense=sense, cost=E.real('cost' + name, 0, 1e6), rhs=None if name == 'CC' and shape == 1 else E.real('rhs' + name, -5000, 5000),
                           **cut('RegionFactor', 0, a), **cut('TraderFactor', 4 - b, 4), **cut('InterconnectorFactor', 0, d)))
    c.violations = ({k: 0.0 for k in VIOLATIONS}, {})
    if shape % 2:
        c.links = [dict(name='L%d' % i, offers=[('TAS1', E.real('o%d' % i, 0, 600)), ('VIC1', E.real('q%d' % i, 0, 600))]) for i in range(shape)]
    m = c.manager() if into is None else into(c)
    E.true('intervention', bool(m.is_intervention_period()) == intervention)
    same_rows(E, 'constraint-rhs', m.get_constraint_rhs(), {(x['name'],): {'rhs': x['rhs']} for x in c.cons if x['rhs'] is not None}, ['set'], ['rhs'])
    same_rows(E, 'constraint-type', m.get_constraint_type(), {(x['name'], x['sense']): {'cost': x['cost']} for x in c.cons}, ['set', 'type'], ['cost'])
    for key, get, cols in (('RegionFactor', m.get_constraint_region_lhs, ['set', 'region', 'service']),
                           ('TraderFactor', m.get_constraint_unit_lhs, ['set', 'unit', 'service']),
                           ('InterconnectorFactor', m.get_constraint_interconnector_lhs, ['set', 'interconnector'])):
        want = {((x['name'], i, s) if s is not None else (x['name'], i)): {'coefficient': v} for x in c.cons for i, s, v in x.get(key, ())}
        same_rows(E, 'lhs-' + cols[1], get(), want, cols, ['coefficient'])
    same_rows(E, 'link-availability', m.get_market_interconnector_link_bid_availability(),
              {(l['name'], r): {'availability': x} for l in c.links for r, x in l['offers']}, ['interconnector', 'to_region'], ['availability'])


def totals(E, intervention, split, into=None):
    c = Case(E)
    c.intervention = intervention
    names = list(VIOLATIONS)
    both = {k: E.real('v' + k, 0, 1000) for k in names}
    over = {k: E.real('w' + k, 0, 1000) for k in names if names.index(k) % 3 == split}
    only = [k for k in over if names.index(k) % 2]
    c.violations = ({k: v for k, v in both.items() if k not in only}, over)
    c.prices = {k: E.real('p' + k, 0, 1e7) for k in CASE_PRICES}
    ps = dict(EnergyPrice='ENERGY', R5Price='RAISE5MIN', R60Price='RAISE60SEC', L60Price='LOWER60SEC', R6Price='RAISE6SEC', L6Price='LOWER6SEC',
              R1Price='RAISE1SEC', L1Price='LOWER1SEC')
    regions = ['NSW1', 'QLD1', 'SA1'][:2 + E.pick('three', [0, 1])]
    have = E.pick('have', [8, 6])
    c.region_prices = {g: {k: E.real('r%s%s' % (g, k), -1000, 17500) for k in list(ps)[:have]} for g in regions}
    m = c.manager() if into is None else into(c)
    got = m.get_violations()
    E.true('violation-names', set(got) == set(names))
    for k in names:
        if k in got:
            E.close('violation-total', got[k], over.get(k, both[k]))
    got = m.get_constraint_violation_prices()
    E.true('violation-price-names', set(got) == set(CASE_PRICES))
    for k in CASE_PRICES:
        if k in got:
            E.close('violation-price', got[k], c.prices[k])
    same_rows(E, 'prices', m.get_service_prices(), {(g, ps[k]): {'price': v} for g, r in c.region_prices.items() for k, v in r.items()},
              ['region', 'service'], ['price'])


KINDS = [(('GENERATOR', 'LOAD', 'BIDIRECTIONAL'), (['ENOF', 'R6SE'], ['LDOF', 'L60S', 'R5RE'], [('BDOF', 'GEN'), ('BDOF', 'LOAD'), 'L1SE', ('L5RE', 'LOAD')])),
         (('WDR', 'GENERATOR', 'LOAD'), (['DROF'], ['R1SE', 'ENOF', 'L5RE'], ['LDOF'])),
         (('BIDIRECTIONAL', 'NORMALLY_ON_LOAD'), ([('BDOF', 'LOAD'), ('R5RE', 'GEN'), ('R5RE', 'LOAD'), ('BDOF', 'GEN')], ['ENOF', 'R5MI', 'L5MI', 'R60S'])),
         (('LOAD', 'GENERATOR'), (['R5MI', 'L6SE', 'LDOF'], ['L5MI']))]


class Second:
    """The numbers of a second case file."""

    def __init__(self, E):
        self.E = E

    def __getattr__(self, n):
        return getattr(self.E, n)

    def real(self, n, *a):
        return self.E.real('second_' + n, *a)

    def int(self, n, *a):
        return self.E.int('second_' + n, *a)

    def pick(self, n, xs):
        return self.E.pick('second_' + n, xs)


class Reader:
    """What the loader gives for the interval set, or the cache manager where the loader has no such query."""

    def __init__(self, m, ld):
        self.m, self.ld = m, ld

    def __getattr__(self, n):
        return getattr(self.ld, n) if hasattr(self.ld, n) else getattr(self.m, n)


def one_after_another(E, fn, first, second):
    """Two intervals read one after another (and the first again) through one loader and one cache manager."""
    from nempy.historical_inputs import loaders, xml_cache
    folder = tempfile.mkdtemp(prefix='vf_cases_')
    m = xml_cache.XMLCacheManager(folder)
    ld = loaders.RawInputsLoader(m, None)
    r = Reader(m, ld)
    for e, kw, t in ((E, first, 0), (Second(E), second, 1), (E, first, 0)):
        def into(c):
            c.manager(m, interval=list(TIMES)[t], load=ld.set_interval)
            return r
        fn(e, into=into, **kw)


def cases(tier):
    from vlib.runner import Case as C
    out = []
    for i in (False, True):
        t = '_int' if i else ''
        out += [C('units%d%s' % (n, t), units, dict(intervention=i, kinds=k, types=ts)) for n, (k, ts) in enumerate(KINDS)]
        out += [C('constraints' + t, constraints, dict(intervention=i))]
        out += [C('totals%d%s' % (s, t), totals, dict(intervention=i, split=s)) for s in range(3)]
    ks = [dict(kinds=k, types=ts) for k, ts in KINDS]
    out += [C('then_units%d' % i, one_after_another, dict(fn=units, first=dict(ks[i], intervention=False), second=dict(ks[j], intervention=True)))
            for i, j in ((0, 1), (3, 0), (2, 2))]
    out += [C('then_constraints', one_after_another, dict(fn=constraints, first=dict(intervention=False), second=dict(intervention=False))),
            C('then_totals', one_after_another, dict(fn=totals, first=dict(intervention=True, split=0), second=dict(intervention=False, split=1)))]
    return out
