"""Whole dispatch case files with arbitrary numbers, laid out as AEMO does."""
from .casefile import *

BID = dict(ENOF='ENERGY', LDOF='ENERGY', DROF='ENERGY', BDOF='ENERGY', L5RE='LOWERREG', R5RE='RAISEREG', R5MI='RAISE5MIN', L5MI='LOWER5MIN',
           R60S='RAISE60SEC', L60S='LOWER60SEC', R6SE='RAISE6SEC', L6SE='LOWER6SEC', R1SE='RAISE1SEC', L1SE='LOWER1SEC')
BANDS = range(1, 11)
CASE_PRICES = dict(regional_demand='EnergyDeficitPrice', interocnnector='InterconnectorPrice', generic_constraint='GenericConstraintPrice',
                   ramp_rate='RampRatePrice', unit_capacity='CapacityPrice', energy_offer='OfferPrice', fcas_profile='ASProfilePrice',
                   fcas_max_avail='ASMaxAvailPrice', fcas_enablement_min='ASEnablementMinPrice', fcas_enablement_max='ASEnablementMaxPrice',
                   fast_start='FastStartPrice', mnsp_ramp_rate='MNSPRampRatePrice', msnp_offer='MNSPOfferPrice', mnsp_capacity='MNSPCapacityPrice',
                   uigf='UIGFSurplusPrice', voll='VoLL', tiebreak='TieBreakPrice')
VIOLATIONS = dict(regional_demand='TotalAreaGenViolation', interocnnector='TotalInterconnectorViolation', generic_constraint='TotalGenericViolation',
                  ramp_rate='TotalRampRateViolation', unit_capacity='TotalUnitMWCapacityViolation', energy_constraint='TotalEnergyConstrViolation',
                  energy_offer='TotalEnergyOfferViolation', fcas_profile='TotalASProfileViolation', fast_start='TotalFastStartViolation',
                  mnsp_ramp_rate='TotalMNSPRampRateViolation', msnp_offer='TotalMNSPOfferViolation', mnsp_capacity='TotalMNSPCapacityViolation',
                  ugif='TotalUIGFViolation')


class Case:
    """Filled in by a check, then turned into a case file."""

    def __init__(self, E):
        self.E = E
        self.units, self.cons, self.links = [], [], []
        self.prices, self.region_prices, self.violations = {}, {}, ({}, {})
        self.intervention = False

    def unit(self, name, kind='GENERATOR', initial=None, fast=None, trades=(), uigf=None):
        """initial: name of condition -> number; fast: attribute -> integer; trades: dicts of type, direction, attrs, prices."""
        u = dict(name=name, kind=kind, initial=initial or {}, fast=fast, trades=list(trades), uigf=uigf)
        self.units.append(u)
        return u

    def L(self, x):
        return self.E.leaf(x)

    def inputs(self):
        L = self.L
        traders, periods = [], []
        for u in self.units:
            conds = [{'@InitialConditionID': k, '@Value': L(v)} for k, v in u['initial'].items()]
            conds.insert(1, {'@InitialConditionID': 'HMW', '@Value': '987.5'})
            conds.append({'@InitialConditionID': 'LMW', '@Value': '123.5'})
            t = {'@TraderID': u['name'], '@TraderType': u['kind'], 'TraderInitialConditionCollection': {'TraderInitialCondition': conds}}
            if u['fast'] is not None:
                t['@FastStart'] = '1'
                for k, v in u['fast'].items():
                    t['@' + k] = self.E.leaf(v, integer=True)
            prices, trades = [], []
            for tr in u['trades']:
                a = {'@TradeType': tr['type']}
                if tr.get('direction'):
                    a['@Direction'] = tr['direction']
                prices.append({**a, **{'@PriceBand%d' % b: L(x) for b, x in zip(BANDS, tr['prices'])}, '@Offered': '1'})
                trades.append({**a, '@MaxAvailX': '1', **{'@' + k: L(x) for k, x in tr['attrs'].items()},
                               **{'@BandAvail%d' % b: L(x) for b, x in zip(BANDS, tr['bands'])}})
            t['TradePriceStructureCollection'] = {'TradePriceStructure': {'TradeTypePriceStructureCollection': {'TradeTypePriceStructure': many(prices)}}}
            traders.append(t)
            p = {'@TraderID': u['name'], '@RegionID': 'NSW1', 'TradeCollection': {'Trade': many(trades)}}
            if u['uigf'] is not None:
                p['@UIGF'] = L(u['uigf'])
            periods.insert(0, p)
        cons = []
        for c in self.cons:
            d = {'@ConstraintID': c['name'], '@Type': c['sense'], '@ViolationPrice': L(c['cost']), '@RHS': '77.5', '@Version': '20'}
            lhs = {}
            for key, ident in (('RegionFactor', 'RegionID'), ('TraderFactor', 'TraderID'), ('InterconnectorFactor', 'InterconnectorID')):
                rows = [{'@' + ident: i, **({} if s is None else {'@TradeType': s}), '@Factor': L(f)} for i, s, f in c.get(key, ())]
                if rows:
                    lhs[key] = many(rows)
            d['LHSFactorCollection'] = lhs or None
            cons.append(d)
        inters = [{'@InterconnectorID': 'REG%d' % i, '@MNSP': '0', '@FromRegion': 'A', '@ToRegion': 'B'} for i in range(1 if self.links else 2)]
        for l in self.links:
            inters.append({'@InterconnectorID': l['name'], '@MNSP': '1', '@FromRegion': l['offers'][0][0], '@ToRegion': l['offers'][1][0],
                           'MNSPOfferCollection': {'MNSPOffer': [{'@RegionID': r, '@MaxAvail': L(x), '@BandAvail1': '5.5'} for r, x in l['offers']]}})
        case = {'@' + CASE_PRICES[k]: L(v) for k, v in self.prices.items()}
        case.update({'@UIGFSurplusPriceX': '1', '@CaseID': '20240101001'})
        return {'Case': case, 'TraderCollection': {'Trader': traders}, 'GenericConstraintCollection': {'GenericConstraint': cons},
                'PeriodCollection': {'Period': {'TraderPeriodCollection': {'TraderPeriod': periods},
                                                'InterconnectorPeriodCollection': {'InterconnectorPeriod': inters}}}}

    def outputs(self):
        L = self.L
        runs = ['1', '0'] if self.intervention else ['0']
        case, period = self.violations
        out = {'CaseSolution': [], 'PeriodSolution': [], 'ConstraintSolution': [], 'RegionSolution': []}
        for r in runs:
            on = r == '0'
            out['CaseSolution'].append({'@Intervention': r, **{'@' + VIOLATIONS[k]: L(v) if on else '31.5' for k, v in case.items()}})
            out['PeriodSolution'].append({'@Intervention': r, **{'@' + VIOLATIONS[k]: L(v) if on else '32.5' for k, v in period.items()}})
            out['ConstraintSolution'] += [{'@ConstraintID': c['name'], '@Intervention': r, '@RHS': L(c['rhs']) if on else '33.5', '@MarginalValue': '0'}
                                          for c in self.cons[::-1] if c.get('rhs') is not None]
            out['RegionSolution'] += [{'@RegionID': g, '@Intervention': r, **{'@' + k: L(v) if on else '34.5' for k, v in ps.items()}}
                                      for g, ps in self.region_prices.items()]
        out['CaseSolution'], out['PeriodSolution'] = many(out['CaseSolution']), many(out['PeriodSolution'])
        return out

    def manager(self, *a, **k):
        return manager(self.E, document(self.inputs(), self.outputs()), *a, **k)


def missing(x):
    return x is None or (isinstance(x, float) and x != x)


def same_rows(E, label, df, want, keys, values, tol=None, exact=True):
    """The table has exactly the wanted rows: keys identify a row, values are numbers (None: missing)."""
    if exact:
        E.true(label + '-columns', sorted(df.columns) == sorted(set(keys) | set(values)), detail=str(list(df.columns)))
    got = {}
    for i in range(len(df)):
        k = tuple(None if missing(df[c].iloc[i]) else df[c].iloc[i] for c in keys)
        E.true(label + '-once', k not in got, detail=str(k))
        got[k] = {c: df[c].iloc[i] for c in values}
    E.true(label + '-rows', set(got) == set(want), detail='unexpected %s, absent %s' % (sorted(map(str, set(got) - set(want))), sorted(map(str, set(want) - set(got)))))
    for k, row in want.items():
        if k not in got:
            continue
        for c, x in row.items():
            g = got[k][c]
            if x is None:
                E.true(label + '-missing', missing(g), detail='%s %s' % (k, c))
            elif missing(g):
                E.true(label + '-value', False, detail='%s %s is missing' % (k, c))
            elif isinstance(g, (str, bool)):
                E.true(label + '-value', False, detail='%s %s is not a number' % (k, c))
            else:
                E.close(label + '-value', g, x, tol=tol)
