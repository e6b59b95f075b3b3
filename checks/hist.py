"""Historical inputs of an interval (a case file and the market tables) with arbitrary numbers, given to nempy's own loader."""
import types

from .nemde import *

NEW_RULES = '2023/07/07 13:40'
OLD, NEW = '2023/07/07 13:35:00', '2023/07/07 13:40:00'
SERVICES = dict(ENERGY='energy', RAISEREG='raise_reg', LOWERREG='lower_reg', RAISE1SEC='raise_1s', RAISE6SEC='raise_6s', RAISE60SEC='raise_60s',
                RAISE5MIN='raise_5min', LOWER1SEC='lower_1s', LOWER6SEC='lower_6s', LOWER60SEC='lower_60s', LOWER5MIN='lower_5min')


class Table:
    """A market table: the rows for the interval asked for."""

    def __init__(self, rows, columns):
        self.rows, self.columns, self.asked = rows, columns, []

    def get_data(self, *a):
        import pandas as pd
        self.asked.append(a)
        return pd.DataFrame([{c: r.get(c) for c in self.columns} for r in self.rows], columns=self.columns)


TABLES = dict(
    DUDETAILSUMMARY=['DUID', 'START_DATE', 'END_DATE', 'DISPATCHTYPE', 'CONNECTIONPOINTID', 'REGIONID', 'TRANSMISSIONLOSSFACTOR',
                     'DISTRIBUTIONLOSSFACTOR', 'SCHEDULE_TYPE', 'SECONDARY_TLF'],
    DISPATCHLOAD=['SETTLEMENTDATE', 'DUID', 'DISPATCHMODE', 'AGCSTATUS', 'INITIALMW', 'TOTALCLEARED', 'RAMPDOWNRATE', 'RAMPUPRATE', 'AVAILABILITY',
                  'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN', 'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN', 'SEMIDISPATCHCAP'],
    DISPATCHREGIONSUM=['SETTLEMENTDATE', 'REGIONID', 'TOTALDEMAND', 'DEMANDFORECAST', 'INITIALSUPPLY'],
    LOSSMODEL=['EFFECTIVEDATE', 'VERSIONNO', 'INTERCONNECTORID', 'LOSSSEGMENT', 'MWBREAKPOINT'],
    LOSSFACTORMODEL=['EFFECTIVEDATE', 'VERSIONNO', 'INTERCONNECTORID', 'REGIONID', 'DEMANDCOEFFICIENT'],
    INTERCONNECTOR=['INTERCONNECTORID', 'REGIONFROM', 'REGIONTO'],
    INTERCONNECTORCONSTRAINT=['INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGIONLOSSSHARE', 'LOSSCONSTANT', 'ICTYPE',
                              'LOSSFLOWCOEFFICIENT', 'IMPORTLIMIT', 'EXPORTLIMIT'],
    MNSP_INTERCONNECTOR=['INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', 'FROMREGION', 'TOREGION', 'MAXCAPACITY',
                         'LHSFACTOR', 'FROM_REGION_TLF', 'TO_REGION_TLF'],
)


def loader(E, case, interval=NEW, **tables):
    from nempy.historical_inputs import loaders
    mms = types.SimpleNamespace(**{t: Table(tables.get(t, []), cols) for t, cols in TABLES.items()})
    r = loaders.RawInputsLoader(case.manager() if case is not None else None, mms)
    r.interval = interval
    return r


def unit_data(E, case, interval=NEW, details=None, load=None):
    """nempy's UnitData of the case; unit details and AGC limits default to plain ones for every unit of the case."""
    from nempy.historical_inputs import units
    if details is None:
        details = [detail(u['name'], u['kind']) for u in case.units]
    return units.UnitData(loader(E, case, interval, DUDETAILSUMMARY=details, DISPATCHLOAD=load or [agc(u['name']) for u in case.units]))


def detail(name, kind, tlf=1.0, dlf=1.0, second=None, region='NSW1'):
    return dict(DUID=name, START_DATE='2020/01/01 00:00:00', END_DATE='2999/12/31 00:00:00', DISPATCHTYPE='LOAD' if kind == 'LOAD' else 'GENERATOR',
                CONNECTIONPOINTID='P' + name, REGIONID=region, TRANSMISSIONLOSSFACTOR=tlf, DISTRIBUTIONLOSSFACTOR=dlf, SCHEDULE_TYPE='SCHEDULED',
                SECONDARY_TLF=second)


def agc(name, raise_min=0.0, raise_max=0.0, lower_min=0.0, lower_max=0.0):
    return dict(DUID=name, RAISEREGENABLEMENTMIN=raise_min, RAISEREGENABLEMENTMAX=raise_max, LOWERREGENABLEMENTMIN=lower_min,
                LOWERREGENABLEMENTMAX=lower_max)


def plain_trade(typ, direction=None, **attrs):
    """An offer with fixed numbers, for the units a check does not look at."""
    a = dict(MaxAvail=50.0, **(dict(RampUpRate=300.0, RampDnRate=300.0) if BID[typ] == 'ENERGY' else
                               dict(EnablementMin=0.0, LowBreakpoint=10.0, HighBreakpoint=90.0, EnablementMax=100.0)))
    a.update(attrs)
    return dict(type=typ, direction=direction, attrs=a, bands=[5.0] * 10, prices=[10.0 * b for b in BANDS])


PLAIN_INITIAL = dict(InitialMW=50.0, SCADARampUpRate=600.0, SCADARampDnRate=600.0, AGCStatus=1.0)
