"""Scaling an offered trapezium takes the tighter limits and keeps the slopes."""
from .hist import *

META = dict(
    bounds='one offer with an arbitrary trapezium and arbitrary telemetered limits, rate and forecast (each possibly missing), for each regulation '
           'service and a contingency service, generators, loads and both sides of bidirectional units, beside offers and units with other telemetry',
    outside='offers that do not meet the preconditions for being enabled (C20); units absent from the dispatch load table; trapeziums whose '
            'points are not in order',
)
NAN = float('nan')


def scaled(E, t, lo, hi, rate, uigf):
    """The trapezium as the rules have it: the tighter limits, both sides as steep as offered."""
    enmin, enmax, mx = t['EnablementMin'], t['EnablementMax'], t['MaxAvail']
    new = dict(EnablementMin=enmin, EnablementMax=enmax, MaxAvail=mx)
    if lo == lo:
        new['EnablementMin'] = E.If(E.And(lo > 0, lo > enmin), lo, enmin)
    if hi == hi:
        new['EnablementMax'] = E.If(E.And(hi > 0, hi < enmax), hi, enmax)
    if uigf is not None:
        new['EnablementMax'] = E.Min(new['EnablementMax'], uigf)
    if rate is not None:
        new['MaxAvail'] = E.If(E.eq(rate, 0), mx, E.Min(mx, rate * (5 / 60)))
    return new


def judge(E, label, row, t, new):
    E.close(label + '-enablement-min', row['enablement_min'], new['EnablementMin'])
    E.close(label + '-enablement-max', row['enablement_max'], new['EnablementMax'])
    E.close(label + '-max-availability', row['max_availability'], new['MaxAvail'])
    # same slopes: width over height is as offered
    E.close(label + '-low-slope', (row['low_break_point'] - new['EnablementMin']) * t['MaxAvail'], (t['LowBreakpoint'] - t['EnablementMin']) * new['MaxAvail'], tol=1e-3)
    E.close(label + '-high-slope', (new['EnablementMax'] - row['high_break_point']) * t['MaxAvail'], (t['EnablementMax'] - t['HighBreakpoint']) * new['MaxAvail'], tol=1e-3)


def offer(E, kind, side, service, telemetry, forecast, interval, alone=False):
    c = Case(E)
    neg = kind == 'BIDIRECTIONAL'
    t = {k: E.real('t' + k, -500 if neg else 0, 500) for k in ('EnablementMin', 'LowBreakpoint', 'HighBreakpoint', 'EnablementMax')}
    t['MaxAvail'] = E.real('tmax', 1, 300)
    E.assume(E.And(t['EnablementMin'] <= t['LowBreakpoint'], t['LowBreakpoint'] <= t['HighBreakpoint'], t['HighBreakpoint'] <= t['EnablementMax']))
    reg = service in ('R5RE', 'L5RE')
    limits = {k: (NAN if telemetry == 'none' or (telemetry == 'half' and k.endswith('min')) else E.real(k, -100, 500))
              for k in (('raise_min', 'raise_max') if service == 'R5RE' else ('lower_min', 'lower_max') if reg else ())}
    other = dict(lower_min=21.0, lower_max=79.0) if service == 'R5RE' else dict(raise_min=22.0, raise_max=78.0)
    rate_name = 'SCADARampUpRate' if service == 'R5RE' else 'SCADARampDnRate'
    rate = E.real('rate', 0, 5000) if reg and telemetry != 'none' else None
    uigf = E.real('uigf', 0, 500) if forecast else None
    lo, hi = [limits.get(k + '_' + m, NAN) for m in ('min', 'max') for k in [service == 'R5RE' and 'raise' or 'lower']]
    new = scaled(E, t, lo, hi, rate, uigf)
    # the offer can be enabled: initial output and capability inside the range
    out, cap = E.real('initial', -500, 500), E.real('cap', 0, 500)
    E.assume(E.And(new['EnablementMin'] + 1e-4 <= out, out + 1e-4 <= new['EnablementMax'], new['MaxAvail'] > 0))
    E.assume(E.And(cap >= new['EnablementMin'], 0 <= new['EnablementMax']) if side != 'LOAD' or kind == 'LOAD' else
             E.And(cap >= new['EnablementMin'], new['EnablementMin'] <= 0, -cap <= new['EnablementMax']))
    if kind != 'BIDIRECTIONAL':
        E.assume(out >= 0)
    init = dict(InitialMW=out, AGCStatus=1.0, **{'SCADARampUpRate': 480.0, 'SCADARampDnRate': 540.0})
    if reg:
        init.pop(rate_name)
        if rate is not None:
            init[rate_name] = rate
    me = dict(type=service, direction=side if neg else None, attrs=t, bands=[0.0] * 4 + [7.0] + [0.0] * 5, prices=[1.0] * 10)
    if neg:
        trades = [plain_trade('BDOF', 'GEN', MaxAvail=cap if side == 'GEN' else 60.0), me, plain_trade('BDOF', 'LOAD', MaxAvail=cap if side == 'LOAD' else 500.0)]
    else:
        trades = [plain_trade('LDOF' if kind == 'LOAD' else 'ENOF', MaxAvail=cap), me]
    u = c.unit('U2', kind, init, trades=trades, uigf=uigf)
    both = [dict(plain_trade(s), attrs=dict(MaxAvail=45.0, EnablementMin=10.0, LowBreakpoint=40.0, HighBreakpoint=60.0, EnablementMax=90.0)) for s in ('L5RE', 'R5RE', 'R6SE')]
    if not alone:
        c.unit('U1', 'GENERATOR', dict(InitialMW=50.0, SCADARampUpRate=360.0, SCADARampDnRate=1200.0, AGCStatus=1.0), trades=[plain_trade('ENOF', MaxAvail=100.0)] + both)
    c.unit('U3', 'GENERATOR', dict(InitialMW=30.0, SCADARampUpRate=0.0, AGCStatus=1.0), trades=[plain_trade('ENOF', MaxAvail=100.0)] + both, uigf=80.0)
    d = unit_data(E, c, interval, load=[agc('U3'), agc('U2', **{**other, **limits}), agc('U1', 15.0, 85.0, 5.0, 95.0)])
    d.get_processed_bids()
    d.add_fcas_trapezium_constraints()
    reg_t, con_t, max_t = d.get_fcas_regulation_trapeziums(), d.get_contingency_services(), d.get_fcas_max_availability()
    rows = {}
    for is_reg, df in ((True, reg_t), (False, con_t)):
        for i in range(len(df)):
            r = df.iloc[i]
            E.true('regulation-apart', (r['service'] in ('raise_reg', 'lower_reg')) == is_reg)
            k = (r['unit'], r['service'], r['dispatch_type'])
            E.true('once', k not in rows, detail=str(k))
            rows[k] = r
    # the offers of the other units
    base = dict(MaxAvail=45.0, EnablementMin=10.0, LowBreakpoint=40.0, HighBreakpoint=60.0, EnablementMax=90.0)
    want = {('U2', SERVICES[BID[service]], {'GEN': 'generator', 'LOAD': 'load'}[side]): (t, new)}
    for s in ('L5RE', 'R5RE', 'R6SE'):
        lim = {'L5RE': (5.0, 95.0), 'R5RE': (15.0, 85.0), 'R6SE': (NAN, NAN)}[s]
        if not alone:
            want['U1', SERVICES[BID[s]], 'generator'] = base, scaled(E, base, *lim, {'L5RE': 1200.0, 'R5RE': 360.0, 'R6SE': None}[s], None)
        want['U3', SERVICES[BID[s]], 'generator'] = base, scaled(E, base, NAN, NAN, None, 80.0)
    E.true('offers-kept', set(rows) == set(want), detail='unexpected %s absent %s' % (set(rows) - set(want), set(want) - set(rows)))
    for k, (o, n) in want.items():
        if k in rows:
            judge(E, 'trapezium' if k[0] == 'U2' else 'other-trapezium', rows[k], o, n)
    same_rows(E, 'max-availability-table', max_t, {k: {'max_availability': n['MaxAvail']} for k, (o, n) in want.items()},
              ['unit', 'service', 'dispatch_type'], ['max_availability'])


def cases(tier):
    from vlib.runner import Case as C
    out = []
    for kind, side in (('GENERATOR', 'GEN'), ('LOAD', 'LOAD'), ('BIDIRECTIONAL', 'GEN'), ('BIDIRECTIONAL', 'LOAD')):
        for service in ('R5RE', 'L5RE', 'R60S'):
            for telemetry in ('all', 'half', 'none') if service != 'R60S' else ('none',):
                for forecast in (False, True):
                    if forecast and kind != 'GENERATOR' or kind == 'BIDIRECTIONAL' and service == 'R60S' and side == 'LOAD':
                        continue
                    for interval in (NEW, OLD) if forecast else (NEW,):
                        if tier == 'quick' and (telemetry == 'half' and (kind != 'GENERATOR') or interval == OLD and telemetry != 'none'):
                            continue
                        out.append(C('_'.join([kind[:3], side, service, telemetry] + (['uigf'] if forecast else []) + (['old'] if interval == OLD else [])).lower(),
                                     offer, dict(kind=kind, side=side, service=service, telemetry=telemetry, forecast=forecast, interval=interval)))
    for service in ('R5RE', 'R60S'):
        out.append(C('alone_' + service.lower(), offer, dict(kind='GENERATOR', side='GEN', service=service, telemetry='none', forecast=False, interval=NEW, alone=True)))
    return out
