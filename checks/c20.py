"""A FCAS offer is used exactly when the preconditions for enabling it hold."""
from .hist import *

META = dict(
    bounds='one offer (both sides for regulation of bidirectional units) with arbitrary maximum availability, bands, enablement limits, energy '
           'availability, initial output, control status and forecast, for contingency and regulation services of generators, loads, demand '
           'response and bidirectional units, with and without energy offers, under the rules before and after July 2023; limits and '
           'outputs are integers, the initial output up to 4e-6 off an integer',
    outside='telemetry that changes the trapezium (C19); case files without any FCAS offer',
    assumptions=['enablement limits, capacities and availabilities are integers (so that every boundary is exact)'],
)


def side(E, n, neg, few=False, fixed=False):
    """An offer: attributes, bands, and whether availability and bands alone allow it."""
    lo = -60 if neg else 0
    a = dict(MaxAvail=E.int(n + 'max', 0, 60), EnablementMin=E.int(n + 'enmin', lo, 100), EnablementMax=E.int(n + 'enmax', -60, 100))
    a.update(LowBreakpoint=a['EnablementMin'], HighBreakpoint=a['EnablementMax'])
    bands = [0.0] * 10
    at = 4 if few else E.pick(n + 'band', [0, 9])
    bands[at] = 5.0 if fixed else E.int(n + 'vol', 0, 50)
    bands[(at + 3) % 10] = 0.0 if few else E.int(n + 'vol2', 0, 50)
    return a, bands, E.And(a['MaxAvail'] > 0, E.Or(bands[at] > 0, bands[(at + 3) % 10] > 0))


def start(E, exact=False):
    """Initial output as telemetered, and as the rules round it."""
    i = E.int('init', -80, 120)
    return (i if exact else i + E.real('eps', -4e-6, 4e-6)), i


def status(E, options=(0, 1, 2)):
    s = E.pick('agc', list(options))
    return ({} if s == 2 else {'AGCStatus': float(s)}), s != 0


def others(c):
    c.unit('U1', 'GENERATOR', dict(InitialMW=50.0, SCADARampUpRate=900.0, SCADARampDnRate=900.0, AGCStatus=1.0),
           trades=[plain_trade('ENOF'), plain_trade('R5RE'), plain_trade('L6SE')])
    c.unit('U3', 'GENERATOR', dict(InitialMW=50.0, SCADARampUpRate=900.0, SCADARampDnRate=900.0, AGCStatus=0.0),
           trades=[plain_trade('ENOF'), plain_trade('L5RE'), plain_trade('L6SE')])
    return {('U1', s, 'generator') for s in ('energy', 'raise_reg', 'lower_6s')} | {('U3', s, 'generator') for s in ('energy', 'lower_6s')}


def judge(E, c, interval, sure, open_):
    """sure: offers always kept; open_: offer -> condition on which it is kept."""
    d = unit_data(E, c, interval)
    vol, price = d.get_processed_bids()
    d.add_fcas_trapezium_constraints()
    keys = lambda df: [tuple(x) for x in df.loc[:, ['unit', 'service', 'dispatch_type']].itertuples(index=False)]
    got = keys(vol)
    E.true('volume-offers-once', len(got) == len(set(got)), detail=str(got))
    E.true('price-offers-match', sorted(keys(price)) == sorted(got), detail='%s / %s' % (got, keys(price)))
    fcas = [k for k in got if k[1] != 'energy']
    E.true('availability-match', sorted(keys(d.get_fcas_max_availability())) == sorted(fcas))
    E.true('trapeziums-match', sorted(keys(d.get_fcas_regulation_trapeziums()) + keys(d.get_contingency_services())) == sorted(fcas))
    E.true('other-offers', set(got) - set(open_) == sure, detail='%s' % (set(got) ^ sure))
    for k, cond in open_.items():
        if k in got:
            E.true('kept-only-if-preconditions', cond, detail=str(k))
        else:
            E.true('kept-if-preconditions', E.Not(cond), detail=str(k))


def one(E, kind, service, energy, forecast, interval):
    c = Case(E)
    a, bands, ok = side(E, 'o', False)
    mw, initial = start(E)
    agc_, on = status(E, (0, 1, 2) if 'REG' in BID[service] else (0,))
    cap = E.int('cap', 0, 120)
    uigf = E.int('uigf', 0, 120) if forecast else None
    trades = [dict(type=service, direction=None, attrs=a, bands=bands, prices=[3.0] * 10)]
    if energy:
        trades.insert(0, plain_trade('LDOF' if kind == 'LOAD' else 'DROF' if kind == 'WDR' else 'ENOF', MaxAvail=cap))
    c.unit('U2', kind, dict(InitialMW=mw, SCADARampUpRate=900.0, SCADARampDnRate=900.0, **agc_), trades=trades, uigf=uigf)
    sure = others(c)
    s = 'load' if kind == 'LOAD' else 'generator'
    if energy:
        sure.add(('U2', 'energy', s))
    top = a['EnablementMax'] if uigf is None else E.Min(a['EnablementMax'], uigf)
    out = E.Max(initial, 0)
    conds = [ok, top >= 0, a['EnablementMin'] <= out, out <= top]
    if energy and not (forecast and interval < NEW_RULES):
        conds.append(cap >= a['EnablementMin'])
    if 'REG' in BID[service] and not on:
        conds = [False]
    judge(E, c, interval, sure, {('U2', SERVICES[BID[service]], s): E.And(*conds)})


def bands(E, service, kind='GENERATOR'):
    """One positive band is enough, whichever it is."""
    c = Case(E)
    at = E.pick('band', list(range(10)))
    vols = [E.int('vol', 0, 50) if i == at else 0.0 for i in range(10)]
    trades = [plain_trade('LDOF' if kind == 'LOAD' else 'ENOF'), dict(plain_trade(service), bands=vols)]
    c.unit('U2', kind, dict(InitialMW=50.0, SCADARampUpRate=900.0, SCADARampDnRate=900.0, AGCStatus=1.0), trades=trades)
    sure = others(c)
    s = 'load' if kind == 'LOAD' else 'generator'
    sure.add(('U2', 'energy', s))
    judge(E, c, NEW, sure, {('U2', SERVICES[BID[service]], s): vols[at] > 0})


def bdu(E, service, direction, energy, full):
    """A contingency offer of a bidirectional unit."""
    c = Case(E)
    a, bands, ok = side(E, 'o', True)
    mw, initial = start(E)
    agc_, on = status(E, (0, 1) if full else (0,))
    caps = dict(GEN=E.int('capg', 0, 120), LOAD=E.int('capl', 0, 120))
    trades = [plain_trade('BDOF', d, MaxAvail=caps[d]) for d in energy]
    trades.append(dict(type=service, direction=direction, attrs=a, bands=bands, prices=[3.0] * 10))
    c.unit('U2', 'BIDIRECTIONAL', dict(InitialMW=mw, SCADARampUpRate=900.0, SCADARampDnRate=900.0, **agc_), trades=trades)
    sure = others(c) | {('U2', 'energy', {'GEN': 'generator', 'LOAD': 'load'}[d]) for d in energy}
    d = direction or 'GEN'
    conds = [ok, a['EnablementMin'] <= initial, initial <= a['EnablementMax']]
    if d in energy:
        conds.append(caps[d] >= a['EnablementMin'])
    if d == 'GEN':
        conds.append(a['EnablementMax'] >= 0)
        if 'LOAD' in energy:
            conds.append(-caps['LOAD'] <= a['EnablementMax'])
    else:
        conds.append(a['EnablementMin'] <= 0)
    judge(E, c, NEW, sure, {('U2', SERVICES[BID[service]], 'generator' if d == 'GEN' else 'load'): E.And(*conds)})


def bdu_reg(E, service, sides, energy, full):
    """Regulation offers of a bidirectional unit: the range runs from the load side's minimum to the generation side's maximum."""
    c = Case(E)
    few = len(sides) == 2 and not full
    offers = {d: side(E, d, True, few=True, fixed=few) for d in sides}
    mw, initial = start(E, exact=few)
    agc_, on = status(E, (1,) if few else (0, 1, 2))
    caps = dict(GEN=E.int('capg', 0, 120), LOAD=E.int('capl', 0, 120))
    trades = [plain_trade('BDOF', d, MaxAvail=caps[d]) for d in energy]
    trades += [dict(type=service, direction=d, attrs=o[0], bands=o[1], prices=[3.0] * 10) for d, o in offers.items()]
    c.unit('U2', 'BIDIRECTIONAL', dict(InitialMW=mw, SCADARampUpRate=900.0, SCADARampDnRate=900.0, **agc_), trades=trades)
    sure = others(c) | {('U2', 'energy', {'GEN': 'generator', 'LOAD': 'load'}[d]) for d in energy}
    able = {d: E.And(o[2], caps[d] >= o[0]['EnablementMin']) if d in energy else o[2] for d, o in offers.items()}
    want = {}
    for d, (a, bands, ok) in offers.items():
        lo, hi = a['EnablementMin'], a['EnablementMax']
        if d == 'GEN' and 'LOAD' in offers:
            lo = E.If(able['LOAD'], offers['LOAD'][0]['EnablementMin'], lo)
        if d == 'LOAD' and 'GEN' in offers:
            hi = E.If(able['GEN'], offers['GEN'][0]['EnablementMax'], hi)
        conds = [able[d], lo <= initial, initial <= hi]
        if d == 'GEN':
            conds.append(a['EnablementMax'] >= 0)
        else:
            conds.append(a['EnablementMin'] <= 0)
            if d in energy:
                conds.append(-caps[d] <= a['EnablementMax'])
        want['U2', SERVICES[BID[service]], 'generator' if d == 'GEN' else 'load'] = E.And(*conds) if on else False
    judge(E, c, NEW, sure, want)


def cases(tier):
    from vlib.runner import Case as C
    full = tier != 'quick'
    out = []
    for kind, services in (('GENERATOR', ('R5RE', 'L5RE', 'R6SE')), ('LOAD', ('R5RE', 'L60S')), ('WDR', ('L1SE',))):
        for service in services:
            for energy in (True, False) if kind == 'GENERATOR' and (full or service != 'L5RE') else (True,):
                out.append(C('_'.join((kind[:3], service, 'energy' if energy else 'alone')).lower(), one,
                             dict(kind=kind, service=service, energy=energy, forecast=False, interval=NEW)))
            if kind == 'GENERATOR' and (full or service != 'R5RE'):
                out += [C('_'.join((kind[:3], service, 'uigf', n)).lower(), one, dict(kind=kind, service=service, energy=True, forecast=True, interval=i))
                        for n, i in (('new', NEW), ('old', OLD))]
    out += [C('bands_' + s.lower(), bands, dict(service=s, kind=k)) for s, k in (('R6SE', 'GENERATOR'), ('L5RE', 'LOAD'))]
    for service, d in (('R6SE', None), ('L5MI', 'GEN'), ('R1SE', 'LOAD'), ('L60S', 'LOAD')):
        for energy in (('GEN', 'LOAD'), ('LOAD',), ('GEN',)) if full or service in ('R6SE', 'R1SE') else (('LOAD', 'GEN'),):
            out.append(C('_'.join(('bdu', service, d or 'none') + energy).lower(), bdu, dict(service=service, direction=d, energy=energy, full=full)))
    for service, sides, energy in (('R5RE', ('GEN', 'LOAD'), ('LOAD', 'GEN')), ('L5RE', ('LOAD', 'GEN'), ('GEN', 'LOAD')), ('R5RE', ('LOAD',), ('GEN', 'LOAD')),
                                   ('L5RE', ('GEN',), ('GEN', 'LOAD')), ('L5RE', ('LOAD', 'GEN'), ('GEN',)), ('R5RE', ('LOAD', 'GEN'), ('LOAD',))):
        out.append(C('_'.join(('bdureg', service) + sides + ('energy',) + energy).lower(), bdu_reg, dict(service=service, sides=sides, energy=energy, full=full)))
    return out
