"""Historical unit data reach the market unchanged in meaning."""
from .hist import *

META = dict(
    bounds='four units (generator, load, bidirectional with and without a secondary loss factor, demand response) with energy and FCAS offers, '
           'directions given or missing, one or no unit unknown to the unit details, forecasts, telemetry partly missing, before and after July 2023; '
           'every loss factor, band, price, rate, availability, forecast and initial output arbitrary',
    outside='FCAS offers that cannot be enabled (C20) and their trapeziums (C19); units with several detail rows',
)
DIR = {'GEN': 'generator', 'LOAD': 'load'}


def fcas(E, n, typ, direction=None):
    t = plain_trade(typ, direction)
    t['attrs'].update(EnablementMin=-100.0, EnablementMax=600.0)
    t['bands'] = [E.real('%sb%d' % (n, b), 0.5, 500) if b in (1, 2, 10) else float(b) for b in BANDS]
    t['prices'] = [E.real('%sp%d' % (n, b), 0, 17500) if b in (1, 9, 10) else float(b) for b in BANDS]
    return t


def energy(E, n, typ, direction=None, ramps=True):
    t = plain_trade(typ, direction)
    t['attrs'] = dict(MaxAvail=E.real(n + 'max', 0, 500))
    if ramps:
        t['attrs'].update(RampUpRate=E.real(n + 'up', 0, 6000), RampDnRate=E.real(n + 'dn', 0, 6000))
    t['bands'] = [E.real('%sb%d' % (n, b), 0, 500) for b in BANDS]
    t['prices'] = [E.real('%sp%d' % (n, b), -1000, 17500) for b in BANDS]
    return t


def units(E, mix, interval, text):
    c = Case(E)
    f = lambda n, *r: E.real(n, *(r or (0.5, 1.5)))
    details, info = [], {}

    def add(n, kind, trades, init, region, second=None, uigf=None, known=True):
        c.unit(n, kind, init, trades=trades, uigf=uigf)
        if known:
            tlf, dlf = f(n + 'tlf'), f(n + 'dlf')
            details.insert(0, detail(n, kind, tlf, dlf, None if second is None else E.leaf(second) if text else second, region))
            for t in trades:
                d = DIR[t['direction'] or ('LOAD' if kind == 'LOAD' else 'GEN')]
                info[n, d, region] = (second if second is not None and kind == 'BIDIRECTIONAL' and d == 'generator' else tlf) * dlf

    def conds(n, *names):
        return {k: f(n + k, *((-20, 500) if k == 'InitialMW' else (1, 6000))) for k in names} | {'AGCStatus': 1.0}
    known = E.pick('known', [True, False])
    if mix == 0:
        add('U2', 'GENERATOR', [energy(E, 'ga', 'ENOF'), fcas(E, 'gb', 'R6SE'), fcas(E, 'gc', 'L5RE')], conds('U2', 'InitialMW', 'SCADARampUpRate', 'SCADARampDnRate'), 'NSW1', second=f('U2s'))
        add('U10', 'LOAD', [fcas(E, 'la', 'L5MI'), energy(E, 'lb', 'LDOF')], conds('U10', 'SCADARampDnRate', 'InitialMW'), 'QLD1', known=known)
        add('U1', 'BIDIRECTIONAL', [energy(E, 'ba', 'BDOF', 'LOAD'), energy(E, 'bb', 'BDOF', 'GEN'), fcas(E, 'bc', 'R1SE'), fcas(E, 'bd', 'L5RE', 'LOAD')],
            conds('U1', 'InitialMW', 'SCADARampUpRate'), 'SA1', second=f('U1s'))
        add('U3', 'GENERATOR', [energy(E, 'fa', 'ENOF')], conds('U3', 'InitialMW'), 'NSW1', uigf=f('U3u', 0, 400))
    else:
        add('U1', 'BIDIRECTIONAL', [energy(E, 'ba', 'BDOF', 'GEN'), fcas(E, 'bc', 'R5RE', 'LOAD'), fcas(E, 'bd', 'R5RE', 'GEN'), energy(E, 'bb', 'BDOF', 'LOAD')],
            conds('U1', 'SCADARampUpRate', 'SCADARampDnRate', 'InitialMW'), 'VIC1', second=f('U1s') if mix == 2 else None)
        add('U10', 'WDR', [energy(E, 'wa', 'DROF', ramps=False)], conds('U10', 'InitialMW'), 'TAS1')
        add('U2', 'GENERATOR', [fcas(E, 'gb', 'L60S'), energy(E, 'ga', 'ENOF')], conds('U2', 'SCADARampDnRate', 'InitialMW'), 'VIC1', uigf=f('U2u', 0, 400), known=known)
        add('U3', 'NORMALLY_ON_LOAD', [energy(E, 'na', 'LDOF')], conds('U3', 'InitialMW', 'SCADARampUpRate', 'SCADARampDnRate'), 'NSW1', second=f('U3s'))
    # FCAS offers are inside their ranges
    for u in c.units:
        if any(BID[t['type']] != 'ENERGY' for t in u['trades']):
            E.assume(u['initial']['InitialMW'] >= 1)
            if u['uigf'] is not None:
                E.assume(u['initial']['InitialMW'] + 1 <= u['uigf'])
    d = unit_data(E, c, interval, details)
    # unit information
    side = lambda u, t: DIR[t['direction'] or ('LOAD' if u['kind'] == 'LOAD' else 'GEN')]
    same_rows(E, 'unit-info', d.get_unit_info(), {k: {'loss_factor': v} for k, v in info.items()}, ['unit', 'dispatch_type', 'region'], ['loss_factor'])
    en = {(u['name'], side(u, t)): (u, t) for u in c.units for t in u['trades'] if BID[t['type']] == 'ENERGY'}
    # availability, forecasts, rates, initial output
    drop = {u['name'] for u in c.units if u['uigf'] is not None} if interval < NEW_RULES else set()
    same_rows(E, 'availability', d.get_unit_bid_availability(), {k: {'capacity': t['attrs']['MaxAvail']} for k, (u, t) in en.items() if k[0] not in drop},
              ['unit', 'dispatch_type'], ['capacity'])
    same_rows(E, 'forecast', d.get_unit_uigf_limits(), {(u['name'],): {'capacity': u['uigf']} for u in c.units if u['uigf'] is not None}, ['unit'], ['capacity'])
    same_rows(E, 'bid-ramp-rates', d.get_bid_ramp_rates(), {k: dict(ramp_up_rate=t['attrs'].get('RampUpRate'), ramp_down_rate=t['attrs'].get('RampDnRate'),
              initial_output=u['initial']['InitialMW']) for k, (u, t) in en.items()}, ['unit', 'dispatch_type'], ['ramp_up_rate', 'ramp_down_rate', 'initial_output'])
    scada = {(u['name'],): dict(scada_ramp_up_rate=u['initial'].get('SCADARampUpRate'), scada_ramp_down_rate=u['initial'].get('SCADARampDnRate')) for u in c.units
             if 'SCADARampUpRate' in u['initial'] or 'SCADARampDnRate' in u['initial']}
    same_rows(E, 'scada-ramp-rates', d.get_scada_ramp_rates(), scada, ['unit'], ['scada_ramp_up_rate', 'scada_ramp_down_rate'])
    out = {u['name']: u['initial']['InitialMW'] for u in c.units}
    same_rows(E, 'scada-ramp-rates-with-output', d.get_scada_ramp_rates(inlude_initial_output=True), {k: dict(v, initial_output=out[k[0]]) for k, v in scada.items()},
              ['unit'], ['scada_ramp_up_rate', 'scada_ramp_down_rate', 'initial_output'])
    same_rows(E, 'initial-output', d.get_initial_unit_output(), {(n,): {'initial_output': x} for n, x in out.items()}, ['unit'], ['initial_output'])
    # bids
    vol, price = {}, {}
    for u in c.units:
        if u['name'] not in {k[0] for k in info}:
            continue
        for t in u['trades']:
            k = u['name'], SERVICES[BID[t['type']]], side(u, t)
            lf = [v for i, v in info.items() if i[:2] == (k[0], k[2])][0]
            vol[k] = {str(b): x for b, x in zip(BANDS, t['bands'])}
            price[k] = {str(b): x * lf if k[1] == 'energy' else x for b, x in zip(BANDS, t['prices'])}
    v, p = d.get_processed_bids()
    bands = [str(b) for b in BANDS]
    same_rows(E, 'volume-bids', v, vol, ['unit', 'service', 'dispatch_type'], bands)
    same_rows(E, 'price-bids', p, price, ['unit', 'service', 'dispatch_type'], bands)
    # nothing was changed by processing the bids
    same_rows(E, 'availability-again', d.get_unit_bid_availability(), {k: {'capacity': t['attrs']['MaxAvail']} for k, (u, t) in en.items() if k[0] not in drop},
              ['unit', 'dispatch_type'], ['capacity'])
    v, p = d.get_processed_bids()
    same_rows(E, 'price-bids-again', p, price, ['unit', 'service', 'dispatch_type'], bands)


def cases(tier):
    from vlib.runner import Case as C
    return [C('units%d_%s%s' % (m, 'old' if i == OLD else 'new', '_text' if t else ''), units, dict(mix=m, interval=i, text=t))
            for m in (0, 1, 2) for i in (NEW, OLD) for t in (False, True)]
