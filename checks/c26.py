"""Sequential dispatch carries outputs into the next interval."""
from .nemde import same_rows

META = dict(
    bounds='up to seven units: generators, loads, a bidirectional unit, units without dispatch, without rates, only enabled for FCAS; tables with '
           'and without the optional columns and in any order; one to two intervals carried; every dispatch and rate arbitrary',
    outside='ramp rate tables with missing rates',
)


def table(rows, cols):
    import pandas as pd
    return pd.DataFrame({c: [r[c] for r in rows] for c in cols})


def carry(E, service, types, bdu, order):
    from nempy import time_sequential as ts
    d = lambda n, t, s='energy': dict(unit=n, dispatch_type=t, service=s, dispatch=E.real('d%s%s%s' % (n, t[0], s), 0, 1000))
    rows = [d('B', 'generator'), d('A', 'load'), d('X', 'generator')]
    out = {'B': rows[0]['dispatch'], 'A': rows[1]['dispatch']}
    if bdu:
        rows += [d('C', 'load'), d('C', 'generator')]
        out['C'] = rows[-1]['dispatch'] - rows[-2]['dispatch']
    if service:
        rows = [d('B', 'generator', 'raise_reg')] + rows + [d('A', 'load', 'lower_6s'), d('F', 'generator', 'raise_6s')]
        if bdu:
            rows.insert(3, d('C', 'load', 'raise_reg'))
    rows = rows[::-1] if order else rows
    keys = ['unit'] + (['dispatch_type'] if types else [])
    rate = lambda n, t: dict(unit=n, dispatch_type=t, ramp_up_rate=E.real('u%s%s' % (n, t[0]), 0, 6000), ramp_down_rate=E.real('w%s%s' % (n, t[0]), 0, 6000))
    rates = [rate('A', 'load'), rate('D', 'generator'), rate('B', 'generator'), rate('F', 'generator')]
    if bdu:
        rates += [rate('C', 'generator')] + ([rate('C', 'load')] if types else [])
    cols = keys + (['service'] if service else []) + ['dispatch']
    if bdu and not types:
        cols.insert(1, 'dispatch_type')
    last, given = table(rows, cols), table(rates, keys + ['ramp_up_rate', 'ramp_down_rate'])
    want = {tuple(r[k] for k in keys): dict(initial_output=out.get(r['unit'], 0.0), ramp_up_rate=r['ramp_up_rate'], ramp_down_rate=r['ramp_down_rate']) for r in rates}
    cols = ['initial_output', 'ramp_up_rate', 'ramp_down_rate']
    for again in range(2):
        same_rows(E, 'carried', ts.construct_ramp_rate_parameters(last, given), want, keys, cols)


def seed(E, types, order):
    from nempy import time_sequential as ts
    rows = [dict(unit=n, initial_output=E.real('i' + n, -500, 1000)) for n in ('B', 'A', 'C', 'X')][::-1 if order else 1]
    rate = lambda n, t: dict(unit=n, dispatch_type=t, ramp_up_rate=E.real('u%s%s' % (n, t[0]), 0, 6000), ramp_down_rate=E.real('w%s%s' % (n, t[0]), 0, 6000))
    rates = [rate('A', 'load'), rate('C', 'generator'), rate('B', 'generator')] + ([rate('C', 'load')] if types else [])
    keys = ['unit'] + (['dispatch_type'] if types else [])
    got = ts.create_seed_ramp_rate_parameters(table(rows, ['unit', 'initial_output']), table(rates, keys + ['ramp_up_rate', 'ramp_down_rate']))
    out = {r['unit']: r['initial_output'] for r in rows}
    want = {tuple(r[k] for k in keys): dict(initial_output=out[r['unit']], ramp_up_rate=r['ramp_up_rate'], ramp_down_rate=r['ramp_down_rate']) for r in rates}
    same_rows(E, 'seed', got, want, keys, ['initial_output', 'ramp_up_rate', 'ramp_down_rate'])


def cases(tier):
    from vlib.runner import Case as C
    out = [C('carry%d%d%d%d' % (s, t, b, o), carry, dict(service=bool(s), types=bool(t), bdu=bool(b), order=bool(o)))
           for s in (0, 1) for t in (0, 1) for b in (0, 1) for o in (0, 1)]
    return out + [C('seed%d%d' % (t, o), seed, dict(types=bool(t), order=bool(o))) for t in (0, 1) for o in (0, 1)]
