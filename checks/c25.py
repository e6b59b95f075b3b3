"""Fast start units move through their modes by elapsed time."""
from .hist import *

META = dict(
    bounds='two fast start units in every pair of modes (quick: half of the pairs, lengths of the second unit fixed), with any time in mode, mode lengths of 0 to 60 minutes, any unconstrained '
           'dispatch, beside other units and services; with and without intervention',
    outside='uncommitted units with time in mode; modes already longer than their length; bidirectional fast start units; units the unconstrained '
            'run does not report',
)
LEN = ('T1', 'T2', 'T3', 'T4')
COLS = dict(MinLoadingMW='min_loading', T1='mode_one_length', T2='mode_two_length', T3='mode_three_length', T4='mode_four_length')


def profile(E, n, mode, lengths=None):
    f = dict(zip(LEN, lengths)) if lengths else {t: E.int(n + t, 0, 60) for t in LEN}
    f['CurrentMode'] = mode
    f['MinLoadingMW'] = E.int(n + 'min', 0, 100)
    f['CurrentModeTime'] = 0 if mode == 0 else E.int(n + 'time', 0, 60)
    if mode in (1, 2, 3):
        E.assume(f['CurrentModeTime'] <= f['T%d' % mode])
    return f


def expected(E, f, dispatch):
    """End mode, time in it, and time since the end of mode two (None: not passed in this interval)."""
    mode, time, left, since = f['CurrentMode'], f['CurrentModeTime'], 5.0, None
    if mode == 0:
        if not E.decide(dispatch > 0):
            return 0, 0.0, None
        mode = 1
    while mode < 4:
        rest = f['T%d' % mode] - time
        if not E.decide(rest < left):
            break
        left, time = left - rest, 0.0
        if mode == 2:
            since = left
        mode += 1
    time = time + left
    return mode, E.Min(time, f['T4']) if mode == 4 else time, since


def modes(E, a, b, intervention, full):
    import pandas as pd
    c = Case(E)
    c.intervention = intervention
    fs = {'U2': profile(E, 'A', a), 'U1': profile(E, 'B', b, None if full else (7, 3, 1, 12))}
    d = {n: E.real('d' + n, 0, 500) for n in fs}
    for n, f in fs.items():
        w = 'WhatIf' if intervention else ''
        g = {w + k if k in ('CurrentMode', 'CurrentModeTime') else k: v for k, v in f.items()}
        if intervention:
            g.update(CurrentMode=(f['CurrentMode'] + 3) % 5, CurrentModeTime=1)
        c.unit(n, initial=PLAIN_INITIAL, fast=g, trades=[plain_trade('ENOF'), plain_trade('R5RE')])
    c.unit('U3', initial=PLAIN_INITIAL, trades=[plain_trade('ENOF')])
    u = unit_data(E, c)
    rows = [('U2', 'raise_reg', 7.5), ('U3', 'energy', 11.5), ('U1', 'energy', d['U1']), ('U2', 'energy', d['U2']), ('U1', 'lower_6s', 3.5)]
    table = lambda: pd.DataFrame(dict(unit=[r[0] for r in rows], dispatch_type='generator', service=[r[1] for r in rows], dispatch=[r[2] for r in rows]))
    same_rows(E, 'current-mode', u.get_fast_start_profiles_for_dispatch(), {(n,): {'current_mode': f['CurrentMode']} for n, f in fs.items()},
              ['unit'], ['current_mode'])
    want = {n: expected(E, f, d[n]) for n, f in fs.items()}
    for again in range(2):
        every = again == 1
        got = u.get_fast_start_profiles_for_dispatch(table(), return_all_columns=every)
        E.true('profiles-rows', sorted(got['unit']) == sorted(fs))
        for i in range(len(got)):
            r = got.iloc[i]
            f, (mode, time, since) = fs[r['unit']], want[r['unit']]
            for k in COLS if every else ('MinLoadingMW', 'T2', 'T4'):
                E.close('profile-' + COLS[k], r[COLS[k]], f[k])
            E.true('end-mode', r['end_mode'] == mode, detail='%s -> %s not %s' % (f['CurrentMode'], r['end_mode'], mode))
            E.close('time-in-end-mode', r['time_in_end_mode'], time)
            if since is not None:
                E.true('time-since-mode-two', not missing(r['time_since_end_of_mode_two']))
                E.close('time-since-mode-two', r['time_since_end_of_mode_two'], since)
            else:
                E.true('no-time-since-mode-two', missing(r['time_since_end_of_mode_two']), detail=str(r['time_since_end_of_mode_two']))


def cases(tier):
    from vlib.runner import Case as C
    pairs = [(a, (a + s) % 5) for a in range(5) for s in ((2, 4) if tier == 'quick' else range(5))]
    return [C('modes%d%d%s' % (a, b, '_int' if i else ''), modes, dict(a=a, b=b, intervention=i, full=tier != 'quick')) for a, b in pairs for i in ((False, True) if b == (a + 2) % 5 else (False,))]
