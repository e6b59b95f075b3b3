"""Ill-formed inputs are rejected and well-formed ones accepted."""
import copy
import numpy as np
import pandas as pd
from . import problems
from vlib import stubs
from vlib.env import SolverRejects

META = dict(
    bounds='every input table of the market, each of 2 to 8 rows, on a market of 2 regions and 3 units (generator, load, bidirectional) '
           'with every input set; one fault at a time, of every kind, in every column and row, with the numbers of the table symbolic; '
           'every number of one numeric column at a time symbolic in +/-10000',
    outside='validate_inputs=False; several faults at once; negative demand and FCAS volumes (accepted: historical demand can be '
            'negative) and missing or infinite telemetered ramp rates (accepted: telemetry can be missing), although the method '
            'documentation mentions them; repeated break points; which of the documented errors is raised; price bids that do not '
            'increase with the band (known finding)',
)
ERRORS = ('RepeatedRowError', 'ColumnDataTypeError', 'MissingColumnError', 'UnexpectedColumn', 'ColumnValues', 'ModelBuildError',
          'BidsNotMonotonicIncreasing', 'ValueError')
ALL = ['energy', 'raise_reg', 'lower_reg', 'raise_5min', 'lower_5min', 'raise_60s', 'lower_60s', 'raise_6s', 'lower_6s', 'raise_1s', 'lower_1s']
FCAS = ALL[1:]
REG = ['raise_reg', 'lower_reg']
CONT = ALL[3:]
UNITS = ['g1', 'l1', 'b1']
SIDES = [('g1', 'generator'), ('l1', 'load'), ('b1', 'generator'), ('b1', 'load')]


class C:
    def __init__(self, kind, opt=False, allowed=None, real=False, nonneg=False, most=None):
        self.kind, self.opt, self.allowed, self.real, self.nonneg, self.most = kind, opt, allowed, real, nonneg, most


def name(allowed=None, **k):
    return C('str', allowed=allowed, **k)


def number(**k):
    return C('float', **k)


UNIT = lambda: name(UNITS)
REGION = lambda: name(['A', 'B'])
SIDE = lambda **k: name(['generator', 'load'], **k)


class Table:
    def __init__(self, cols, keys, rows, call):
        self.cols, self.keys, self.rows, self.call = cols, keys, rows, call

    def frame(self, rows, drop=()):
        df = {}
        for c in rows[0]:
            if c in drop:
                continue
            v = [r[c] for r in rows]
            if c in self.cols and self.cols[c].kind == 'float' and all(isinstance(x, (int, float)) for x in v) or \
                    c in self.cols and self.cols[c].kind == 'int':
                df[c] = v
            else:
                a = np.empty(len(v), dtype=object)
                a[:] = v
                df[c] = a
        return pd.DataFrame(df)


def bid_rows(lo, step):
    out, x = [], lo
    for u, t in SIDES:
        for s in dict(g1=('energy', 'raise_reg', 'raise_6s'), l1=('energy', 'lower_reg', 'lower_60s'), b1=('energy', 'raise_reg'))[u]:
            out.append({'unit': u, 'dispatch_type': t, 'service': s, '1': x, '2': x + step, '3': x + 2 * step})
            x += 1.0
    return out


def bands(**k):
    return {'1': number(real=True, **k), '2': number(real=True, opt=True, **k), '3': number(real=True, opt=True, **k)}


def trap_rows(services, sides):
    return [dict(unit=u, service=s, dispatch_type=t, max_availability=20.0 + i, enablement_min=1.0 + i, low_break_point=10.0 + i, high_break_point=60.0 + i,
                 enablement_max=90.0 + i) for i, (s, (u, t)) in enumerate((s, x) for s in services for x in sides)]


def trap_cols(services):
    return dict(unit=UNIT(), service=name(services), dispatch_type=SIDE(opt=True), max_availability=number(real=True, nonneg=True),
                enablement_min=number(real=True), low_break_point=number(real=True), high_break_point=number(real=True), enablement_max=number(real=True))


def loss(k):
    return lambda x: k * float(x) * float(x) / 1000.0


RAMP = [dict(unit=u, dispatch_type=t, initial_output=5.0 + i if u != 'b1' else 3.0, ramp_up_rate=300.0 + i, ramp_down_rate=400.0 + i) for i, (u, t) in enumerate(SIDES)]
INTER = [dict(interconnector='I1', link='fwd', from_region='A', to_region='B', max=90.0, min=0.0, generic_constraint_factor=1, from_region_loss_factor=1.01, to_region_loss_factor=0.98),
         dict(interconnector='I1', link='back', from_region='B', to_region='A', max=80.0, min=0.0, generic_constraint_factor=-1, from_region_loss_factor=0.97, to_region_loss_factor=1.02),
         dict(interconnector='I2', link='fwd', from_region='A', to_region='B', max=70.0, min=-60.0, generic_constraint_factor=1, from_region_loss_factor=1.03, to_region_loss_factor=0.99)]
LOSS = [dict(interconnector=r['interconnector'], link=r['link'], loss_function=loss(i + 1), from_region_loss_share=0.3 + i / 10) for i, r in enumerate(INTER)]
BREAKS = [dict(interconnector=r['interconnector'], link=r['link'], loss_segment=j, break_point=x)
          for i, r in enumerate(INTER) for j, x in enumerate([-65.0 - i if r['min'] < 0 else 0.0, 50.0 + i, 100.0 + i])]
COST = [dict(set=s, cost=20.0 + i) for i, s in enumerate(('G1', 'G2', 'G3'))]
GENERIC = [dict(set='G1', type='<=', rhs=55.0), dict(set='G2', type='>=', rhs=5.0), dict(set='G3', type='=', rhs=15.0)]
FS1 = [dict(unit=u, current_mode=m) for u, m in (('g1', 3), ('l1', 4))]
FS2 = [dict(unit='g1', end_mode=3, min_loading=4.0, time_since_end_of_mode_two=2.0), dict(unit='l1', end_mode=4, min_loading=3.0, time_since_end_of_mode_two=6.0)]
SCADA = [dict(unit=u, initial_output=4.0 + i, scada_ramp_up_rate=500.0 + i, scada_ramp_down_rate=600.0 + i) for i, u in enumerate(UNITS)]
FS1_COLS = lambda: dict(unit=UNIT(), current_mode=C('int', nonneg=True))
FS2_COLS = lambda: dict(unit=UNIT(), end_mode=C('int', nonneg=True), min_loading=number(real=True, nonneg=True), time_since_end_of_mode_two=number(nonneg=True))


def table(rows):
    t = Table({c: None for c in rows[0]}, [], rows, None)
    t.cols = {c: C('float' if isinstance(rows[0][c], float) else 'int' if isinstance(rows[0][c], int) else 'str') for c in rows[0]}
    return t.frame(rows)


TABLES = {
    'volume_bids': Table(dict(unit=UNIT(), dispatch_type=SIDE(), service=name(ALL, opt=True), **bands(nonneg=True)), ['unit', 'service', 'dispatch_type'],
                         bid_rows(30.0, 7.0), lambda m, df: m.set_unit_volume_bids(df)),
    'price_bids': Table(dict(unit=UNIT(), dispatch_type=SIDE(), service=name(ALL, opt=True), **bands()), ['unit', 'service', 'dispatch_type'],
                        bid_rows(-40.0, 50.0), lambda m, df: m.set_unit_price_bids(df)),
    'capacity': Table(dict(unit=UNIT(), dispatch_type=SIDE(), capacity=number(real=True, nonneg=True)), ['unit', 'dispatch_type'],
                      [dict(unit=u, dispatch_type=t, capacity=50.0 + i) for i, (u, t) in enumerate(SIDES)],
                      lambda m, df: m.set_unit_bid_capacity_constraints(df, violation_cost=31.0)),
    'uigf': Table(dict(unit=UNIT(), capacity=number(real=True, nonneg=True)), ['unit'], [dict(unit='g1', capacity=45.0), dict(unit='l1', capacity=44.0)],
                  lambda m, df: m.set_unconstrained_intermittent_generation_forecast_constraint(df, violation_cost=32.0)),
    'ramp': Table(dict(unit=UNIT(), dispatch_type=SIDE(), initial_output=number(real=True), ramp_up_rate=number(real=True, nonneg=True),
                       ramp_down_rate=number(real=True, nonneg=True)), ['unit', 'dispatch_type'], RAMP,
                  lambda m, df: m.set_unit_ramp_rate_constraints(df, violation_cost=33.0)),
    'ramp_scada': Table(dict(unit=UNIT(), scada_ramp_up_rate=number(opt=True), scada_ramp_down_rate=number(opt=True)), ['unit'],
                        [{k: v for k, v in r.items() if k != 'initial_output'} for r in SCADA],
                        lambda m, df: m.set_unit_ramp_rate_constraints(table(RAMP), scada_ramp_rates=df, violation_cost=33.0)),
    'ramp_fast_start_1': Table(FS1_COLS(), ['unit'], FS1, lambda m, df: m.set_unit_ramp_rate_constraints(
        table(RAMP), fast_start_profiles=df, run_type='fast_start_first_run', violation_cost=33.0)),
    'ramp_fast_start_2': Table(FS2_COLS(), ['unit'], FS2, lambda m, df: m.set_unit_ramp_rate_constraints(
        table(RAMP), fast_start_profiles=df, run_type='fast_start_second_run', violation_cost=33.0)),
    'fast_start': Table(dict(unit=UNIT(), end_mode=C('int', nonneg=True), time_in_end_mode=number(real=True, nonneg=True), mode_two_length=number(real=True, nonneg=True),
                             mode_four_length=number(real=True, nonneg=True), min_loading=number(real=True, nonneg=True)), ['unit'],
                        [dict(unit='g1', end_mode=2, time_in_end_mode=2.0, mode_two_length=6.0, mode_four_length=7.0, min_loading=9.0),
                         dict(unit='l1', end_mode=4, time_in_end_mode=3.0, mode_two_length=5.0, mode_four_length=8.0, min_loading=8.0)],
                        lambda m, df: m.set_fast_start_constraints(df, violation_cost=34.0)),
    'demand': Table(dict(region=REGION(), demand=number(real=True)), ['region'], [dict(region='A', demand=20.0), dict(region='B', demand=10.0)],
                    lambda m, df: m.set_demand_constraints(df, violation_cost=35.0)),
    'fcas_requirements': Table(dict(set=name(), region=REGION(), service=name(ALL), volume=number(real=True), type=name(['<=', '=', '>='], opt=True)), ['set', 'region', 'service'],
                               [dict(set='R1', region='A', service='raise_reg', volume=7.0, type='>='), dict(set='R1', region='B', service='raise_reg', volume=7.0, type='>='),
                                dict(set='R2', region='A', service='raise_reg', volume=3.0, type='<=')],
                               lambda m, df: m.set_fcas_requirements_constraints(df, violation_cost=36.0)),
    'fcas_max': Table(dict(unit=UNIT(), service=name(FCAS), dispatch_type=SIDE(opt=True), max_availability=number(real=True, nonneg=True)), ['unit', 'service', 'dispatch_type'],
                      [dict(unit=u, service=s, dispatch_type=t, max_availability=11.0 + i) for i, (u, t, s) in enumerate(
                          (u, t, s) for u, t in SIDES for s in (['raise_reg', 'raise_6s'] if u != 'b1' else ['raise_reg']))],
                      lambda m, df: m.set_fcas_max_availability(df, violation_cost=37.0)),
    'joint_ramping': Table(dict(unit=UNIT(), initial_output=number(), scada_ramp_up_rate=number(), scada_ramp_down_rate=number()), ['unit'], SCADA,
                           lambda m, df: m.set_joint_ramping_constraints_reg(df, violation_cost=38.0)),
    'joint_ramping_fast_start_1': Table(FS1_COLS(), ['unit'], FS1, lambda m, df: m.set_joint_ramping_constraints_reg(
        table(SCADA), fast_start_profiles=df, run_type='fast_start_first_run', violation_cost=38.0)),
    'joint_ramping_fast_start_2': Table(FS2_COLS(), ['unit'], FS2, lambda m, df: m.set_joint_ramping_constraints_reg(
        table(SCADA), fast_start_profiles=df, run_type='fast_start_second_run', violation_cost=38.0)),
    'joint_capacity': Table(trap_cols(CONT), ['unit', 'service', 'dispatch_type'], trap_rows(['raise_6s', 'lower_60s'], SIDES[:2]),
                            lambda m, df: m.set_joint_capacity_constraints(df, violation_cost=39.0)),
    'energy_regulation': Table(trap_cols(REG), ['unit', 'service', 'dispatch_type'], trap_rows(REG, SIDES),
                               lambda m, df: m.set_energy_and_regulation_capacity_constraints(df, violation_cost=40.0)),
    'interconnectors': Table(dict(interconnector=name(), link=name(opt=True), from_region=REGION(), to_region=REGION(), max=number(real=True), min=number(real=True),
                                  generic_constraint_factor=C('int', opt=True, allowed=[1, -1]), from_region_loss_factor=number(real=True, nonneg=True, opt=True),
                                  to_region_loss_factor=number(real=True, nonneg=True, opt=True)), ['interconnector', 'link'], INTER, lambda m, df: m.set_interconnectors(df)),
    'losses': Table(dict(interconnector=name(), link=name(opt=True), loss_function=C('call'), from_region_loss_share=number(real=True, nonneg=True, most=1.0)),
                    ['interconnector', 'link'], LOSS, lambda m, df: m.set_interconnector_losses(df, table(BREAKS))),
    'break_points': Table(dict(interconnector=name(), link=name(opt=True), loss_segment=C('int'), break_point=number(real=True)), ['interconnector', 'link', 'loss_segment'],
                          BREAKS, lambda m, df: m.set_interconnector_losses(table(LOSS), df)),
    'generic': Table(dict(set=name(), type=name(['<=', '=', '>=']), rhs=number(real=True)), ['set'], GENERIC,
                     lambda m, df: m.set_generic_constraints(df, violation_cost=41.0)),
    'link_units': Table(dict(set=name(), unit=UNIT(), service=name(ALL), coefficient=number(real=True)), ['set', 'unit', 'service'],
                        [dict(set='G1', unit='g1', service='energy', coefficient=0.5), dict(set='G1', unit='l1', service='energy', coefficient=0.6),
                         dict(set='G2', unit='g1', service='energy', coefficient=-0.7), dict(set='G2', unit='g1', service='raise_6s', coefficient=0.8)],
                        lambda m, df: m.link_units_to_generic_constraints(df)),
    'link_regions': Table(dict(set=name(), region=REGION(), service=name(ALL), coefficient=number(real=True)), ['set', 'region', 'service'],
                          [dict(set='G3', region='A', service='energy', coefficient=1.5), dict(set='G3', region='B', service='energy', coefficient=1.0),
                           dict(set='G2', region='B', service='energy', coefficient=1.2), dict(set='G2', region='B', service='lower_60s', coefficient=1.1)],
                          lambda m, df: m.link_regions_to_generic_constraints(df)),
    'link_interconnectors': Table(dict(set=name(), interconnector=name(), coefficient=number(real=True)), ['set', 'interconnector'],
                                  [dict(set='G1', interconnector='I1', coefficient=2.5), dict(set='G1', interconnector='I2', coefficient=-2.0),
                                   dict(set='G2', interconnector='I1', coefficient=2.2)], lambda m, df: m.link_interconnectors_to_generic_constraints(df)),
    'violation_cost': Table(dict(set=name(), cost=number(real=True)), ['set'], COST, lambda m, df: m.make_constraints_elastic('generic', df)),
}
UNIT_INFO = [dict(unit=u, region='B' if u == 'l1' else 'A', dispatch_type=t, loss_factor=0.9 + i / 20) for i, (u, t) in enumerate(SIDES)]
INFO = Table(dict(unit=name(), region=REGION(), dispatch_type=SIDE(), loss_factor=number(real=True, nonneg=True, opt=True)), ['unit', 'dispatch_type'], UNIT_INFO, None)
LATER = ('ramp_scada', 'ramp_fast_start_1', 'ramp_fast_start_2', 'joint_ramping_fast_start_1', 'joint_ramping_fast_start_2', 'violation_cost', 'break_points', 'fast_start')


def new(df):
    from nempy import markets
    return markets.SpotMarket(market_regions=['A', 'B'], unit_info=df)


BASE = {}


def base():
    """A market with every input set, all numbers concrete (built once per process, then copied)."""
    if not BASE:
        m = new(INFO.frame(UNIT_INFO))
        for n, t in TABLES.items():
            if n not in LATER:
                t.call(m, t.frame(t.rows))
        BASE['m'] = m
    return copy.deepcopy(BASE['m'])


class Solved(BaseException):
    pass


def problem(E, m):
    """The first problem the market hands to the solver."""
    n0 = 0 if E.symbolic else len(E.problems)
    if E.symbolic:
        got = []

        def answer(mm, k):
            blank = [E.z3.Real('unused%d' % j) for j in range(len(mm.vars))]
            got.append(problems.of_snapshot(E.fm.Snapshot(mm, blank, [])))
            raise Solved()
        E.fm.POLICY.pick = answer
        try:
            E.dispatch(m)
        except Solved:
            pass
        E.fm.POLICY.pick = None
        return got[0]
    try:
        E.dispatch(m)
    except SolverRejects:
        E.infeasible = False
    return E.problems[n0]


def base_problem(E):
    if 'p' not in BASE:
        BASE['p'] = problem(E, base())
    return BASE['p']


def kept(E, label, m):
    """The market still poses the problem of its previous inputs."""
    a, b = base_problem(E), problem(E, m)
    same = False
    try:
        same = [list(map(float, x.numbers())) for x in (a, b)]
        same = same[0] == same[1] and all(getattr(a, k) == getattr(b, k) for k in ('types', 'sos', 'names')) and \
            [(list(c), s) for c, s, r in a.rows] == [(list(c), s) for c, s, r in b.rows] and list(a.obj) == list(b.obj)
    except (TypeError, ValueError):
        pass
    if same:
        return E.true(label, True)
    problems.same(E, label, a, b)


def attempt(fn):
    """None if the call was accepted, else the error."""
    try:
        fn()
    except Exception as e:
        if type(e).__name__ not in ERRORS and type(e).__module__.split('.')[0] in ('vlib', 'z3', 'checks'):
            raise
        return e
    return None


def rejected(E, label, fn, detail):
    e = attempt(fn)
    E.true(label + '/rejected', e is not None, detail=detail + ': accepted')
    E.true(label + '/documented-error', type(e).__name__ in ERRORS, detail='%s: %s: %s' % (detail, type(e).__name__, e))


def wrong(kind):
    """A value of another type."""
    return dict(str=7, float='seven', int='seven', call=3.0)[kind]


def faults(t, all_values=False):
    """(label, rejected?, detail, rows, frame tweak) of every single fault, and of every permitted variation."""
    out = []
    n = len(t.rows)
    for c, s in t.cols.items():
        if s.opt:
            if c in ('dispatch_type', 'link') and len({tuple(r[k] for k in t.keys if k != c) for r in t.rows}) < n:
                continue                  # two rows would be the same without it
            if c == 'service':
                continue                  # the rows would all mean energy
            out.append(('optional-column', False, 'without column ' + c, t.rows, (c,), None))
        else:
            out.append(('missing-column', True, 'without column ' + c, t.rows, (c,), None))
        for i in range(n):
            bad = [dict(r) for r in t.rows]
            if s.kind != 'float' and s.kind != 'int':
                bad[i][c] = wrong(s.kind)
                out.append(('wrong-type', True, '%s = %r in row %d' % (c, bad[i][c], i), bad, (), None))
            if s.allowed is not None:
                bad = [dict(r) for r in t.rows]
                bad[i][c] = 2 if s.kind == 'int' else 'energy' if c == 'service' and 'energy' not in s.allowed else 'other'
                out.append(('value-not-allowed', True, '%s = %r in row %d' % (c, bad[i][c], i), bad, (), None))
            if s.real and s.kind == 'float':
                every = (float('nan'), float('inf'), -float('inf'))
                for v in every if n < 3 or all_values else (every[(i + len(out)) % 3],):
                    bad = [dict(r) for r in t.rows]
                    bad[i][c] = v
                    out.append(('not-a-number', True, '%s = %r in row %d' % (c, v, i), bad, (), None))
        if s.kind in ('float', 'int'):
            out.append(('wrong-type', True, c + ' as text', t.rows, (), (c, str)))
            out.append(('wrong-type', True, c + ' as ' + ('whole numbers' if s.kind == 'float' else 'floats'), t.rows, (), (c, np.int64 if s.kind == 'float' else np.float64)))
    for i in range(n):
        out.append(('repeated-row', True, 'row %d twice' % i, t.rows, (), i))
    out.append(('unknown-column', True, 'additional column', [dict(r, other=1.0) for r in t.rows], (), None))
    out.append(('valid', False, 'valid table', t.rows, (), None))
    return out


def numbers(E, t, rows, tag):
    """The table with its permitted finite floats replaced by symbolic ones near them (so that the table remains valid)."""
    out = []
    for i, r in enumerate(rows):
        d = {}
        for c, v in r.items():
            s = t.cols.get(c)
            if s is not None and s.kind == 'float' and isinstance(v, float) and v == v and abs(v) != float('inf') and c not in ('break_point', 'loss_function'):
                d[c] = E.real('%s_%s_%d' % (tag, c, i), v - 0.1, v + 0.1) if v else v
            else:
                d[c] = v
        out.append(d)
    return out


def build(E, t, rows, drop, tweak):
    if isinstance(tweak, int):
        again = numbers(E, t, [t.rows[tweak]], 'again')[0]
        df = t.frame(numbers(E, t, rows, 'n'), drop)
        return pd.concat([df, t.frame([again])], ignore_index=True)
    if tweak is not None:                 # types are those of whole columns: concrete numbers
        df = t.frame(rows, drop)
        c, typ = tweak
        stubs.STRICT[0] = True
        df[c] = [str(v) for v in df[c]] if typ is str else df[c].astype(typ)
        return df
    return t.frame(numbers(E, t, rows, 'n'), drop)


def faulty(E, table, part, parts):
    t = TABLES[table]
    E.steered = False
    E.keep_problems = problems.of_mip
    E.reset(assume_rows=False)
    stubs.STRICT[0] = False
    label, bad, detail, rows, drop, tweak = E.pick('fault', faults(t, E.tier == 'thorough')[part::parts])
    m = base()
    df = build(E, t, rows, drop, tweak)
    if not bad:
        e = attempt(lambda: t.call(m, df))
        return E.true(label + '/accepted', e is None, detail='%s: %s: %s' % (detail, type(e).__name__, e))
    rejected(E, label, lambda: t.call(m, df), detail)
    kept(E, label + '/inputs-kept', m)


def unit_info(E):
    stubs.STRICT[0] = False
    label, bad, detail, rows, drop, tweak = E.pick('fault', faults(INFO))
    df = build(E, INFO, rows, drop, tweak)
    if bad:
        rejected(E, label, lambda: new(df), detail)
    else:
        E.true(label + '/accepted', attempt(lambda: new(df)) is None, detail=detail)


def range_(E, table, col):
    """Every number of a column: accepted if and only if within the documented range."""
    stubs.STRICT[0] = False
    t = TABLES[table] if table else INFO
    s = t.cols[col]
    i = E.pick('row', list(range(len(t.rows))))
    rows = [dict(r) for r in t.rows]
    x = E.real('x', -10000, 10000)
    if s.nonneg:
        E.assume(E.Not(E.And(E.lt(-0.001, x), E.lt(x, 0))))       # margins: within them either answer will do
    if s.most is not None:
        E.assume(E.Not(E.And(E.lt(s.most, x), E.lt(x, s.most + 0.001))))
    if col == 'max_availability':
        E.assume(E.Not(E.And(E.lt(-0.001, x), E.lt(x, 0.001))))   # zero: see 'zero'
    rows[i][col] = x
    ok = []
    if s.nonneg:
        ok.append(E.leq(0, x))
    if s.most is not None:
        ok.append(E.leq(x, s.most))
    df = t.frame(rows)
    if table:
        m = base()
        e = attempt(lambda: t.call(m, df))
    else:
        e = attempt(lambda: new(df))
    if e is None:
        for c in ok:
            E.true('accepted-only-if-in-range', c)
    else:
        E.true('documented-error', type(e).__name__ in ERRORS, detail='%s: %s' % (type(e).__name__, e))
        E.true('rejected-only-if-out-of-range', E.Not(E.And(*ok)) if ok else False, detail=str(e))


def edge(E):
    """Zero, and a loss share of one, are in range."""
    stubs.STRICT[0] = False
    opts = [(n, c, i, v) for n, t in list(TABLES.items()) + [(None, INFO)] for c, s in t.cols.items() if s.nonneg and s.kind == 'float'
            for i in range(len(t.rows)) for v in ([0.0] if s.most is None else [0.0, s.most])]
    n, c, i, v = E.pick('where', opts)
    t = TABLES[n] if n else INFO
    rows = [dict(r) for r in t.rows]
    rows[i][c] = v
    df = t.frame(rows)
    if n:
        m = base()
        e = attempt(lambda: t.call(m, df))
    else:
        e = attempt(lambda: new(df))
    E.true('edge/accepted', e is None, detail='%s %s row %d = %r: %s: %s' % (n, c, i, v, type(e).__name__, e))


def negative(E):
    """Negative modes are rejected (whole number columns)."""
    stubs.STRICT[0] = False
    opts = [(n, c, i) for n, t in TABLES.items() for c, s in t.cols.items() if s.nonneg and s.kind == 'int' for i in range(len(t.rows))]
    n, c, i = E.pick('where', opts)
    t = TABLES[n]
    rows = [dict(r) for r in t.rows]
    rows[i][c] = -1
    m = base()
    rejected(E, 'negative-mode', lambda: t.call(m, t.frame(rows)), '%s %s row %d' % (n, c, i))


def order(E):
    """Inputs that refer to what is not there yet."""
    stubs.STRICT[0] = False
    E.steered = False
    E.keep_problems = problems.of_mip
    E.reset(assume_rows=False)
    what = E.pick('what', ['prices', 'losses', 'key', 'cost', 'side_volume', 'side_price', 'side_ramp', 'losses_unknown'])
    if what == 'prices':
        m = new(INFO.frame(UNIT_INFO))
        t = TABLES['price_bids']
        return rejected(E, 'prices-before-volumes', lambda: t.call(m, t.frame(numbers(E, t, t.rows, 'n'))), 'price bids before volume bids')
    if what == 'losses':
        m = new(INFO.frame(UNIT_INFO))
        TABLES['volume_bids'].call(m, table(bid_rows(30.0, 7.0)))
        return rejected(E, 'losses-before-interconnectors', lambda: m.set_interconnector_losses(table(LOSS), table(BREAKS)), 'losses before interconnectors')
    m = base()
    if what == 'key':
        rejected(E, 'unknown-constraints', lambda: m.make_constraints_elastic('other', E.real('c', 1, 99)), 'elastic constraints that do not exist')
    elif what == 'cost':
        v = E.pick('v', ['31.0', True, None, [31.0], {'generic': 31.0}])
        rejected(E, 'cost-type', lambda: m.make_constraints_elastic('generic', v), 'violation cost %r' % (v,))
    elif what == 'losses_unknown':
        rejected(E, 'losses-of-unknown-interconnector', lambda: m.set_interconnector_losses(
            table([dict(r, interconnector='I9') if i == 2 else r for i, r in enumerate(LOSS)]), table([dict(r, interconnector='I9') if r['interconnector'] == 'I2' else r for r in BREAKS])),
            'losses of an interconnector that does not exist')
    else:
        n = dict(side_volume='volume_bids', side_price='price_bids', side_ramp='ramp')[what]
        t = TABLES[n]
        side = E.pick('side', ['generator', 'load'])
        rows = [r for r in t.rows if not (r['unit'] == 'b1' and r['dispatch_type'] == side and r.get('service', 'energy') == 'energy')]
        df = t.frame(numbers(E, t, rows, 'n'))
        rejected(E, 'one-side-of-a-bidirectional-unit', lambda: t.call(m, df), '%s without the %s side' % (n, side))
    kept(E, 'order/inputs-kept', m)


def monotonic(E):
    """Price bids must not decrease with the band."""
    stubs.STRICT[0] = False
    t = TABLES['price_bids']
    rows = [dict(r) for r in t.rows]
    a, b, c = [E.real('p%d' % k, -1000, 15000) for k in range(3)]
    i = E.pick('row', [0, 5, 9])
    rows[i].update({'1': a, '2': b, '3': c})
    m = base()
    e = attempt(lambda: t.call(m, t.frame(rows)))
    if e is None:
        E.true('monotonic/rejected', E.And(E.leq(a, b), E.leq(b, c)), detail='price bids that decrease with the band were accepted')
    else:
        E.true('monotonic/accepted', E.Not(E.And(E.leq(a, b), E.leq(b, c))), detail='%s: %s' % (type(e).__name__, e))


def cases(tier):
    from vlib.runner import Case
    out = []
    for n, t in TABLES.items():
        parts = max(1, len(faults(t)) // 12)
        for p in range(parts):
            out.append(Case('faults_%s_%d' % (n, p), faulty, dict(table=n, part=p, parts=parts)))
        for c, s in t.cols.items():
            if s.kind == 'float' and c != 'break_point':
                out.append(Case('range_%s_%s' % (n, c), range_, dict(table=n, col=c)))
    out.append(Case('faults_unit_info', unit_info))
    out.append(Case('range_unit_info_loss_factor', range_, dict(table=None, col='loss_factor')))
    out += [Case('edges', edge), Case('negative_modes', negative), Case('order', order), Case('price_bids_decreasing', monotonic)]
    return out
