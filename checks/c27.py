"""The problem a market solves depends on the inputs last set, not on how it came to hold them."""
import pandas as pd
from .world import *
from . import problems
from vlib.env import SolverRejects

META = dict(
    bounds='2 regions, up to 4 units (generator, load, bidirectional), every kind of input; histories of up to two settings of each '
           'input (the superseded one with other units, sets, bands, senses and costs, all numbers symbolic), with or without a dispatch '
           'and result queries in between, inputs set in another order, one input superseded after a dispatch, one input first set '
           'after a dispatch, dispatching twice; compared with a market that was given the last inputs only',
    outside='dispatches with over-constrained re-runs; more than two settings of an input; inputs whose tables refer to other inputs '
            'that were replaced afterwards (price bids, losses and tie breaks are set again after the bids or links they refer to)',
)
SERV = ('energy', 'raise_reg', 'lower_reg', 'raise_6s', 'lower_60s')


class Step:
    def __init__(self, name, fn, needs=(), first=True):
        self.name, self.fn, self.needs = name, fn, needs
        self.first = first        # the market can be dispatched before this input was ever set


class H:
    """One market and the names of the numbers given to it."""

    def __init__(self, E, regions, units):
        from nempy import markets
        self.E, self.regions, self.units = E, regions, units
        info = pd.DataFrame([dict(unit=u.name, region=u.region, dispatch_type=t, loss_factor=E.real('lf_%s_%s' % (u.name, t), 0.8, 1.2))
                             for u in units for t in u.types])
        self.m = markets.SpotMarket(market_regions=list(regions), unit_info=info, dispatch_interval=5)
        self.old = False
        self.set = set()          # inputs set so far

    def real(self, name, lo, hi):
        return self.E.real(('old_' if self.old else '') + name, lo, hi)

    def rows(self):
        for u in self.units:
            for t in u.types:
                for s in u.services.get(t, ()):
                    yield u.name, t, s

    swap = None
    solved = False

    def sub(self, ks):
        """What a table lists: by default the superseded table lacks the first entry; swapped, the table that replaces it has only
        the first ('head') or lacks the first ('tail')."""
        if self.swap is None:
            return ks[1:] if self.old and len(ks) > 1 else ks
        if self.old or len(ks) == 1:
            return ks
        return ks[:1] if self.swap == 'head' else ks[1:]

    def energy(self):
        return [(n, t) for n, t, s in self.rows() if s == 'energy']

    def cost(self, name):
        """Soft in one of the two settings only."""
        return dict(violation_cost=self.real('cost_' + name, 1, 500))


def frame(rows):
    return pd.DataFrame(rows)


def bids(h):
    nb = 3 if h.old else 2
    keys = list(h.rows())
    if h.old or h.swap:
        keys = h.sub(keys) if len(keys) > 3 else keys
    h.m.set_unit_volume_bids(frame([dict(unit=n, dispatch_type=t, service=s, **{str(b + 1): h.real('v_%s_%s_%s_%d' % (n, t, s, b), 1, 500) for b in range(nb)})
                                    for n, t, s in keys]))


def prices(h):
    nb = 3 if h.old else 2
    keys = list(h.rows())
    if h.old or h.swap:
        keys = h.sub(keys) if len(keys) > 3 else keys
    rows = []
    for n, t, s in keys:
        p = [h.real('p_%s_%s_%s_%d' % (n, t, s, b), -900 + 300 * b if b else -1000, -900 + 300 * (b + 1) - 10) for b in range(nb)]
        rows.append(dict(unit=n, dispatch_type=t, service=s, **{str(b + 1): p[b] for b in range(nb)}))
    h.m.set_unit_price_bids(frame(rows))


def demand(soft):
    def f(h):
        rg = h.regions[-1:] if h.old and len(h.regions) > 1 else h.regions
        h.m.set_demand_constraints(frame([dict(region=r, demand=h.real('d_' + r, 0, 1)) for r in rg]),
                                   **(h.cost('demand') if soft != h.old else {}))
    return f


def elastic(key):
    def f(h):
        h.m.make_constraints_elastic(key, h.real('elastic_' + key, 1, 500))
    return f


def capacity(soft):
    def f(h):
        ks = h.sub(h.energy())
        h.m.set_unit_bid_capacity_constraints(frame([dict(unit=n, dispatch_type=t, capacity=h.real('c_%s_%s' % (n, t), 10, 900)) for n, t in ks]),
                                              **(h.cost('capacity') if soft != h.old else {}))
    return f


def uigf(h):
    ks = [n for n, t in h.energy() if t == 'generator']
    h.m.set_unconstrained_intermittent_generation_forecast_constraint(
        frame([dict(unit=n, capacity=h.real('u_' + n, 10, 900)) for n in h.sub(ks)]), **(h.cost('uigf') if h.old else {}))


def ramp(soft):
    def f(h):
        ks = h.sub(h.energy())
        h.m.set_unit_ramp_rate_constraints(frame([dict(unit=n, dispatch_type=t, initial_output=h.real('i_' + n, 0, 10), ramp_up_rate=h.real('ru_%s_%s' % (n, t), 200, 900),
                                                       ramp_down_rate=h.real('rd_%s_%s' % (n, t), 200, 900)) for n, t in ks]),
                                           **(h.cost('ramp') if soft != h.old else {}))
    return f


def fast_start(modes, old):
    def f(h):
        ms = old if h.old else modes
        h.m.set_fast_start_constraints(frame([dict(unit=n, end_mode=m, time_in_end_mode=h.real('ti_' + n, 0, 5), mode_two_length=h.real('m2_' + n, 6, 9),
                                                   mode_four_length=h.real('m4_' + n, 6, 9), min_loading=h.real('ml_' + n, 1, 50)) for n, m in ms.items()]),
                                       **h.cost('fs'))
    return f


def remove_fast_start(h):
    h.m.remove_fast_start_constraints()


def tie_break(h):
    h.m.set_tie_break_constraints(h.real('tb', 0.01, 10))


def requirements(soft, table=False):
    new = [('R1', 'raise_reg', ('A',), '>='), ('R2', 'raise_6s', ('A', 'B'), '='), ('R3', 'lower_60s', ('B',), '<=')]
    old = [('R2', 'lower_reg', ('A',), '<='), ('R0', 'raise_6s', ('B',), '>='), ('R1', 'raise_reg', ('A', 'B'), '=')]

    def f(h):
        sets = old if h.old else new
        rows = [dict(set=n, service=s, region=r, type=t, volume=h.real('req_' + n, 0, 30)) for n, s, rg, t in sets for r in rg if r in h.regions]
        kw = {}
        if soft != h.old or any(t != '<=' for _, _, _, t in sets):
            kw = h.cost('req')
            if table:
                kw = dict(violation_cost=frame([dict(set=n, cost=h.real('cost_' + n, 1, 500)) for n in sorted({r['set'] for r in rows})]))
        h.m.set_fcas_requirements_constraints(frame(rows), **kw)
    return f


def fcas_max(h):
    ks = [k for k in h.rows() if k[2] != 'energy']
    h.m.set_fcas_max_availability(frame([dict(unit=n, dispatch_type=t, service=s, max_availability=h.real('fm_%s_%s_%s' % (n, t, s), 1, 99))
                                         for n, t, s in h.sub(ks)]), **(h.cost('fm') if h.old else {}))


def trap(h, keys):
    rows = []
    for n, t, s in keys:
        g = '%s_%s_%s' % (n, t, s)
        rows.append(dict(unit=n, dispatch_type=t, service=s, max_availability=h.real('a_' + g, 1, 99), enablement_min=h.real('e0_' + g, 0, 5),
                         low_break_point=h.real('lo_' + g, 6, 9), high_break_point=h.real('hi_' + g, 10, 50), enablement_max=h.real('e1_' + g, 60, 90)))
    return frame(rows)


def joint_capacity(h):
    ks = [k for k in h.rows() if k[2] in ('raise_6s', 'lower_60s')]
    h.m.set_joint_capacity_constraints(trap(h, h.sub(ks)), **h.cost('jc'))


def energy_reg(h):
    ks = [k for k in h.rows() if k[2] in ('raise_reg', 'lower_reg')]
    h.m.set_energy_and_regulation_capacity_constraints(trap(h, h.sub(ks)), **h.cost('er'))


def joint_ramping(h):
    us = [u for u in h.units if any('raise_reg' in x or 'lower_reg' in x for x in u.services.values())]
    h.m.set_joint_ramping_constraints_reg(frame([dict(unit=u.name, initial_output=h.real('ji_' + u.name, 0, 10), scada_ramp_up_rate=h.real('ju_' + u.name, 200, 900),
                                                      scada_ramp_down_rate=h.real('jd_' + u.name, 200, 900)) for u in h.sub(us)]), **h.cost('jr'))


def interconnectors(names, old, pair=False):
    def f(h):
        rows = []
        for n in (old if h.old else names):
            if pair:
                for k, (a, b) in (('fwd', ('A', 'B')), ('back', ('B', 'A'))):
                    rows.append(dict(interconnector=n, link=k, from_region=a, to_region=b, max=h.real('mx_%s_%s' % (n, k), 1, 100), min=0.0,
                                     generic_constraint_factor=1 if k == 'fwd' else -1, from_region_loss_factor=h.real('flf_%s_%s' % (n, k), 0.9, 1.1),
                                     to_region_loss_factor=h.real('tlf_%s_%s' % (n, k), 0.9, 1.1)))
            else:
                rows.append(dict(interconnector=n, from_region='A', to_region='B', max=h.real('mx_' + n, 1, 100), min=h.real('mn_' + n, -100, 0)))
        h.m.set_interconnectors(frame(rows))
        h.links = {r['interconnector'] for r in rows}
    return f


def losses(names, old, pair=False):
    def f(h):
        ls, bs = [], []
        # losses can only be set for interconnectors of the market
        for n in [n for n in (old if h.old else names) if n in h.links]:
            for k in (('fwd', 'back') if pair else (None,)):
                tag = n if k is None else n + '_' + k
                pts = [-200.0, 0.0, 300.0, 400.0] if h.old else ([0.0, 150.0] if pair else [-150.0, 0.0, 250.0])
                tab = {x: h.real('loss_%s_%d' % (tag, i), 1, 20) for i, x in enumerate(pts)}
                d = {} if k is None else dict(link=k)
                ls.append(dict(interconnector=n, from_region_loss_share=h.real('sh_' + tag, 0, 1), loss_function=lambda x, tab=tab: tab.get(float(x), 0.0), **d))
                bs += [dict(interconnector=n, loss_segment=i, break_point=x, **d) for i, x in enumerate(pts)]
        h.m.set_interconnector_losses(frame(ls), frame(bs))
    return f


def generic(soft=True, table=False):
    def f(h):
        sets = {'G1': '>=', 'G0': '<='} if h.old else {'G1': '<=', 'G2': '=', 'G3': '>='}
        kw = h.cost('generic')
        if table != h.old:
            kw = dict(violation_cost=frame([dict(set=n, cost=h.real('gcost_' + n, 1, 500)) for n in sets]))
        h.m.set_generic_constraints(frame([dict(set=n, type=t, rhs=h.real('rhs_' + n, 1, 99)) for n, t in sets.items()]), **kw)
    return f


def link_units(h):
    ks = [('G0', 0, 'energy'), ('G1', 1, 'energy')] if h.old else [('G1', 0, 'energy'), ('G2', 1, 'raise_6s'), ('G3', -1, 'energy'), ('R1', 0, 'energy')]
    h.m.link_units_to_generic_constraints(frame([dict(set=n, unit=h.units[i].name, service=s, coefficient=h.real('gu_%s_%d' % (n, i), 0.5, 3)) for n, i, s in ks]))


def link_regions(h):
    ks = [('G1', 'B', 'energy')] if h.old else [('G2', 'A', 'raise_6s'), ('G3', 'B', 'energy')]
    h.m.link_regions_to_generic_constraints(frame([dict(set=n, region=r, service=s, coefficient=h.real('gr_%s_%s' % (n, r), 0.5, 3)) for n, r, s in ks]))


def link_inter(names, old):
    def f(h):
        ks = [('G0', old[0]), ('G1', old[-1])] if h.old else [('G1', names[0]), ('G3', names[-1])]
        h.m.link_interconnectors_to_generic_constraints(frame([dict(set=s, interconnector=n, coefficient=h.real('gi_%s_%s' % (s, n), 0.5, 3)) for s, n in ks]))
    return f


BIDS = [Step('bids', bids, first=False), Step('prices', prices, ('bids',), first=False)]
G3 = [G('g1', 'A'), G('g2', 'B'), L('l1', 'A')]
BD = [G('g1', 'A', SERV), B('b1', 'A', SERV)]
FX = [G('g1', 'A', SERV), L('l1', 'B', SERV), G('g2', 'B', ('energy', 'raise_6s'))]
LINKS = (('I1', 'I2'), ('I0', 'I1'))
TWO = ['A', 'B']
SHAPES = {
    'energy': (TWO, G3, BIDS + [Step('capacity', capacity(False)), Step('uigf', uigf), Step('ramp', ramp(False)), Step('demand', demand(True))]),
    'energy_soft': (TWO, G3, BIDS + [Step('capacity', capacity(True)), Step('ramp', ramp(True)), Step('demand', demand(False)),
                                     Step('elastic', elastic('demand'), ('demand',))]),
    'fast_start': (['A'], [G('g%d' % i, 'A') for i in range(4)], BIDS + [
        Step('fast_start', fast_start({'g0': 0, 'g1': 3, 'g2': 4}, {'g1': 1, 'g2': 2, 'g3': 3})), Step('demand', demand(True))]),
    'tie_break': (['A'], [G('g1', 'A'), G('g2', 'A')], BIDS + [Step('tie_break', tie_break, ('bids', 'prices')), Step('demand', demand(True))]),
    'bdu': (['A'], BD, BIDS + [Step('capacity', capacity(True)), Step('joint_ramping', joint_ramping, ('bids',)), Step('joint_capacity', joint_capacity),
                               Step('energy_reg', energy_reg), Step('demand', demand(True))]),
    'bdu_ramp': (['A'], [G('g1', 'A'), B('b1', 'A')], BIDS + [Step('ramp', ramp(True)), Step('demand', demand(True))]),
    'fcas': (TWO, FX, BIDS + [Step('fcas_max', fcas_max), Step('requirements', requirements(False)), Step('joint_ramping', joint_ramping, ('bids',)),
                              Step('joint_capacity', joint_capacity), Step('energy_reg', energy_reg), Step('demand', demand(True))]),
    'fcas_table': (TWO, FX, BIDS + [Step('requirements', requirements(True, table=True)), Step('link_units', link_units), Step('demand', demand(True))]),
    'generic': (TWO, FX, BIDS + [Step('generic', generic()), Step('link_units', link_units), Step('link_regions', link_regions),
                                 Step('requirements', requirements(True)), Step('demand', demand(True))]),
    'network': (TWO, [G('g1', 'A'), G('g2', 'B')], BIDS + [
        Step('interconnectors', interconnectors(*LINKS)), Step('generic', generic(table=True)), Step('link_inter', link_inter(*LINKS)), Step('demand', demand(True))]),
    'losses': (TWO, [G('g1', 'A'), G('g2', 'B')], BIDS + [
        Step('interconnectors', interconnectors(('I1',), ('I0', 'I1'))), Step('losses', losses(('I1',), ('I0', 'I1')), ('interconnectors',)),
        Step('demand', demand(True))]),
    'pairs': (TWO, [G('g1', 'A'), G('g2', 'B')], BIDS + [
        Step('interconnectors', interconnectors(('I1',), ('I1',), pair=True)), Step('losses', losses(('I1',), ('I1',), pair=True), ('interconnectors',)),
        Step('link_inter', link_inter(('I1',), ('I1',))), Step('generic', generic()), Step('demand', demand(True))]),
}


def dependents(steps, name):
    out = [name]
    for s in steps:
        if any(n in out for n in s.needs) and s.name not in out:
            out.append(s.name)
    return [s for s in steps if s.name in out]


def reordered(steps):
    """Another order in which nothing precedes what it refers to."""
    left, out = list(steps[2:][::-1]), list(steps[:2])
    while left:
        for s in left:
            if all(n in [x.name for x in out] for n in s.needs):
                out.append(s)
                left.remove(s)
                break
    return out


def history(steps, kind):
    new = [(s, False) for s in steps]
    if kind == 'twice':
        return new + ['D', 'D', 'Q']
    if kind == 'reset':
        return [(s, True) for s in steps] + new
    if kind == 'redispatch':
        return [(s, True) for s in steps] + ['D', 'Q'] + new
    if kind == 'order':
        return [(s, False) for s in reordered(steps)]
    if kind == 'reset_order':
        return [(s, True) for s in steps] + [(s, False) for s in reordered(steps)]
    what, name = kind.split(':')
    late = dependents(steps, name)
    names = [s.name for s in late]
    if what == 'replaced':
        return [(s, s.name in names) for s in steps] + ['D'] + [(s, False) for s in late]
    if what == 'added':
        return [(s, False) for s in steps if s.name not in names] + ['D', 'Q'] + [(s, False) for s in late]
    raise ValueError(kind)


RESULTS = [('get_unit_dispatch', 'bids', ('unit', 'service', 'dispatch_type'), ('dispatch',)),
           ('get_energy_prices', 'demand', ('region',), ('price',)),
           ('get_fcas_prices', 'requirements', ('region', 'service'), ('price',)),
           ('get_interconnector_flows', 'interconnectors', ('interconnector', 'link'), ('flow', 'losses'))]


def between(h):
    """A dispatch whose results are not compared: an arbitrary answer, or, where that multiplies the paths, a fixed one."""
    E = h.E
    if E.symbolic and h.fixed:
        E.fm.POLICY.pick = lambda m, k: [E.z3.RealVal('%d/4' % (i % 5 + 1)) for i in range(len(m.vars))]
    h.solved = attempt(E, h.m)
    if E.symbolic:
        E.fm.POLICY.pick = None


def attempt(E, m):
    """Dispatch; in a replay, whether the real solver finds the numbers of the counterexample feasible does not matter: the problem it
    was handed is what is compared."""
    if E.symbolic:
        return E.dispatch(m)
    try:
        E.dispatch(m)
    except SolverRejects:
        E.infeasible = False
        return False
    return True


def perform(h, steps):
    for s in steps:
        if s == 'D':
            between(h)
        elif s == 'Q':
            if h.solved:
                results(h)
        else:
            h.old = s[1]
            s[0].fn(h)
            h.set.add(s[0].name)
    h.old = False


def results(h):
    """The public results that apply to this market."""
    out = {}
    for name, need, keys, vals in RESULTS:
        if need not in h.set:
            continue
        df = getattr(h.m, name)()
        for i in range(len(df)):
            k = tuple(df[c].iloc[i] for c in keys)
            for v in vals:
                if v in df.columns:
                    out[(name, v) + k] = df[v].iloc[i]
    return out


def solved(E, n0, snaps):
    return [problems.of_snapshot(s) for s in snaps] if E.symbolic else E.problems[n0:]


def case(E, shape, kind=None, first=None, second=None, fixed=False, swap=None):
    regions, units, steps = SHAPES[shape]
    E.steered = False
    E.keep_problems = problems.of_mip
    E.reset(assume_rows=False)
    a, b = H(E, regions, units), H(E, regions, units)
    a.fixed = b.fixed = fixed
    a.swap = b.swap = swap
    # the market with the inputs last set only
    perform(a, second or [(s, False) for s in steps])
    n0 = 0 if E.symbolic else len(E.problems)
    sa = attempt(E, a.m)
    pa = solved(E, n0, sa)
    ra = results(a) if sa else {}
    # the market with a history
    perform(b, first or history(steps, kind))
    n0 = 0 if E.symbolic else len(E.problems)
    if E.symbolic:
        pol = E.fm.POLICY
        done = []

        def answer(m, k):
            """The solver gives the same answer to the same problem."""
            i = len(done)
            E.true('number-of-solves', i < len(pa))
            blank = [E.z3.Real('unused%d' % j) for j in range(len(m.vars))]
            got = problems.same(E, 'first-problem' if i == 0 else 'pricing-problem', pa[i], problems.of_snapshot(E.fm.Snapshot(m, blank, [])))
            done.append(got)
            return [sa[i].xs[got[0][j]] if j in got[0] else E.z3.RealVal(0) for j in range(len(m.vars))]
        pol.pick = answer
        sb = E.dispatch(b.m)
        pol.pick = None
        E.true('number-of-solves', len(sb) == len(sa))
        for (vm, rm), x, y in zip(done, sa, sb):
            for j, i in rm.items():
                E.hyps.append(y.pis[j] == x.pis[i])
    else:
        sb = attempt(E, b.m)
        pb = solved(E, n0, None)
        E.true('number-of-solves', len(pa) == len(pb), when=sa and sb)
        for i, (x, y) in enumerate(zip(pa, pb)):
            problems.same(E, 'first-problem' if i == 0 else 'pricing-problem', x, y)
    if not (sa and sb):
        return
    rb = results(b)
    E.true('result-rows', set(ra) == set(rb), detail=str(sorted(map(str, set(ra) ^ set(rb)))[:6]))
    for k in ra:
        if E.symbolic or k[0] != 'get_interconnector_flows':
            E.close('result:' + k[0], ra[k], rb[k], tol=1e-3)


def removed(E):
    """Fast start constraints set and removed are as never set."""
    fs = Step('fs', fast_start({'g0': 0, 'g1': 3}, {'g1': 1, 'g2': 2}))
    rm = Step('rm', remove_fast_start)
    base = [(s, False) for s in SHAPES['fast_start'][2] if s.name != 'fast_start']
    case(E, 'fast_start', first=base + [(fs, True), 'D', (rm, False)], second=base)


def cleared(E, old, now):
    """Fast start profiles that constrain nothing replace those that did."""
    base = [(s, False) for s in SHAPES['fast_start'][2] if s.name != 'fast_start']
    fs = Step('fs', fast_start(now, old))
    case(E, 'fast_start', first=base + [(fs, True), 'D', (fs, False)], second=base + [(fs, False)])


def cases(tier):
    from vlib.runner import Case
    out = []
    for n, (regions, units, steps) in SHAPES.items():
        kinds = ['twice', 'reset', 'redispatch', 'order', 'reset_order']
        for s in steps:
            if s.name != 'prices':
                kinds.append('replaced:' + s.name)
            if s.first and (n, s.name) != ('tie_break', 'demand'):      # a market with no constraints is outside
                kinds.append('added:' + s.name)
        for k in kinds:
            out.append(Case('%s_%s' % (n, k.replace(':', '_')), case, dict(shape=n, kind=k, fixed=n in ('pairs', 'losses') and tier != 'thorough')))
    for n in ('energy', 'energy_soft', 'bdu', 'bdu_ramp', 'fcas'):
        for sw in ('head', 'tail'):
            for s in SHAPES[n][2][2:]:
                if s.name in ('capacity', 'uigf', 'ramp', 'fcas_max', 'joint_ramping', 'joint_capacity', 'energy_reg'):
                    out.append(Case('%s_%s_%s' % (n, s.name, sw), case, dict(shape=n, kind='replaced:' + s.name, swap=sw)))
            out.append(Case('%s_redispatch_%s' % (n, sw), case, dict(shape=n, kind='redispatch', swap=sw)))
    out.append(Case('fast_start_removed', removed))
    for i, (old, now) in enumerate([({'g1': 3}, {'g1': 5}), ({'g0': 0, 'g1': 2}, {'g0': 5, 'g1': 3}), ({'g2': 4}, {'g1': 1})]):
        out.append(Case('fast_start_cleared_%d' % i, cleared, dict(old=old, now=now)))
    return out
