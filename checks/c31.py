"""Only a dispatch the solver proved optimal is reported; anything else is an error."""
from .world import *
from .families import *
from .c01 import lossy
from . import problems

META = dict(
    bounds='markets of 2..3 units in 1..2 regions with demand, ramp, FCAS and generic constraints, a lossy interconnector or a pair of links; every '
           'ending of the solve the solver library knows (11), with the search for the offending constraint ending either way after '
           'any of its solves; infeasible markets: every demand, volume and limit for which no dispatch exists, by the three ways named '
           'in the cases',
    outside='how the solver reaches its ending (CBC and its tolerances are trusted); the ending of the pricing problem',
)


class Ending:
    """The solver ends the first solve as `status` says; later solves of the same dispatch end well or not."""

    def __init__(self, E, status, later):
        self.E, self.status, self.later, self.n = E, status, later, 0

    def __call__(self, m=None, k=None):
        import mip
        self.n += 1
        st = mip.OptimizationStatus
        if self.n == 1:
            return getattr(st, self.status)
        return st.OPTIMAL if self.n - 2 >= self.later else st.INFEASIBLE


def force(E, status, later):
    end = Ending(E, status, later)
    if E.symbolic:
        E.fm.POLICY.status = None if status == 'OPTIMAL' else end
        return lambda: None
    import mip
    cur = mip.Model.optimize
    if status == 'OPTIMAL':
        return lambda: None

    def optimize(m, *a, **k):
        mip.Model._vf_orig(m, *a, **k)
        return end()
    mip.Model.optimize = optimize

    def undo():
        mip.Model.optimize = cur
    return undo


def attempt(E, w, **kw):
    import contextlib
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            E.dispatch(w.m, **kw)
    except Exception as e:
        if type(e).__module__.split('.')[0] in ('vlib', 'z3', 'checks'):
            raise
        return e
    return None


ENDINGS = ['OPTIMAL', 'FEASIBLE', 'INFEASIBLE', 'UNBOUNDED', 'INT_INFEASIBLE', 'NO_SOLUTION_FOUND', 'ERROR', 'LOADED', 'CUTOFF', 'INF_OR_UNBD', 'OTHER']


def ending(E, regions, units, build, again=False, style='plain', **kw):
    """Whatever way the solve ends, the dispatch is reported exactly if it ended with a proven optimum."""
    w = World(E, regions, units, style=style, assume_rows=True)
    w.prefix = 'old_'
    if again:
        build(w)
        w.run()
        before = w.m.get_unit_dispatch()
        w.clear()
    w.prefix = ''
    build(w)
    status = E.pick('ending', ENDINGS)
    later = E.pick('later', [0, 1, 100])
    undo = force(E, status, later)
    try:
        e = attempt(E, w, **kw)
    finally:
        undo()
        if E.symbolic:
            E.fm.POLICY.status = None
    E.true('error-unless-optimal', (e is None) == (status == 'OPTIMAL'),
           detail='the solve ended %s and dispatch %s' % (status, 'reported a result' if e is None else 'raised %r' % e))
    if e is None:
        df = w.m.get_unit_dispatch()
        E.true('dispatch-reported', len(df) == len({(u.name, t, s) for u, t, s in w.rows()}))
    elif not again:
        try:
            w.m.get_unit_dispatch()
            got = True
        except Exception:
            got = False
        E.true('nothing-reported', not got, detail='a dispatch is reported after the error')
        E.true('no-objective-value', w.m.objective_value is None)


def hopeless(E, regions, units, build, why):
    """No dispatch satisfies the limits: the error is raised (the solver's own verdict, checked against the problem it is given)."""
    w = World(E, regions, units, assume_rows=False)
    build(w)
    why(E, w)
    if E.symbolic:
        import mip
        st = mip.OptimizationStatus
        seen = []

        def truth(m, k):
            """INFEASIBLE exactly if the problem has no point: decided by the SMT solver over all inputs of the path."""
            seen.append(m)
            if len(seen) > 1:
                return st.INFEASIBLE
            xs = [E.z3.Real('any_%s' % v.name) for v in m.vars]
            snap = E.fm.Snapshot(m, xs, [E.z3.Real('pi_%s' % c.name) for c in m.constrs])
            E.true('no-dispatch-exists', E.Not(E.And(*[E.sym.SymB(t) for t in snap.bound_terms + snap.row_terms + snap.sos_terms])))
            return st.INFEASIBLE
        E.fm.POLICY.status = truth
    else:
        import mip
        cur = mip.Model.optimize
        mip.Model.optimize = mip.Model._vf_orig
    try:
        e = attempt(E, w)
    finally:
        if E.symbolic:
            E.fm.POLICY.status = None
        else:
            mip.Model.optimize = cur
    E.true('no-dispatch-exists', e is not None, detail='a dispatch is reported for a market that has none')
    E.true('raises', isinstance(e, ValueError), detail='%r' % e)


def b(*fs, prices=True):
    def f(w):
        w.bids(prices=prices)
        for g in fs:
            g(w)
    return f


def energy(w, region=None, kind='generator'):
    tot = 0.0
    for (n, t, s), v in w.vol.items():
        if s == 'energy' and t == kind and any(u.name == n and region in (None, u.region) for u in w.units):
            for x in v:
                tot = tot + x
    return tot


def too_much_demand(E, w):
    E.assume(E.lt(energy(w) + 0.01, w.demand_in['A']))


def too_little_demand(E, w):
    E.assume(E.lt(w.demand_in['A'], -1 * energy(w, kind='load') - 0.01))


def demand_beyond_the_link(E, w):
    E.assume(E.lt(energy(w, 'B') + w.links[0].mx + 0.01, w.demand_in['B']))


U = [G('g1', 'A', bands=2), L('l1', 'A')]
AB = [G('g1', 'A'), G('g2', 'B')]
FC = [G('g1', 'A', ('energy', 'raise_6s')), G('g2', 'A', ('energy', 'raise_6s'))]
LOSS = lossy([Link('I1', 'A', 'B')], {('I1', 'I1'): [-200, 0, 200]})
PAIR = lossy([Link('I1', 'A', 'B', link='p'), Link('I1', 'B', 'A', link='n')], {('I1', 'p'): [0, 100], ('I1', 'n'): [0, 100]}, mnsp=True)
END = {
    'demand': dict(regions=['A'], units=U, build=b(demand)),
    'ramp_fcas': dict(regions=['A'], units=FC, build=b(lambda w: ramp(w), demand)),
    'soft': dict(regions=['A'], units=U, build=b(lambda w: demand(w, violation_cost=1000.0))),
    'losses': dict(regions=['A', 'B'], units=AB, build=b(LOSS, demand)),
    'pair': dict(regions=['A', 'B'], units=AB, build=b(PAIR, demand)),
    'again': dict(regions=['A'], units=U, build=b(demand), again=True),
}
NONE = {
    'demand_high': dict(regions=['A'], units=U, build=b(demand, prices=False), why=too_much_demand),
    'demand_low': dict(regions=['A'], units=U, build=b(demand, prices=False), why=too_little_demand),
    'link': dict(regions=['A', 'B'], units=AB, build=b(lambda w: interconnectors(w, [Link('I1', 'A', 'B')]), demand, prices=False), why=demand_beyond_the_link),
}


def cases(tier):
    from vlib.runner import Case
    out = [Case('end_' + n, ending, dict(a)) for n, a in END.items()]
    return out + [Case('none_' + n, hopeless, dict(a)) for n, a in NONE.items()]
