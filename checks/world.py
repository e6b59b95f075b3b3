"""Builds symbolic (or, in replay, concrete) markets through nempy's public API, together with an independent reference
specification of what must hold of the dispatch, stated over the public results only."""
import pandas as pd

NAN = float('nan')
FCAS = ['raise_reg', 'lower_reg', 'raise_5min', 'lower_5min', 'raise_60s', 'lower_60s', 'raise_6s', 'lower_6s',
        'raise_1s', 'lower_1s']


class Unit:
    def __init__(self, name, region, types=('generator',), services=('energy',), bands=1):
        self.name, self.region, self.types = name, region, tuple(types)
        # services: tuple (all dispatch types) or dict dispatch type -> tuple
        self.services = services if isinstance(services, dict) else {t: tuple(services) for t in self.types}
        self.bands = bands

    @property
    def bdu(self):
        return len(self.types) == 2


def G(name, region='A', services=('energy',), bands=1):
    return Unit(name, region, ('generator',), services, bands)


def L(name, region='A', services=('energy',), bands=1):
    return Unit(name, region, ('load',), services, bands)


def B(name, region='A', services=('energy',), bands=1):
    return Unit(name, region, ('generator', 'load'), services, bands)


class Con:
    """One specified constraint: lhs (function of the World after dispatch), sense, rhs."""

    def __init__(self, label, lhs, sense, rhs, key=None, cost=None):
        self.label, self.lhs, self.sense, self.rhs, self.key, self.cost = label, lhs, sense, rhs, key, cost


class World:
    def __init__(self, E, regions, units, interval=None, lf=False, min_columns=False, vmax=2000, reset=True,
                 assume_rows=False, vmin=1, style='plain'):
        from nempy import markets
        self.E = E
        self.style = style
        self.prefix = ''
        self.units = units
        self.regions = regions
        self.cons = []
        self.facts = []
        self.vol, self.price = {}, {}
        self.vmax, self.vmin = vmax, vmin
        self.interval = 5 if interval is None else interval
        self.h = self.interval / 60
        self.min_columns = min_columns
        self.lf = {}
        self.links = []
        self.demand_in = {}
        self.flow_cache = None
        if reset:
            E.reset(assume_rows=assume_rows)
        info = []
        for u in units:
            for t in u.types:
                self.lf[u.name, t] = E.real('lf_%s_%s' % (u.name, t), 0.5, 1.5) if lf else 1.0
                info.append(dict(unit=u.name, region=u.region, dispatch_type=t, loss_factor=self.lf[u.name, t]))
        info = self.df(info)
        if min_columns:
            info = info.loc[:, ['unit', 'region']]
        self.info = info
        self.m = markets.SpotMarket(market_regions=list(regions), unit_info=info, dispatch_interval=self.interval)

    def clear(self):
        """Forget the specification (the inputs are about to be set again on the same market)."""
        self.facts = []
        self.cons, self.vol, self.price, self.demand_in, self.links = [], {}, {}, {}, []
        self.gen_coef, self.gen_rhs, self.req = {}, {}, {}

    def rows(self):
        for u in self.units:
            for t in u.types:
                for s in u.services.get(t, ()):
                    yield u, t, s

    def real(self, name, lo=None, hi=None):
        return self.E.real(self.prefix + name, lo, hi)

    def df(self, rows):
        """A frame in the world's style: 'plain', or 'shuffled' (other row, column and index order)."""
        if self.style == 'shuffled':
            rows = rows[::-1]
            if len(rows) > 2:
                rows = rows[1:] + rows[:1]
            df = pd.DataFrame(rows)
            df = df.loc[:, list(df.columns)[::-1]]
            df.index = [3 * (len(df) - i) + 4 for i in range(len(df))]
            return df
        return pd.DataFrame(rows)

    def frame(self, rows):
        df = self.df(rows)
        if self.min_columns:
            for c in ('service', 'dispatch_type'):
                if c in df.columns:
                    df = df.drop(columns=c)
        return df

    # ---- bids
    def bids(self, prices=True, order=None, small=()):
        E = self.E
        nb = max(u.bands for u in self.units)
        vrows, prows = [], []
        for u, t, s in self.rows():
            v = [self.real('v_%s_%s_%s_%d' % (u.name, t, s, b), 0 if u.name in small else self.vmin, self.vmax)
                 for b in range(u.bands)]
            self.vol[u.name, t, s] = v
            p = [self.real('p_%s_%s_%s_%d' % (u.name, t, s, b), -1000, 15000) for b in range(u.bands)] if prices else \
                [10.0 + b for b in range(u.bands)]
            self.price[u.name, t, s] = p
            vrows.append(dict(unit=u.name, dispatch_type=t, service=s,
                              **{str(b + 1): (v[b] if b < u.bands else 0.0) for b in range(nb)}))
            prows.append(dict(unit=u.name, dispatch_type=t, service=s,
                              **{str(b + 1): (p[b] if b < u.bands else 0.0) for b in range(nb)}))
        if order == 'reverse':
            vrows = vrows[::-1]
        self.vframe, self.pframe = self.frame(vrows), self.frame(prows)
        self.m.set_unit_volume_bids(self.vframe)
        self.m.set_unit_price_bids(self.pframe)
        return self

    # ---- public results
    def D(self, unit, dt, service='energy'):
        return self.disp.get((unit, dt, service), 0.0)

    def net(self, unit):
        return self.D(unit, 'generator') - self.D(unit, 'load')

    def read(self):
        df = self.m.get_unit_dispatch()
        self.disp = {(r.unit, r.dispatch_type, r.service): r.dispatch for r in df.itertuples()}
        self.E.true('dispatch-rows-unique', len(self.disp) == len(df))
        for key, v in self.vol.items():
            self.E.true('offered-unit-reported', key in self.disp, when=self.E.lt(0.01, sum(v[1:], v[0])))
        if self.links:
            fl = self.m.get_interconnector_flows()
            self.flow = {(r.interconnector, r.link): r.flow for r in fl.itertuples()}
            self.E.true('flow-rows-unique', len(self.flow) == len(fl))
            if 'losses' in fl.columns:
                self.loss = {(r.interconnector, r.link): r.losses for r in fl.itertuples()}
            else:
                self.loss = {}
        return self

    def run(self, **kw):
        self.snaps = self.E.dispatch(self.m, **kw)
        self.snap = self.E.first_snapshot
        return self.read()

    # ---- deciding
    def sound(self, label='', reach=True):
        """Whatever the solver returns for the model nempy built, the public results satisfy the specification."""
        E = self.E
        self.run()
        if E.symbolic:
            E.contract(self.snap)
        for c in self.cons:
            prove_con(E, self.snap, label + c.label, c.lhs(self), c.sense, c.rhs)
        for name, f in self.facts:
            E.true(label + name, f(self))
        return self

    def complete(self, label='allowed', aux=None):
        """Every dispatch satisfying the specification is allowed by the model nempy built."""
        E = self.E
        self.run()
        if E.symbolic:
            S = E.sym
            self.bid_point()
            for c in self.cons:
                a, b = S.num(c.lhs(self)), S.num(c.rhs)
                t = a <= b if c.sense == '<=' else a >= b if c.sense == '>=' else a == b
                E.hyp(S.SymB(t))
            for name, f in self.facts:
                E.hyp(f(self))
            used = self.used_vars()
            for i, x in enumerate(self.snap.xs):
                if str(x) not in used:
                    if aux:
                        aux(i, x)
                    elif self.snap.types[i] != 'B':
                        E.hyp(S.SymB(x == 0))
            E.accepts(label, self.snap)
        return self

    def bid_point(self):
        """Bounds of the point whose admission is to be shown.  Bid bands: each within its offer, or, if the bounds nempy gave a
        unit's bands cannot hold all it offered, at the whole offer (so that the bounds are found wanting).  Flows are bounded by
        the specification alone; losses by the largest flow limit (see the bounds of the check)."""
        E, S, z3, snap = self.E, self.E.sym, self.E.z3, self.snap
        names = {str(x): i for i, x in enumerate(snap.xs)}
        done = set()
        for key, v in self.vol.items():
            d = self.disp.get(key)
            if not isinstance(d, S.Sym):
                continue
            idx = [names[n] for n in consts(z3, d.t) if n in names]
            ok = [S.Sym(snap.xs[i]) >= 0 for i in idx] + [S.Sym(snap.xs[i]) <= snap.ub[i] for i in idx]
            done |= set(idx)
            offer = sum(v[1:], v[0])
            room = sum((snap.ub[i] for i in idx[1:]), snap.ub[idx[0]]) if idx else 0.0
            E.hyp(E.Or(E.And(*ok), E.And(E.lt(room, offer), E.eq(d, offer))))
            E.hyp(E.And(*[S.Sym(snap.xs[i]) >= 0 for i in idx]))
        for k in self.links:
            big = E.Max(k.mx, -1 * k.mn)
            for out in (self.flow, self.loss):
                o = out.get((k.inter, k.link))
                if isinstance(o, S.Sym):
                    done |= {names[n] for n in consts(z3, o.t) if n in names}
                    E.hyp(E.And(E.leq(o, big), E.leq(-1 * big, o)))
        free = {str(snap.xs[i]) for i in range(len(snap.xs)) if i not in done}
        for t in snap.bound_terms:
            if consts(z3, t) & free:
                E.hyp(S.SymB(t))

    # ---- costs
    def bid_cost(self):
        """Cost of the dispatch at the bids, referred to the regional reference node (units with a single band)."""
        tot = 0.0
        for u, t, s in self.rows():
            d = self.D(u.name, t, s)
            p = self.price[u.name, t, s][0]
            if s == 'energy':
                p = p / self.lf[u.name, t]
                if t == 'load':
                    p = -1 * p
            tot = tot + p * d
        return tot

    def violation(self, c):
        E = self.E
        a, b = c.lhs(self), c.rhs
        if c.sense == '<=':
            return E.Max(0.0, a - b)
        if c.sense == '>=':
            return E.Max(0.0, b - a)
        return E.Max(a - b, b - a)

    def violation_cost(self):
        tot = 0.0
        for c in self.cons:
            if c.cost is not None:
                tot = tot + c.cost * self.violation(c)
        return tot

    def soft(self):
        """The minimised cost is never below bids + violation cost x violation, whatever the solver answers."""
        E = self.E
        self.run()
        if E.symbolic:
            E.contract(self.snap)
        obj, low = self.m.objective_value, self.bid_cost()
        if E.symbolic:
            # violations proved one by one from the rows that carry them: cost x violation <= what the objective charges there
            S, z3, snap = E.sym, E.z3, self.snap
            used = self.used_vars()
            rest = S.Sym(z3.simplify(S.num(obj) - S.num(low), som=True))
            aux = {j for j, x in enumerate(snap.xs) if str(x) not in used}
            for c in self.cons:
                if c.cost is None:
                    continue
                v = self.violation(c)
                charge = c.cost * v
                for (coefs, rs, rr, name), term in zip(snap.rows, snap.row_terms):
                    js = [j for j in coefs if j in aux and j in snap.obj.coefs]
                    if not js or (consts(z3, S.num(c.lhs(self))) & {str(x) for x in snap.xs}) - consts(z3, term):
                        continue
                    paid = sum((snap.obj.coefs[j] * S.Sym(snap.xs[j]) for j in js), 0.0)
                    r, _ = E._check([term] + [t for t in snap.bound_terms if consts(z3, t) & {str(snap.xs[j]) for j in js}] +
                                    [S.num(charge) > S.num(paid) + S.num(1e-6)])
                    E.p.stats.prove_queries += 1
                    if r == z3.unsat:
                        E._counted('soft-charge')
                        rest = S.Sym(z3.simplify(S.num(rest) - S.num(paid), som=True))
                        aux -= set(js)
                        charge = 0.0
                        break
                low = low + charge
            E.ge('soft-cost-at-least', rest, S.Sym(z3.simplify(S.num(low) - S.num(self.bid_cost()), som=True)))
        else:
            E.ge('soft-cost-at-least', obj, low + self.violation_cost(), tol=0.5)
        for c in self.cons:
            if c.cost is None:
                E.rel('hard-' + c.label, c.lhs(self), c.sense, c.rhs)
        return self

    def soft_exact(self):
        """Every dispatch within the hard limits is allowed, at exactly that cost, with the violation reported."""
        E = self.E
        self.run()
        if E.symbolic:
            S, snap = E.sym, self.snap
            self.bid_point()
            for c in self.cons:
                if c.cost is None:
                    a, b = S.num(c.lhs(self)), S.num(c.rhs)
                    E.hyp(S.SymB(a <= b if c.sense == '<=' else a >= b if c.sense == '>=' else a == b))
            used = self.used_vars()
            aux = {i for i, x in enumerate(snap.xs) if str(x) not in used and snap.types[i] != 'B'}
            val = {}
            for coefs, sense, rhs, name in snap.rows:
                act = S.Sym(E.z3.Sum([S.mul(S.num(k), snap.xs[j]) for j, k in coefs.items() if j not in aux] +
                                     [E.z3.RealVal(0)]))
                pos = [j for j in coefs if j in aux and S.const_of(S.num(coefs[j])) is not None and coefs[j] > 0]
                neg = [j for j in coefs if j in aux and S.const_of(S.num(coefs[j])) is not None and coefs[j] < 0]
                if sense in ('>', '=') and pos:
                    val.setdefault(pos[0], E.Max(0.0, (rhs - act) / coefs[pos[0]]))
                if sense in ('<', '=') and neg:
                    val.setdefault(neg[0], E.Max(0.0, (rhs - act) / coefs[neg[0]]))
            for j in aux:
                E.hyp(E.eq(S.Sym(snap.xs[j]), val.get(j, 0.0)))
            E.accepts('allowed', snap)
        E.close('soft-cost-exact', self.m.objective_value, self.bid_cost() + self.violation_cost(), tol=0.5)
        keys = {c.key for c in self.cons if c.cost is not None}
        for k in sorted(keys):
            tot = 0.0
            for c in self.cons:
                if c.key == k:
                    tot = tot + self.violation(c)
            E.close('violation-degree', self.m.get_elastic_constraints_violation_degree(k), tot, tol=1e-3)
        return self

    def used_vars(self):
        E = self.E
        used = set()
        outs = list(self.disp.values())
        if self.links:
            outs += list(self.flow.values()) + list(self.loss.values())
        for o in outs:
            if isinstance(o, E.sym.Sym):
                used |= consts(E.z3, o.t)
        for idx, w, t in self.snap.sos:
            for i in idx:
                used.add(str(self.snap.xs[i]))
        return used


def consts(z3, t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(e.decl().name())
        stack.extend(e.children())
    return acc


def prove_con(E, snap, label, lhs, sense, rhs):
    """Prove `lhs sense rhs`.  First from single rows of the model (cheap), then from all of them."""
    if not E.symbolic:
        return E.rel(label, lhs, sense, rhs)
    S, z3 = E.sym, E.z3
    if S._special(lhs) is None and S._special(rhs) is None:
        d = S.num(lhs) - S.num(rhs)
        vs = consts(z3, d)
        xs = {str(x) for x in snap.xs}
        for (coefs, rs, rr, name) in snap.rows:
            if rs != '=' and rs != sense[0]:
                continue
            if S._special(rr) is not None:
                continue
            terms = [S.mul(S.num(k), snap.xs[j]) for j, k in coefs.items()]
            rd = z3.Sum(terms + [z3.RealVal(0)]) - S.num(rr)
            if (consts(z3, rd) & xs) != (vs & xs):
                continue
            diff = z3.simplify(d - rd, som=True)
            c = S.const_of(diff)
            if c is not None and abs(c) < 1e-6:
                E.p.stats.syntactic += 1
                E._counted(label)
                return
            # same variables but not syntactically equal: ask the solver for this pair alone
            r, _ = E._check([z3.Or(d - rd > S.num(1e-5), rd - d > S.num(1e-5))] + snap.bound_terms)
            E.p.stats.prove_queries += 1
            if r == z3.unsat:
                E._counted(label)
                return
    E.rel(label, lhs, sense, rhs)


def scenario(E, regions, units, build, mode='sound', style='plain', history='fresh', only=None, **kw):
    """Build a market (optionally on top of an earlier, superseded set of inputs) and decide its specification.

    history: 'fresh'; 'reset' (every input set twice, the second time counts); 'redispatch' (as 'reset', with a dispatch in
    between)."""
    w = World(E, regions, units() if callable(units) else units, style=style, **kw)
    if history != 'fresh':
        w.prefix = 'old_'
        build(w)
        if history == 'redispatch':
            w.run()
            if E.symbolic:
                E.contract(w.snap)
        w.clear()
        w.prefix = ''
    build(w)
    if only:
        w.cons = [c for c in w.cons if c.label.startswith(tuple(only))]
        w.facts = [f for f in w.facts if f[0].startswith(tuple(only))]
    getattr(w, mode)()
    return w


VARIANTS = [('', {}), ('shuffled', dict(style='shuffled')), ('reset', dict(history='reset')),
            ('redispatch', dict(history='redispatch'))]


def expand(name, args, modes=('sound', 'complete'), variants=None):
    from vlib.runner import Case
    out = []
    for vn, vk in VARIANTS:
        if variants is not None and vn not in variants:
            continue
        for m in modes:
            if m == 'complete' and vn == 'redispatch':
                continue
            out.append(Case('_'.join(x for x in (name, vn, m) if x), scenario, dict(args, mode=m, **vk)))
    return out


def cases_from(shapes, tier, quick_variants=('', 'shuffled'), slow=()):
    """shapes: name -> scenario arguments; optional keys: modes, variants."""
    out = []
    for n, a in shapes.items():
        a = dict(a)
        modes = a.pop('modes', ('sound', 'complete'))
        variants = a.pop('variants', None)
        if a.pop('thorough', False) and tier != 'thorough':
            continue
        if variants is None and tier != 'thorough':
            variants = quick_variants
        out += expand(n, a, modes=modes, variants=variants)
    return out
