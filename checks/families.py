"""Constraint families: each adds inputs to the market through the public API and the specification of what they mean."""
from .world import Con, NAN, World, G, L, B  # noqa


def demand(w, regions=None, violation_cost=None, dmax=5000, extra_terms=None):
    E = w.E
    regions = regions or w.regions
    rows = []
    for r in regions:
        d = w.real('demand_%s' % r, -dmax, dmax)
        w.demand_in[r] = d
        rows.append(dict(region=r, demand=d))
    kw = {} if violation_cost is None else dict(violation_cost=violation_cost)
    w.m.set_demand_constraints(w.df(rows), **kw)
    for r in regions:
        w.cons.append(Con('demand:%s' % r, lambda ww, r=r: supply(ww, r), '=', w.demand_in[r], key='demand',
                          cost=violation_cost))
    return w


def supply(w, region):
    """Net energy delivered to a region: generation - scheduled load + imports - exports - loss shares."""
    tot = 0.0
    for u, t, s in w.rows():
        if s == 'energy' and u.region == region:
            tot = tot + (w.D(u.name, t) if t == 'generator' else -1 * w.D(u.name, t))
    for k in w.links:
        f = w.flow[k.inter, k.link]
        if k.to == region:
            tot = tot + f * k.to_lf
        if k.frm == region:
            tot = tot - f * k.from_lf
        if (k.inter, k.link) in w.loss and k.share is not None:
            ls = w.loss[k.inter, k.link]
            if k.frm == region:
                tot = tot - ls * k.share
            if k.to == region:
                tot = tot - ls * (1 - k.share)
    return tot


class Link:
    def __init__(self, inter, frm, to, link=None, lfs=False, factor=1):
        self.inter, self.frm, self.to, self.link = inter, frm, to, link or inter
        self.lfs, self.factor = lfs, factor
        self.from_lf = self.to_lf = 1.0
        self.share = None
        self.bps = None
        self.fn = None


def interconnectors(w, links, fmax=1000, mnsp=False):
    """links: list of Link.  mnsp: pairs of one directional links."""
    E = w.E
    rows = []
    explicit = any(k.link != k.inter for k in links)
    lfs = any(k.lfs for k in links)
    for k in links:
        k.mx = w.real('max_%s_%s' % (k.inter, k.link), 0, fmax)
        k.mn = 0.0 if mnsp and k.link != k.inter else w.real('min_%s_%s' % (k.inter, k.link), -fmax, 0)
        if k.lfs:
            k.from_lf = w.real('flf_%s_%s' % (k.inter, k.link), 0.8, 1.2)
            k.to_lf = w.real('tlf_%s_%s' % (k.inter, k.link), 0.8, 1.2)
        d = dict(interconnector=k.inter, to_region=k.to, from_region=k.frm, max=k.mx, min=k.mn)
        if explicit:
            d['link'] = k.link
        if lfs:
            d['from_region_loss_factor'], d['to_region_loss_factor'] = k.from_lf, k.to_lf
        if any(x.factor != 1 for x in links):
            d['generic_constraint_factor'] = k.factor
        rows.append(d)
    w.m.set_interconnectors(w.df(rows))
    w.links = list(links)
    for k in links:
        f = lambda ww, k=k: ww.flow[k.inter, k.link]  # noqa
        w.cons.append(Con('flow-max', f, '<=', k.mx))
        w.cons.append(Con('flow-min', f, '>=', k.mn))
    for a in links:
        for b in links:
            if a.inter == b.inter and a.link < b.link:
                w.facts.append(('one-direction', lambda ww, a=a, b=b: ww.E.Or(
                    ww.E.near(ww.flow[a.inter, a.link], 0), ww.E.near(ww.flow[b.inter, b.link], 0))))
    return w


def losses(w, points, kind='table'):
    """points: dict (interconnector, link) -> list of break points, or an int n for n symbolic ones.
    kind 'table': the loss at every break point is an arbitrary number; 'quadratic': a*x*x + b*x, a and b arbitrary."""
    E = w.E
    lrows, brows = [], []
    explicit = any(k.link != k.inter for k in w.links)
    for k in w.links:
        if (k.inter, k.link) not in points:
            continue
        pts = points[k.inter, k.link]
        tag = '%s_%s' % (k.inter, k.link)
        if isinstance(pts, int):
            bp = [w.real('bp_%s_%d' % (tag, i), -1000, 1000) for i in range(pts)]
            for a, b in zip(bp, bp[1:]):
                E.assume(E.leq(a + 1, b))
        else:
            bp = [float(x) for x in pts]
        if kind == 'quadratic' or isinstance(pts, int):
            a = w.real('la_%s' % tag, 0, 0.001)
            b = w.real('lb_%s' % tag, -0.1, 0.1)
            fn = lambda x, a=a, b=b: a * x * x + b * x  # noqa
        else:
            tab = {x: w.real('loss_%s_%d' % (tag, i), -50, 200) for i, x in enumerate(bp)}
            fn = lambda x, tab=tab: tab.get(float(x), 0.0)  # noqa
        k.share = w.real('share_%s' % tag, 0, 1)
        k.bps, k.fn = bp, fn
        d = dict(interconnector=k.inter, from_region_loss_share=k.share, loss_function=fn)
        if explicit:
            d['link'] = k.link
        lrows.append(d)
        for i, x in enumerate(bp):
            d = dict(interconnector=k.inter, loss_segment=i + 1 if w.style == 'plain' else i * 2 - 3, break_point=x)
            if explicit:
                d['link'] = k.link
            brows.append(d)
    w.m.set_interconnector_losses(w.df(lrows), w.df(brows))
    return w


def interpolated(w, k):
    """The reported loss of link k is the piecewise linear interpolation of its loss function at the reported flow."""
    E = w.E
    f, ls = w.flow[k.inter, k.link], w.loss[k.inter, k.link]
    segs = []
    for a, b in zip(k.bps, k.bps[1:]):
        fa, fb = k.fn(a), k.fn(b)
        tol = 1e-6 if E.symbolic else 1e-4
        gap = (ls - fa) * (b - a) - (fb - fa) * (f - a)
        segs.append(E.And(E.leq(a, f + tol), E.leq(f, b + tol), E.leq(gap, tol * (b - a)), E.leq(-tol * (b - a), gap)))
    return E.Or(*segs)


# ------------------------------------------------------------------ unit energy limits
def capacity(w, units=None, violation_cost=None, key='bid', cmax=3000):
    """Bid capacity limits: every energy side of the listed units is at most its capacity."""
    E = w.E
    rows = []
    for u, t, s in w.rows():
        if s != 'energy' or (units and u.name not in units):
            continue
        c = w.real('cap_%s_%s' % (u.name, t), 0, cmax)
        rows.append(dict(unit=u.name, dispatch_type=t, capacity=c))
        w.cons.append(Con('capacity', lambda ww, u=u, t=t: ww.D(u.name, t), '<=', c, key='unit_bid_capacity',
                          cost=violation_cost))
    w.m.set_unit_bid_capacity_constraints(w.frame(rows), **_vc(violation_cost))
    return w


def uigf(w, units, violation_cost=None, cmax=3000):
    E = w.E
    rows = []
    for n in units:
        c = w.real('uigf_%s' % n, 0, cmax)
        rows.append(dict(unit=n, capacity=c))
        w.cons.append(Con('uigf', lambda ww, n=n: ww.D(n, 'generator'), '<=', c, key='uigf_capacity',
                          cost=violation_cost))
    w.m.set_unconstrained_intermittent_generation_forecast_constraint(w.df(rows), **_vc(violation_cost))
    return w


def _vc(v):
    return {} if v is None else dict(violation_cost=v)


# ------------------------------------------------------------------ ramping
def ramp(w, scada=None, units=None, profiles=None, run_type=None, violation_cost=None, rmax=6000, imax=1500):
    """scada: dict unit -> (up?, down?) booleans saying which telemetered rates are present.
    profiles: dict unit -> dict(current_mode=.., end_mode=.., since=bool)"""
    E, h = w.E, w.h
    rows, srows, frows = [], [], []
    for u in w.units:
        if units and u.name not in units:
            continue
        init = w.real('init_%s' % u.name, -imax if u.bdu else 0, imax)
        up, dn = {}, {}
        for t in u.types:
            if 'energy' not in u.services.get(t, ()):
                continue
            up[t] = w.real('rup_%s_%s' % (u.name, t), 0, rmax)
            dn[t] = w.real('rdn_%s_%s' % (u.name, t), 0, rmax)
            rows.append(dict(unit=u.name, dispatch_type=t, initial_output=init, ramp_up_rate=up[t],
                             ramp_down_rate=dn[t]))
        su = sd = None
        if scada is not None and u.name in scada:
            hu, hd = scada[u.name]
            su = w.real('sup_%s' % u.name, 0, rmax) if hu else None
            sd = w.real('sdn_%s' % u.name, 0, rmax) if hd else None
            srows.append(dict(unit=u.name, scada_ramp_up_rate=NAN if su is None else su,
                              scada_ramp_down_rate=NAN if sd is None else sd))
        pr = (profiles or {}).get(u.name)
        skip = False
        since = minload = None
        if pr is not None:
            f = dict(unit=u.name)
            if run_type == 'fast_start_first_run':
                f['current_mode'] = pr['current_mode']
                skip = pr['current_mode'] in (0, 1, 2)
            elif run_type == 'fast_start_second_run':
                f['end_mode'] = pr['end_mode']
                minload = w.real('minload_%s' % u.name, 0, imax)
                since = w.real('since_%s' % u.name, 0, 5) if pr.get('since') else None
                f['min_loading'] = minload
                f['time_since_end_of_mode_two'] = NAN if since is None else since
                skip = pr['end_mode'] in (0, 1, 2)
            frows.append(f)
        if u.bdu:
            ru, rd = bdu_reach(E, init, up, dn, h, su, sd)
            net = lambda ww, u=u: ww.net(u.name)  # noqa
            if not skip:
                w.cons.append(Con('bdu-ramp-up', net, '<=', ru, key='bidirectional_ramp_up', cost=violation_cost))
                w.cons.append(Con('bdu-ramp-down', net, '>=', rd, key='bidirectional_ramp_down', cost=violation_cost))
            continue
        for t in up:
            ru = up[t] if su is None else E.Min(up[t], su)
            rd = dn[t] if sd is None else E.Min(dn[t], sd)
            top = init + ru * h
            if since is not None:
                # the unit follows its profile to min loading at the end of mode two, then ramps freely
                top = minload + ru * (since / 60)
            if skip:
                continue
            d = lambda ww, u=u, t=t: ww.D(u.name, t)  # noqa
            w.cons.append(Con('ramp-up', d, '<=', top, key='ramp_up', cost=violation_cost))
            w.cons.append(Con('ramp-down', d, '>=', init - rd * h, key='ramp_down', cost=violation_cost))
    kw = _vc(violation_cost)
    if scada is not None:
        for c, k in (('scada_ramp_up_rate', 0), ('scada_ramp_down_rate', 1)):
            # a direction nobody is telemetered in has no column: both rate columns of the table are optional
            if scada and not any(v[k] for v in scada.values()):
                for r in srows:
                    del r[c]
        kw['scada_ramp_rates'] = w.df(srows)
    if run_type is not None:
        kw['run_type'] = run_type
        if frows:
            kw['fast_start_profiles'] = w.df(frows)
    w.m.set_unit_ramp_rate_constraints(w.frame(rows), **kw)
    return w


def bdu_reach(E, init, up, dn, h, su, sd):
    """Highest and lowest net output a bidirectional unit can reach in h hours, moving through zero at the rate of the side
    it is on: charging is withdrawn at the load side's ramp down rate and generation added at the generator side's ramp up
    rate, and conversely.  A telemetered rate caps the average rate of change."""
    gu, gd, lu, ld = up['generator'], dn['generator'], up['load'], dn['load']
    t0 = E.If(ld == 0, 0.0, -1 * init / E.If(ld == 0, 1.0, ld))
    hi_neg = E.If(E.leq(ld * h, -1 * init), init + ld * h, (h - t0) * gu)
    hi = E.If(E.leq(0, init), init + gu * h, hi_neg)
    t1 = E.If(gd == 0, 0.0, init / E.If(gd == 0, 1.0, gd))
    lo_pos = E.If(E.leq(gd * h, init), init - gd * h, -1 * (h - t1) * lu)
    lo = E.If(E.leq(init, 0), init - lu * h, lo_pos)
    if su is not None:
        hi = E.Min(hi, init + su * h)
    if sd is not None:
        lo = E.Max(lo, init - sd * h)
    return hi, lo


# ------------------------------------------------------------------ fast start
def fast_start(w, modes, violation_cost=None, gens=True):
    """modes: dict unit -> end mode."""
    E = w.E
    rows = []
    for n, mode in modes.items():
        u = [x for x in w.units if x.name == n][0]
        t_in = w.real('tin_%s' % n, 0, 60)
        l2 = w.real('l2_%s' % n, 0.25, 60)
        l4 = w.real('l4_%s' % n, 0.25, 60)
        ml = w.real('fsml_%s' % n, 0, 1000)
        rows.append(dict(unit=n, end_mode=mode, time_in_end_mode=t_in, mode_two_length=l2, mode_four_length=l4,
                         min_loading=ml))
        d = lambda ww, n=n, t=u.types[0]: ww.D(n, t)  # noqa
        k = dict(key='fast_start', cost=violation_cost)
        if mode in (0, 1):
            w.cons.append(Con('mode-0-1-off', d, '<=', 0.0, **k))
        elif mode == 2:
            w.cons.append(Con('mode-2-low', d, '>=', ml * t_in / l2, **k))
            w.cons.append(Con('mode-2-high', d, '<=', ml * t_in / l2, **k))
        elif mode == 3:
            w.cons.append(Con('mode-3-min', d, '>=', ml, **k))
        elif mode == 4:
            w.cons.append(Con('mode-4-min', d, '>=', ml - ml * t_in / l4, **k))
    w.m.set_fast_start_constraints(w.df(rows), **_vc(violation_cost))
    return w


# ------------------------------------------------------------------ fcas
def fcas_max(w, which=None, violation_cost=None):
    E = w.E
    rows = []
    for u, t, s in w.rows():
        if s == 'energy' or (which and (u.name, t, s) not in which):
            continue
        a = w.real('fmax_%s_%s_%s' % (u.name, t, s), 0, 1000)
        rows.append(dict(unit=u.name, dispatch_type=t, service=s, max_availability=a))
        w.cons.append(Con('fcas-max', lambda ww, u=u, t=t, s=s: ww.D(u.name, t, s), '<=', a,
                          key='fcas_max_availability', cost=violation_cost))
    df = w.df(rows)
    if w.min_columns:
        df = df.drop(columns='dispatch_type')
    w.m.set_fcas_max_availability(df, **_vc(violation_cost))
    return w


def trapezium(w, tag, signed=False):
    E = w.E
    ma = w.real('tma_' + tag, 0.5, 1000)
    emin = w.real('temin_' + tag, -1000 if signed else 0, 1000)
    low = w.real('tlow_' + tag, -1000 if signed else 0, 1000)
    high = w.real('thigh_' + tag, -1000 if signed else 0, 1000)
    emax = w.real('temax_' + tag, -1000 if signed else 0, 1000)
    E.assume(E.And(E.leq(emin, low), E.leq(low, high), E.leq(high, emax)))
    return dict(max_availability=ma, enablement_min=emin, low_break_point=low, high_break_point=high,
                enablement_max=emax)


def joint_capacity(w, which, violation_cost=None, columns=True):
    """which: list of (unit, dispatch_type, contingency service).  FCAS model in NEMDE section 6.2."""
    E = w.E
    rows = []
    for n, t, s in which:
        u = [x for x in w.units if x.name == n][0]
        tr = trapezium(w, '%s_%s_%s' % (n, t, s), signed=u.bdu)
        rows.append(dict(unit=n, service=s, dispatch_type=t, **tr))
        us = (tr['enablement_max'] - tr['high_break_point']) / tr['max_availability']
        ls = (tr['low_break_point'] - tr['enablement_min']) / tr['max_availability']
        if u.bdu:
            def up(ww, n=n, t=t, s=s, us=us):
                return ww.net(n) + us * ww.D(n, t, s) + ww.D(n, 'generator', 'raise_reg') + ww.D(n, 'load', 'raise_reg')

            def lo(ww, n=n, t=t, s=s, ls=ls):
                return ww.net(n) - ls * ww.D(n, t, s) - ww.D(n, 'generator', 'lower_reg') - ww.D(n, 'load', 'lower_reg')
        else:
            inc, dec = ('raise_reg', 'lower_reg') if t == 'generator' else ('lower_reg', 'raise_reg')

            def up(ww, n=n, t=t, s=s, us=us, inc=inc):
                return ww.D(n, t) + us * ww.D(n, t, s) + ww.D(n, t, inc)

            def lo(ww, n=n, t=t, s=s, ls=ls, dec=dec):
                return ww.D(n, t) - ls * ww.D(n, t, s) - ww.D(n, t, dec)
        w.cons.append(Con('joint-capacity-upper', up, '<=', tr['enablement_max'], key='joint_capacity',
                          cost=violation_cost))
        w.cons.append(Con('joint-capacity-lower', lo, '>=', tr['enablement_min'], key='joint_capacity',
                          cost=violation_cost))
    df = w.df(rows)
    if not columns:
        df = df.drop(columns='dispatch_type')
    w.m.set_joint_capacity_constraints(df, **_vc(violation_cost))
    return w


def energy_regulation(w, which, violation_cost=None, columns=True):
    """FCAS model in NEMDE section 6.3.  A bidirectional unit's load side is measured in (negative) net output."""
    E = w.E
    rows = []
    for n, t, s in which:
        u = [x for x in w.units if x.name == n][0]
        tr = trapezium(w, '%s_%s_%s' % (n, t, s), signed=u.bdu)
        rows.append(dict(unit=n, service=s, dispatch_type=t, **tr))
        us = (tr['enablement_max'] - tr['high_break_point']) / tr['max_availability']
        ls = (tr['low_break_point'] - tr['enablement_min']) / tr['max_availability']
        sg = -1 if (u.bdu and t == 'load') else 1
        w.cons.append(Con('energy-reg-upper', lambda ww, n=n, t=t, s=s, us=us, sg=sg: sg * ww.D(n, t) + us * ww.D(n, t, s),
                          '<=', tr['enablement_max'], key='energy_and_regulation_capacity', cost=violation_cost))
        w.cons.append(Con('energy-reg-lower', lambda ww, n=n, t=t, s=s, ls=ls, sg=sg: sg * ww.D(n, t) - ls * ww.D(n, t, s),
                          '>=', tr['enablement_min'], key='energy_and_regulation_capacity', cost=violation_cost))
    df = w.df(rows)
    if not columns:
        df = df.drop(columns='dispatch_type')
    w.m.set_energy_and_regulation_capacity_constraints(df, **_vc(violation_cost))
    return w


def joint_ramping(w, units=None, profiles=None, run_type=None, violation_cost=None, rmax=6000, imax=1500, missing={}):
    """FCAS model in NEMDE section 6.1."""
    E, h = w.E, w.h
    rows, frows = [], []
    for u in w.units:
        if units and u.name not in units:
            continue
        init = w.real('jinit_%s' % u.name, -imax if u.bdu else 0, imax)
        up = w.real('jup_%s' % u.name, 0, rmax)
        dn = w.real('jdn_%s' % u.name, 0, rmax)
        gone = missing.get(u.name, ())
        rows.append(dict(unit=u.name, initial_output=init, scada_ramp_up_rate=NAN if 'up' in gone else up,
                         scada_ramp_down_rate=NAN if 'down' in gone else dn))
        pr = (profiles or {}).get(u.name)
        skip, top = False, init + up * h
        if pr is not None:
            f = dict(unit=u.name)
            if run_type == 'fast_start_first_run':
                f['current_mode'] = pr['current_mode']
                skip = pr['current_mode'] in (0, 1, 2)
            elif run_type == 'fast_start_second_run':
                f['end_mode'] = pr['end_mode']
                ml = w.real('jml_%s' % u.name, 0, imax)
                f['min_loading'] = ml
                f['time_since_end_of_mode_two'] = NAN
                if pr.get('since'):
                    since = w.real('jsince_%s' % u.name, 0, 5)
                    f['time_since_end_of_mode_two'] = since
                    top = ml + up * (since / 60)
                skip = pr['end_mode'] in (0, 1, 2)
            frows.append(f)
        if skip:
            continue
        bot = init - dn * h

        def has(s, u=u, gone=gone):
            if s == 'raise_reg' and 'up' in gone or s == 'lower_reg' and 'down' in gone:
                return False            # not telemetered, not limited
            return any(s in u.services.get(t, ()) for t in u.types)
        n = u.name
        k = dict(cost=violation_cost)
        if u.bdu:
            if has('raise_reg'):
                w.cons.append(Con('bdu-raise-reg-ramp', lambda ww, n=n: ww.net(n) + ww.D(n, 'generator', 'raise_reg') +
                                  ww.D(n, 'load', 'raise_reg'), '<=', top, key='joint_ramping_raise_reg_bdu', **k))
            if has('lower_reg'):
                w.cons.append(Con('bdu-lower-reg-ramp', lambda ww, n=n: ww.net(n) - ww.D(n, 'generator', 'lower_reg') -
                                  ww.D(n, 'load', 'lower_reg'), '>=', bot, key='joint_ramping_lower_reg_bdu', **k))
        elif u.types[0] == 'generator':
            if has('raise_reg'):
                w.cons.append(Con('gen-raise-reg-ramp', lambda ww, n=n: ww.D(n, 'generator') +
                                  ww.D(n, 'generator', 'raise_reg'), '<=', top, key='joint_ramping_raise_reg', **k))
            if has('lower_reg'):
                w.cons.append(Con('gen-lower-reg-ramp', lambda ww, n=n: ww.D(n, 'generator') -
                                  ww.D(n, 'generator', 'lower_reg'), '>=', bot, key='joint_ramping_lower_reg', **k))
        else:
            # a load raises by reducing consumption: that is limited by its ramp down.  nempy is given one telemetered
            # rate per direction of service: raise is limited by the up rate and lower by the down rate.
            if has('raise_reg'):
                w.cons.append(Con('load-raise-reg-ramp', lambda ww, n=n: ww.D(n, 'load') - ww.D(n, 'load', 'raise_reg'),
                                  '>=', init - (top - init), key='joint_ramping_raise_reg', **k))
            if has('lower_reg'):
                w.cons.append(Con('load-lower-reg-ramp', lambda ww, n=n: ww.D(n, 'load') + ww.D(n, 'load', 'lower_reg'),
                                  '<=', init + (init - bot), key='joint_ramping_lower_reg', **k))
    kw = _vc(violation_cost)
    if run_type is not None:
        kw['run_type'] = run_type
        if frows:
            kw['fast_start_profiles'] = w.df(frows)
    w.m.set_joint_ramping_constraints_reg(w.df(rows), **kw)
    return w


# ------------------------------------------------------------------ market wide sets
def total(w, region, service):
    t = 0.0
    for u, dt, s in w.rows():
        if u.region == region and s == service:
            t = t + w.D(u.name, dt, s)
    return t


def fcas_requirements(w, sets, violation_cost=None, types=True):
    """sets: list of (set name, service, [regions], sense)."""
    E = w.E
    rows = []
    w.req = {}
    for name, service, regions, sense in sets:
        v = w.req.get(name)
        if v is None:
            v = w.req[name] = w.real('req_%s' % name, 0, 2000)
        for r in regions:
            d = dict(set=name, service=service, region=r, volume=v)
            if types:
                d['type'] = sense
            rows.append(d)
    for name in w.req:
        parts = [(s, rs) for n, s, rs, _ in sets if n == name]
        sense = [x for n, _, _, x in sets if n == name][0] if types else '='

        def lhs(ww, parts=parts):
            t = 0.0
            for s, rs in parts:
                for r in rs:
                    t = t + total(ww, r, s)
            return t
        w.cons.append(Con('fcas-set', lambda ww, lhs=lhs, name=name: lhs(ww) + generic_lhs(ww, name), sense, w.req[name],
                          key='fcas', cost=violation_cost))
    w.m.set_fcas_requirements_constraints(w.df(rows), **_vc(violation_cost))
    return w


def generic_lhs(w, name):
    t = 0.0
    for (s, kind, a, b), c in getattr(w, 'gen_coef', {}).items():
        if s != name:
            continue
        if kind == 'unit':
            for u, dt, sv in w.rows():
                if u.name == a and sv == b:
                    sg = -1 if (u.bdu and dt == 'load' and sv == 'energy') else 1
                    t = t + sg * c * w.D(a, dt, b)
        elif kind == 'region':
            t = t + c * total(w, a, b)
        else:
            for k in w.links:
                if k.inter == a:
                    t = t + c * k.factor * w.flow[k.inter, k.link]
    return t


def generic(w, sets, violation_cost=None, params=True):
    """sets: dict name -> (sense, [('unit', u, service) | ('region', r, service) | ('inter', i)])"""
    E = w.E
    w.gen_coef = getattr(w, 'gen_coef', {})
    w.gen_rhs = {}
    prm, us, rs, ks = [], [], [], []
    for name, (sense, terms) in sets.items():
        if sense is not None:
            rhs = w.real('grhs_%s' % name, -5000, 5000)
            w.gen_rhs[name] = rhs
            prm.append(dict(set=name, type=sense, rhs=rhs))
        for tm in terms:
            c = w.real('gc_%s_%s' % (name, '_'.join(tm)), -10, 10)
            if tm[0] == 'unit':
                w.gen_coef[name, 'unit', tm[1], tm[2]] = c
                us.append(dict(set=name, unit=tm[1], service=tm[2], coefficient=c))
            elif tm[0] == 'region':
                w.gen_coef[name, 'region', tm[1], tm[2]] = c
                rs.append(dict(set=name, region=tm[1], service=tm[2], coefficient=c))
            else:
                w.gen_coef[name, 'inter', tm[1], None] = c
                ks.append(dict(set=name, interconnector=tm[1], coefficient=c))
        if sense is not None:
            w.cons.append(Con('generic', lambda ww, name=name: generic_lhs(ww, name), sense, rhs, key='generic',
                              cost=violation_cost))
    if prm:
        w.m.set_generic_constraints(w.df(prm), **_vc(violation_cost))
    if us:
        w.m.link_units_to_generic_constraints(w.df(us))
    if rs:
        w.m.link_regions_to_generic_constraints(w.df(rs))
    if ks:
        w.m.link_interconnectors_to_generic_constraints(w.df(ks))
    return w
