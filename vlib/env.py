"""The harness environment.  The same harness function runs in two modes:

SymEnv   - nempy runs symbolically on the stand-in solver; expectations become solver queries over all inputs.
ConcEnv  - replay: unpatched nempy, real pandas floats, real python-mip/CBC; expectations are evaluated with a tolerance.
"""
import math
import sys
import time
import fractions

sys.set_int_max_str_digits(0)  # solver models may hold very long rationals

TOL = fractions.Fraction(1, 10 ** 4)
MARGINS = [fractions.Fraction(100), fractions.Fraction(1), fractions.Fraction(1, 100), TOL]
CONC_TOL = 4e-5


class Violation(BaseException):
    def __init__(self, label, detail='', values=None, xs=None, memo=None):
        super().__init__(label)
        self.label, self.detail = label, detail
        self.values, self.xs, self.memo = values, xs, memo


class Skip(BaseException):
    """The harness' structural choice does not apply."""


class SymEnv:
    symbolic = True

    def __init__(self, path, tier):
        from . import sym, fakemip
        self.sym, self.fm, self.z3 = sym, fakemip, sym.z3
        self.p = path
        self.tier = tier
        self.memo_data = {}
        self.hyps = []              # extra hypotheses (solver contract)
        self.labels = []
        self.quiet_labels = set()
        self.found = []             # violations found on this path (continuing after the first per label)
        self.excluded = frozenset()
        self._sat_model = None
        self.xvals = None
        self.steered = True         # a replay drives the real solver to the counterexample's answer

    # ---- inputs
    def real(self, name, lo=None, hi=None):
        return self.p.real(name, lo, hi)

    def int(self, name, lo=None, hi=None):
        return self.p.integer(name, lo, hi)

    def pick(self, name, options):
        """One of the options, chosen by a symbolic number (forks the harness)."""
        return pick(self, name, options)

    def sqrt(self, x):
        return x ** 0.5

    def leaf(self, x, integer=False):
        """A number as it stands in a file: text, or a symbolic number."""
        return self.sym.SymText(x, integer) if isinstance(x, self.sym.Sym) else str(int(x) if integer else x)

    def assume(self, c):
        t = self.sym.boolterm(c)
        self.p.assume(t)

    def hyp(self, c):
        self.hyps.append(self.sym.boolterm(c))

    def memo(self, key, fn):
        v = fn()
        self.memo_data[key] = v
        return v

    # ---- boolean helpers that do not fork
    def And(self, *cs):
        return self.sym.SymB(self.z3.And(*[self.sym.boolterm(c) for c in cs])) if cs else True

    def Or(self, *cs):
        return self.sym.SymB(self.z3.Or(*[self.sym.boolterm(c) for c in cs]))

    def Not(self, c):
        return self.sym.SymB(self.z3.Not(self.sym.boolterm(c)))

    def If(self, c, a, b):
        S = self.sym
        return S.Sym(self.z3.If(S.boolterm(c), S.num(a), S.num(b)))

    def Max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.If(self.sym.SymB(self.sym.num(r) >= self.sym.num(x)), r, x)
        return r

    def Min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.If(self.sym.SymB(self.sym.num(r) <= self.sym.num(x)), r, x)
        return r

    def lt(self, a, b):
        return self.sym.SymB(self.sym.num(a) < self.sym.num(b))

    def leq(self, a, b):
        return self.sym.SymB(self.sym.num(a) <= self.sym.num(b))

    def eq(self, a, b):
        return self.sym.SymB(self.sym.num(a) == self.sym.num(b))

    near = eq

    def decide(self, c):
        """Fork the harness on a condition."""
        return bool(c) if isinstance(c, bool) else self.p.branch(self.sym.boolterm(c))

    # ---- goals
    def _special(self, v):
        return self.sym._special(v)

    def close(self, label, a, b, when=True, hyps=True, tol=None):
        sa, sb = self._special(a), self._special(b)
        if sa is not None or sb is not None:
            ok = (sa is not None and sb is not None and (sa == sb or (sa != sa and sb != sb)))
            return self.true(label, ok, when, detail='%r vs %r' % (a, b))
        n = self.sym.num
        d = n(a) - n(b)
        z3 = self.z3

        def neg(m):
            return z3.And(self.sym.boolterm(when), z3.Or(d > n(m), -d > n(m)))
        if when is True and self._zero(d):
            self._counted(label)
            return
        self._prove(label, neg, hyps, 'expected equal')

    def _zero(self, d):
        s = self.z3.simplify(d, som=True)
        c = self.sym.const_of(s)
        if c is not None and abs(c) <= TOL:
            self.p.stats.syntactic += 1
            return True
        return False

    def le(self, label, a, b, when=True, hyps=True, tol=None):
        n, z3 = self.sym.num, self.z3
        sa, sb = self._special(a), self._special(b)
        if sa is not None or sb is not None:
            fa = sa if sa is not None else 0.0
            fb = sb if sb is not None else 0.0
            return self.true(label, fa <= fb, when, detail='%r <= %r' % (a, b))
        d = n(a) - n(b)

        def neg(m):
            return z3.And(self.sym.boolterm(when), d > n(m))
        self._prove(label, neg, hyps, 'expected <=')

    def ge(self, label, a, b, when=True, hyps=True, tol=None):
        self.le(label, b, a, when, hyps)

    def true(self, label, c, when=True, hyps=True, detail=''):
        z3 = self.z3

        def neg(m):
            return z3.And(self.sym.boolterm(when), z3.Not(self.sym.boolterm(c)))
        self._prove(label, neg, hyps, detail)

    def rel(self, label, a, sense, b, when=True, hyps=True):
        if sense in ('<', '<='):
            self.le(label, a, b, when, hyps)
        elif sense in ('>', '>='):
            self.ge(label, a, b, when, hyps)
        else:
            self.close(label, a, b, when, hyps)

    def _counted(self, label):
        self.labels.append(label)

    def _check(self, terms, timeout=None):
        """Decide sat of pc + terms, with a fallback to a fresh solver."""
        z3 = self.z3
        st = self.p.stats
        t0 = time.time()
        self.p.solver.set('timeout', 15000)
        self.p.solver.push()
        try:
            for t in terms:
                self.p.solver.add(t)
            r = self.p.solver.check()
            m = self.p.solver.model() if r == z3.sat else None
        finally:
            self.p.solver.pop()
            self.p.solver.set('timeout', self.p.timeout_ms)
        if r == z3.unknown:
            for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(),
                       lambda: z3.Solver()):
                s = mk()
                s.set('timeout', 60000)
                for t in self.p.pc:
                    s.add(t)
                for t in terms:
                    s.add(t)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == z3.sat:
                    m = s.model()
                if r != z3.unknown:
                    break
        st.solver_s += time.time() - t0
        return r, m

    def _prove(self, label, neg, hyps, detail):
        from .sym import Inconclusive
        z3 = self.z3
        self._counted(label)
        if label in self.excluded:
            return
        self.p.stats.prove_queries += 1
        base = list(self.hyps) if hyps else []
        q = z3.simplify(neg(TOL))
        if z3.is_false(q):
            return
        r, m = self._check(base + [neg(TOL)])
        if r == z3.unsat:
            return
        if r == z3.unknown:
            raise Inconclusive('solver unknown on goal %s' % label)
        for mg in MARGINS[:-1]:
            r2, m2 = self._check(base + [neg(mg)])
            if r2 == z3.sat:
                m = m2
                break
        raise self.violation(label, detail, m)

    def violation(self, label, detail, m):
        vals = {k: mval(self.z3, m, t) for k, t in self.p.inputs.items()}
        xs = {}
        for mod in self.fm.MODELS if self.steered else ():
            for snap in mod.solves:
                if snap.k < 2 or True:
                    xs[str(snap.k)] = {nm: mval(self.z3, m, t) for nm, t in zip(snap.names, snap.xs)}
        return Violation(label, detail, vals, xs, dict(self.memo_data))

    # ---- the market
    def reset(self, assume_rows=True, pick=None):
        pol = self.fm.Policy(assume_first=False)
        pol.pick = pick
        self.fm.reset(pol)
        self._assume_rows = assume_rows
        if assume_rows:
            pol.assume_first = True
        return pol

    def dispatch(self, market, steer=True, **kw):
        """Dispatch with an arbitrary solver answer.  The solver contract becomes hypotheses."""
        n0 = len(self.fm.MODELS)
        market.dispatch(**kw)
        new = self.fm.MODELS[n0:]
        snaps = sorted((s for m in new for s in m.solves), key=lambda s: s.k)
        self.first_snapshot = snaps[0] if snaps else None
        self.second_snapshot = snaps[1] if len(snaps) > 1 else None
        self.last_snapshot = snaps[-1] if snaps else None
        return snaps

    def row(self, snap, name):
        """(right hand side, dual) of a row of a solved problem."""
        for i, (coefs, sense, rhs, nm) in enumerate(snap.rows):
            if nm == name:
                return rhs, self.sym.Sym(snap.pis[i])
        return None

    def same_answer(self, a, b, duals=False):
        """Two solves of the same problem give the same answer."""
        pos = {nm: i for i, nm in enumerate(a.names)}
        for nm, x in zip(b.names, b.xs):
            if nm in pos:
                self.hyps.append(x == a.xs[pos[nm]])
        if duals:
            pos = {r[3]: i for i, r in enumerate(a.rows)}
            for r, pi in zip(b.rows, b.pis):
                if r[3] in pos:
                    self.hyps.append(pi == a.pis[pos[r[3]]])

    def snapshot(self, k=0):
        for m in self.fm.MODELS:
            for s in m.solves:
                if s.k == k:
                    return s

    def contract(self, snap):
        self.hyps.extend(snap.bound_terms + snap.row_terms + snap.sos_terms)

    def kkt(self, snap, xs=None):
        """The answer of this solve is optimal and its duals are optimal duals (linear program, minimisation)."""
        S, z3 = self.sym, self.z3
        xs = snap.xs if xs is None else xs
        n = S.num
        red = {j: n(snap.obj.coefs.get(j, 0.0)) for j in range(len(xs))}
        out = []
        for i, (coefs, sense, rhs, name) in enumerate(snap.rows):
            pi = snap.pis[i]
            act = z3.Sum([S.mul(n(k), xs[j]) for j, k in coefs.items()] + [z3.RealVal(0)])
            for j, k in coefs.items():
                red[j] = red[j] - S.mul(n(k), pi)
            if sense == '>':
                out += [pi >= 0, z3.Or(pi == 0, act == n(rhs))]
            elif sense == '<':
                out += [pi <= 0, z3.Or(pi == 0, act == n(rhs))]
        for j, x in enumerate(xs):
            rc = red[j]
            lb, ub = snap.lb[j], snap.ub[j]
            out.append(rc <= 0 if S._special(lb) is not None else z3.Or(rc <= 0, x == n(lb)))
            out.append(rc >= 0 if S._special(ub) is not None else z3.Or(rc >= 0, x == n(ub)))
        self.hyps.extend(out)

    def at(self, term, snap, other):
        """A result stated over one solve's answer, at another solve's answer (variables matched by name)."""
        S = self.sym
        if not isinstance(term, S.Sym):
            return term
        pos = {nm: i for i, nm in enumerate(other.names)}
        return S.Sym(self.z3.substitute(term.t, *[(x, other.xs[pos[nm]]) for x, nm in zip(snap.xs, snap.names) if nm in pos]))

    def keeps_choice(self, label, snap, other):
        """No answer to the problem of `other` uses two members of a set of which `snap` may use one."""
        pos = {nm: x for nm, x in zip(other.names, other.xs)}
        for idx, weights, kind in snap.sos:
            xs = [pos.get(snap.names[j]) for j in idx]
            if kind == 1 and all(x is not None for x in xs):
                for i, x in enumerate(xs):
                    for y in xs[i + 1:]:
                        self.true(label, self.sym.SymB(self.z3.Or(self.z3.And(x <= TOL, x >= -TOL), self.z3.And(y <= TOL, y >= -TOL))))

    def keeps_point(self, label, snap, other):
        """The answer to `snap` is feasible for the problem of `other` (variables matched by name)."""
        z3, S = self.z3, self.sym
        n = S.num
        src = {nm: x for nm, x in zip(snap.names, snap.xs)}
        xs = [src.get(nm) for nm in other.names]
        if any(x is None for x in xs):
            return self.true(label + '/variables', False)
        for i, x in enumerate(xs):
            if self._special(other.lb[i]) is None:
                self.ge(label + '/bound', S.Sym(x), other.lb[i])
            if self._special(other.ub[i]) is None:
                self.le(label + '/bound', S.Sym(x), other.ub[i])
        for coefs, sense, rhs, name in other.rows:
            t = z3.Sum([S.mul(n(k), xs[j]) for j, k in coefs.items()] + [z3.RealVal(0)])
            self.rel(label + '/constraint', S.Sym(t), sense, rhs)

    def accepts(self, label, snap=None):
        """Every row, bound and SOS of the model holds at the harness' point."""
        z3, n = self.z3, self.sym.num
        snap = snap or self.snapshot(0)
        for i, (coefs, sense, rhs, name) in enumerate(snap.rows):
            terms = [self.sym.mul(n(k), snap.xs[j]) for j, k in coefs.items()]
            lhs = z3.Sum(terms) if terms else z3.RealVal(0)
            self.rel('%s/row' % label, self.sym.Sym(lhs), sense, rhs)
        for i, x in enumerate(snap.xs):
            if self._special(snap.lb[i]) is None:
                self.ge('%s/lower-bound' % label, self.sym.Sym(x), snap.lb[i])
            elif snap.lb[i] > 0 or snap.lb[i] != snap.lb[i]:
                self.true('%s/lower-bound' % label, False)
            if self._special(snap.ub[i]) is None:
                self.le('%s/upper-bound' % label, self.sym.Sym(x), snap.ub[i])
            elif snap.ub[i] < 0 or snap.ub[i] != snap.ub[i]:
                self.true('%s/upper-bound' % label, False)
        for t in snap.sos_terms:
            self.true('%s/sos' % label, self.sym.SymB(t))

    def reachable(self):
        z3 = self.z3
        self.p.stats.reach_queries += 1
        r, m = self._check(list(self.hyps))
        if r == z3.sat:
            return self.violation('witness', '', m)
        return None


def pick(E, name, options):
    if len(options) == 1:
        return options[0]
    x = E.real(name, 0, len(options) - 1)
    lo, hi = 0, len(options) - 1
    while lo < hi:
        mid = (lo + hi) // 2
        if E.decide(E.leq(x, mid + 0.5)):
            hi = mid
        else:
            lo = mid + 1
    return options[lo]


def mval(z3, m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return float(fractions.Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        v = v.approx(20)
        return float(fractions.Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_int_value(v):
        return float(v.as_long())
    return 0.0


class Reproduced(BaseException):
    def __init__(self, label, detail):
        super().__init__(label)
        self.label, self.detail = label, detail


class ConcEnv:
    """Replay with concrete numbers on the unpatched code and the real solver."""
    symbolic = False

    def __init__(self, values, xs, memo, label, tier):
        self.values, self.xs, self.memo_data, self.label, self.tier = values, xs, memo, label, tier
        self.steer = 0
        self.failed = []
        self.models = []
        self.infeasible = False

    def real(self, name, lo=None, hi=None):
        if name not in self.values:      # the symbolic run ended before this input was made
            raise ReplayGap(name)
        return float(self.values[name])

    def int(self, name, lo=None, hi=None):
        return int(round(self.real(name)))

    def pick(self, name, options):
        return pick(self, name, options)

    def sqrt(self, x):
        return x ** 0.5

    def leaf(self, x, integer=False):
        return str(x) if isinstance(x, (str, int)) else repr(float(x))

    def assume(self, c):
        pass

    hyp = assume

    def memo(self, key, fn):
        return self.memo_data[key]

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def If(self, c, a, b):
        return a if bool(c) else b

    def Max(self, *xs):
        return max(xs)

    def Min(self, *xs):
        return min(xs)

    def lt(self, a, b):
        return a < b

    def leq(self, a, b):
        return a <= b

    def eq(self, a, b):
        return a == b

    def near(self, a, b):
        return abs(a - b) <= CONC_TOL

    def decide(self, c):
        return bool(c)

    def _fail(self, label, detail):
        self.failed.append((label, detail))
        if label == self.label or self.label is None:
            raise Reproduced(label, detail)

    def close(self, label, a, b, when=True, hyps=True, tol=None):
        if not when:
            return
        a, b = float(a), float(b)
        if a == b or (a != a and b != b):
            return
        if not abs(a - b) <= (tol or CONC_TOL):
            self._fail(label, '%r should equal %r' % (a, b))

    def le(self, label, a, b, when=True, hyps=True, tol=None):
        if when and not float(a) <= float(b) + (tol or CONC_TOL):
            self._fail(label, '%r should be <= %r' % (float(a), float(b)))

    def ge(self, label, a, b, when=True, hyps=True, tol=None):
        self.le(label, b, a, when, tol=tol)

    def true(self, label, c, when=True, hyps=True, detail=''):
        if when and not bool(c):
            self._fail(label, detail or 'condition does not hold')

    def rel(self, label, a, sense, b, when=True, hyps=True):
        if sense in ('<', '<='):
            self.le(label, a, b, when)
        elif sense in ('>', '>='):
            self.ge(label, a, b, when)
        else:
            self.close(label, a, b, when)

    def reset(self, assume_rows=True, pick=None):
        """Steer the real solver to the counterexample's point by fixing variable bounds before each optimize()."""
        import mip
        env = self
        self.count = 0
        self.models = []
        self.records = []
        if not hasattr(mip.Model, '_vf_orig'):
            mip.Model._vf_orig = mip.Model.optimize

        # CBC can crash on special ordered sets of nearly fixed variables: with how > 0 the sets are checked here instead
        if not hasattr(mip.Model, '_vf_sos'):
            mip.Model._vf_sos = mip.Model.add_sos

        def add_sos(m, sos, kind):
            env.all_sos.append((m, list(sos), kind))
            if env.how == 0:
                return m._vf_sos(sos, kind)
            env.sos.append((m, list(sos), kind))
        mip.Model.add_sos = add_sos
        env.sos = []
        env.all_sos = []
        env.problems = []

        def sos_ok(m):
            for mm, s, kind in env.sos:
                if mm is m:
                    x = [v.x for v, wt in sorted(s, key=lambda p: p[1])]
                    nz = [j for j, val in enumerate(x) if abs(val) > CONC_TOL]
                    if nz and nz[-1] - nz[0] >= kind:
                        return False
            return True

        def optimize(m, *a, **k):
            i = env.count
            env.count += 1
            env.models.append(m)
            if env.keep_problems:
                env.problems.append(env.keep_problems(m, env.all_sos))
            first, env.fresh = env.fresh, False
            pt = env.xs.get(str(i)) if env.steer_all or first else None
            saved = []
            if pt:
                for v in m.vars:
                    if v.name in pt:
                        x = pt[v.name]
                        e = (1e-8, 1e-8, 1e-6)[env.how] * max(1.0, abs(x))
                        lb, ub = v.lb, v.ub
                        saved.append((v, lb, ub))
                        nlb, nub = max(lb, x - e), min(ub, x + e)
                        if nlb > nub:          # the point is outside the variable's own bounds
                            if nlb - nub > CONC_TOL:
                                env.infeasible = True
                            nlb = nub = lb if x < lb else ub
                        v.lb, v.ub = nlb, nub
            st = m._vf_orig(*a, **k)
            if first and (st != mip.OptimizationStatus.OPTIMAL or not sos_ok(m)):
                env.infeasible = True
            if env.infeasible and first:
                raise SolverRejects()
            env.records.append({c.name: (c.rhs, c.pi) for c in m.constrs} if env.keep_rows else None)
            return st
        mip.Model.optimize = optimize

    steer_all = False
    how = 0
    fresh = True
    first_snapshot = second_snapshot = last_snapshot = None
    keep_rows = False
    keep_problems = None

    def row(self, snap, name):
        return snap.get(name)

    def same_answer(self, a, b, duals=False):
        pass

    def dispatch(self, market, steer=True, **kw):
        self.fresh = steer
        n0 = len(self.models)
        try:
            market.dispatch(**kw)
            self.first_snapshot = self.snapshot(n0)
            self.second_snapshot = self.snapshot(n0 + 1)
            if self.keep_rows:
                return self.records[n0:]
        except SolverRejects:
            if self.label and self.label.rsplit('/', 1)[-1] in ('row', 'lower-bound', 'upper-bound', 'sos'):
                raise Reproduced(self.label, 'the real model built for these inputs rejects this dispatch')
            raise
        return None

    def snapshot(self, k=0):
        return ConcSnap(self.models[k]) if k < len(self.models) else None

    def contract(self, snap):
        pass

    def kkt(self, snap, xs=None):
        pass

    def at(self, term, snap, other):
        return term

    def keeps_choice(self, label, snap, other):
        import mip
        if snap is None or other is None:
            return
        for m, members, kind in self.all_sos:
            if m is not snap.m or kind != 1:
                continue
            names = [v.name for v, weight in members]
            for i, a in enumerate(names):
                for b in names[i + 1:]:
                    for sa in (1, -1):
                        for sb in (1, -1):
                            c = other.m.copy()
                            x, y = c.var_by_name(a), c.var_by_name(b)
                            if x is None or y is None:
                                continue
                            c.verbose = 0
                            c.add_constr(sa * x >= 0.001)
                            c.add_constr(sb * y >= 0.001)
                            if c._vf_orig() == mip.OptimizationStatus.OPTIMAL:
                                self._fail(label, 'the pricing problem can use both %s and %s' % (a, b))

    def keeps_point(self, label, snap, other):
        if snap is None or other is None:
            return
        src = dict(zip(snap.names, snap.values))
        for i, nm in enumerate(other.names):
            if nm not in src:
                return self._fail(label + '/variables', nm)
            if src[nm] > other.ub[i] + CONC_TOL or src[nm] < other.lb[i] - CONC_TOL:
                self._fail(label + '/bound', 'variable %s is %r, outside [%r, %r]' % (nm, src[nm], other.lb[i], other.ub[i]))
        for c in other.m.constrs:
            e = c.expr
            act = sum(k * src[v.name] for v, k in e.expr.items())
            r = c.rhs
            bad = act > r + 1e-4 if e.sense == '<' else act < r - 1e-4 if e.sense == '>' else abs(act - r) > 1e-4
            if bad:
                self._fail(label + '/constraint', 'row %s: %r %s %r' % (c.name, act, e.sense, r))

    def accepts(self, label, snap=None):
        pass

    def reachable(self):
        return None


class ConcSnap:
    def __init__(self, m):
        self.m = m
        self.names = [v.name for v in m.vars]
        self.values = [v.x for v in m.vars]
        self.lb = [v.lb for v in m.vars]
        self.ub = [v.ub for v in m.vars]


class ReplayGap(BaseException):
    pass


class SolverRejects(BaseException):
    pass
