"""A recording stand-in for the python-mip API, loaded in place of `mip` while nempy runs symbolically.

It records exactly what nempy asks the solver to solve (variables with bounds, linear constraints, special ordered sets,
objective) and, on optimize(), answers with an arbitrary solution: fresh real numbers constrained only by
the solver's contract (see Policy).  Expressions are kept by column index, as python-mip/CBC do,
so that a mix-up between two models is visible.
"""
import sys
import types

from .sym import Sym, SymB, num, z3, cur, _isnum
from . import sym

real_mip = None
MODELS = []     # every Model built since reset()


def _lin(o):
    if isinstance(o, LinExpr):
        return o
    if isinstance(o, Var):
        return LinExpr({o.idx: 1.0}, 0.0)
    if _isnum(o):
        return LinExpr({}, o)
    return None


class LinExpr:
    __hash__ = None

    def __init__(self, coefs, const=0.0, sense=''):
        self.coefs = coefs
        self.const = const
        self.sense = sense
        self.goal = None

    def _comb(self, o, k):
        o = _lin(o)
        if o is None:
            return NotImplemented
        c = dict(self.coefs)
        for i, v in o.coefs.items():
            c[i] = c[i] + v * k if i in c else v * k
        return LinExpr(c, self.const + o.const * k, self.sense)

    def __add__(self, o):
        return self._comb(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._comb(o, -1)

    def __rsub__(self, o):
        return (self * -1)._comb(o, 1)

    def __mul__(self, k):
        if not _isnum(k):
            return NotImplemented
        return LinExpr({i: v * k for i, v in self.coefs.items()}, self.const * k, self.sense)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return LinExpr({i: v / k for i, v in self.coefs.items()}, self.const / k, self.sense)

    def __neg__(self):
        return self * -1

    def _rel(self, o, sense):
        r = self._comb(o, -1)
        if r is NotImplemented:
            return r
        r.sense = sense
        return r

    def __le__(self, o):
        return self._rel(o, '<')

    def __ge__(self, o):
        return self._rel(o, '>')

    def __eq__(self, o):
        return self._rel(o, '=')

    def copy(self):
        return LinExpr(dict(self.coefs), self.const, self.sense)


class Var:
    def __init__(self, model, idx, lb, ub, var_type, obj, name):
        self.model, self.idx, self.lb, self.ub = model, idx, lb, ub
        self.var_type, self.name = var_type, name
        self.x = None
        self.rc = None

    def __hash__(self):
        return self.idx

    def __add__(self, o):
        return _lin(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return _lin(self) - o

    def __rsub__(self, o):
        return o - _lin(self)

    def __mul__(self, k):
        if not _isnum(k):
            return NotImplemented
        return LinExpr({self.idx: k}, 0.0)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return LinExpr({self.idx: 1.0 / k}, 0.0)

    def __neg__(self):
        return _lin(self) * -1

    def __le__(self, o):
        return _lin(self) <= o

    def __ge__(self, o):
        return _lin(self) >= o

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        return _lin(self) == o

    def __repr__(self):
        return 'Var(%s)' % self.name


class Constr:
    def __init__(self, model, idx, expr, name):
        self.model, self.idx, self.name = model, idx, name
        self.coefs = dict(expr.coefs)
        self.sense = expr.sense
        self.rhs = -expr.const if not (isinstance(expr.const, float) and expr.const == 0.0) else 0.0
        self.pi = None
        self.activity = None
        self.solved_rhs = None

    @property
    def slack(self):
        if self.activity is None:
            return None
        a, r = Sym(self.activity), self.solved_rhs
        if self.sense == '<':
            return r - a
        if self.sense == '>':
            return a - r
        return abs(r - a)

    @property
    def expr(self):
        return LinExpr(dict(self.coefs), -self.rhs, self.sense)


class _Solver:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class _VarList(list):
    pass


class Model:
    def __init__(self, name='', sense='MIN', solver_name='', solver=None):
        self.name = name
        self.sense = sense
        self.solver_name = solver_name
        self.solver = _Solver()
        self.vars = _VarList()
        self.constrs = []
        self.sos = []
        self.obj = LinExpr({}, 0.0)
        self.obj_history = []
        self.verbose = 1
        self.solves = []          # snapshots, one per optimize()
        self.number = len(MODELS)
        self._by_name = {}
        self._c_by_name = {}
        self.objective_value = None
        self.status = None
        MODELS.append(self)

    def add_var(self, name='', lb=0.0, ub=float('inf'), obj=0.0, var_type='C', column=None):
        idx = len(self.vars)
        if var_type == 'B':
            lb, ub = 0.0, 1.0
        v = Var(self, idx, lb, ub, var_type, obj, name or 'var(%d)' % idx)
        self.vars.append(v)
        self._by_name.setdefault(v.name, v)
        if not (isinstance(obj, float) and obj == 0.0):
            self.obj.coefs[idx] = obj
        return v

    def add_constr(self, lin_expr, name='', priority=None):
        if isinstance(lin_expr, bool) or not isinstance(lin_expr, LinExpr) or lin_expr.sense == '':
            raise real_mip.InvalidLinExpr('not a linear constraint')
        if isinstance(lin_expr.const, float) and lin_expr.const != lin_expr.const:
            return None                 # CBC ignores a row whose right hand side is not a number
        c = Constr(self, len(self.constrs), lin_expr, name or 'constr(%d)' % len(self.constrs))
        self.constrs.append(c)
        self._c_by_name.setdefault(c.name, c)
        return c

    def __iadd__(self, other):
        if isinstance(other, LinExpr):
            if other.sense:
                self.add_constr(other)
            else:
                self.objective = other
        elif isinstance(other, tuple):
            self.add_constr(other[0], other[1])
        else:
            raise TypeError(type(other))
        return self

    def add_sos(self, sos, sos_type):
        self.sos.append(([(v, w) for v, w in sos], sos_type))

    @property
    def objective(self):
        return self.obj

    @objective.setter
    def objective(self, o):
        o = _lin(o)
        self.obj = LinExpr(dict(o.coefs), o.const)
        if o.goal:
            self.sense = o.goal

    def var_by_name(self, name):
        return self._by_name.get(name)

    def constr_by_name(self, name):
        return self._c_by_name.get(name)

    def translate(self, ref):
        raise NotImplementedError

    def remove(self, obj):
        for o in (obj if isinstance(obj, (list, tuple)) else [obj]):
            if isinstance(o, Constr):
                self.constrs = [c for c in self.constrs if c is not o]
                self._c_by_name = {}
                for c in self.constrs:
                    self._c_by_name.setdefault(c.name, c)
            else:
                raise NotImplementedError('remove variable')

    def copy(self, solver_name=''):
        m = Model(self.name, self.sense)
        for v in self.vars:
            m.add_var(name=v.name, lb=v.lb, ub=v.ub, var_type=v.var_type)
        for c in self.constrs:
            m.add_constr(c.expr, c.name)
        m.obj = self.obj.copy()
        m.sos = [([(m.vars[v.idx], w) for v, w in s], t) for s, t in self.sos]
        return m

    def optimize(self, *a, **k):
        relax = k.get('relax', a[5] if len(a) > 5 else False)
        return POLICY.solve(self, relax=relax)

    @property
    def num_cols(self):
        return len(self.vars)

    @property
    def num_rows(self):
        return len(self.constrs)

    # ---- encoding helpers
    def bounds_terms(self, xs):
        out = []
        for v in self.vars:
            for b, le in ((v.lb, True), (v.ub, False)):
                if not isinstance(b, Sym) and b in (float('inf'), float('-inf')):
                    continue
                out.append(num(b) <= xs[v.idx] if le else xs[v.idx] <= num(b))
        return out

    def activity(self, c, xs):
        terms = [sym.mul(num(k), xs[i]) for i, k in c.coefs.items()]
        terms = [t for t in terms if sym.const_of(t) != 0]
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def constr_term(self, c, xs):
        return rel(self.activity(c, xs), c.sense, num(c.rhs))

    def sos_terms(self, xs):
        out = []
        for s, t in self.sos:
            # real weights decide the order; they are concrete in nempy (segment numbers / 1.0)
            order = sorted(range(len(s)), key=lambda i: float(s[i][1]))
            x = [xs[s[i][0].idx] for i in order]
            if t == 1:
                for i in range(len(x)):
                    for j in range(i + 1, len(x)):
                        out.append(z3.Or(x[i] == 0, x[j] == 0))
            else:
                for i in range(len(x)):
                    for j in range(i + 2, len(x)):
                        out.append(z3.Or(x[i] == 0, x[j] == 0))
        return out

    def obj_term(self, xs):
        ts = [sym.mul(num(k), xs[i]) for i, k in self.obj.coefs.items()]
        return z3.Sum(ts + [num(self.obj.const)])


def rel(a, sense, b):
    return a <= b if sense == '<' else a >= b if sense == '>' else a == b


class Snapshot:
    """What was solved by one optimize() call, and the arbitrary answer given."""

    def __init__(self, model, xs, pis):
        self.model = model
        self.lb = [v.lb for v in model.vars]
        self.ub = [v.ub for v in model.vars]
        self.names = [v.name for v in model.vars]
        self.types = [v.var_type for v in model.vars]
        self.rows = [(dict(c.coefs), c.sense, c.rhs, c.name) for c in model.constrs]
        self.obj = model.obj.copy()
        self.sense = model.sense
        self.sos = [([v.idx for v, w in s], [w for v, w in s], t) for s, t in model.sos]
        self.xs = xs
        self.pis = pis
        self.row_terms = [model.constr_term(c, xs) for c in model.constrs]
        self.bound_terms = model.bounds_terms(xs)
        self.sos_terms = model.sos_terms(xs)


class Policy:
    """solve(): the solver's contract.

    The first solve of each model returns fresh variables.  `assume` says which parts of the contract are put on the path
    condition (they are always kept in the snapshot so that goals can use them).
    """

    def __init__(self, assume_first=True, assume_later=False, x_name='x', share=True):
        self.assume_first = assume_first
        self.assume_later = assume_later
        self.count = 0
        self.pick = None
        self.status = None

    def solve(self, m, relax=False):
        k = self.count
        self.count += 1
        tag = 'x' if k == 0 else 'y' if k == 1 else 'z%d' % k
        xs = None
        if self.pick is not None:
            xs = self.pick(m, k)
        if xs is None:
            xs = [z3.Real('%s_%s' % (tag, v.name)) for v in m.vars]
        pis = [z3.Real('pi%d_%s' % (k, c.name)) for c in m.constrs]
        snap = Snapshot(m, xs, pis)
        snap.k = k
        ending = real_mip.OptimizationStatus.OPTIMAL
        if relax:                  # the linear relaxation: no special ordered sets, no integers
            snap.sos, snap.sos_terms, snap.types = [], [], ['C' for v in m.vars]
        if self.status is not None:
            st = self.status(m, k)
            if st == real_mip.OptimizationStatus.FEASIBLE:
                ending = st
            elif st != real_mip.OptimizationStatus.OPTIMAL:
                if k == 0 and self.assume_first:
                    for t in snap.bound_terms + snap.row_terms + snap.sos_terms:
                        cur().assume(t)
                for v in m.vars:
                    v.x = None
                for c in m.constrs:
                    c.pi = None
                m.objective_value = None
                m.status = st
                return st
        m.solves.append(snap)
        if (k == 0 and self.assume_first) or (k > 0 and self.assume_later):
            p = cur()
            for t in snap.bound_terms + snap.row_terms + snap.sos_terms:
                p.assume(t)
        for v in m.vars:
            v.x = Sym(xs[v.idx])
        for c in m.constrs:
            c.pi = Sym(pis[c.idx] if c.idx < len(pis) else z3.RealVal(0))
            c.activity = m.activity(c, xs)
            c.solved_rhs = c.rhs if isinstance(c.rhs, Sym) else Sym(num(c.rhs))
        m.objective_value = Sym(m.obj_term(xs))
        m.status = ending
        return m.status


POLICY = Policy()


def xsum(terms):
    r = LinExpr({}, 0.0)
    for t in terms:
        r = r + t
    return r


def minimize(e):
    e = _lin(e).copy()
    e.goal = 'MIN'
    return e


def maximize(e):
    e = _lin(e).copy()
    e.goal = 'MAX'
    return e


def reset(policy=None):
    global POLICY
    MODELS.clear()
    POLICY = policy or Policy()
    return POLICY


def install():
    """Make `import mip` give the stand-in.  Must be called before nempy is imported."""
    global real_mip
    if 'nempy' in sys.modules:
        raise RuntimeError('nempy already imported')
    import mip as _m
    real_mip = _m
    f = types.ModuleType('mip')
    f.__dict__.update({k: v for k, v in _m.__dict__.items() if not k.startswith('__')})
    f.Model, f.Var, f.LinExpr, f.Constr = Model, Var, LinExpr, Constr
    f.xsum, f.minimize, f.maximize = xsum, minimize, maximize
    f.__path__ = []
    sys.modules['mip'] = f
