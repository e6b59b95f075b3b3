"""Symbolic execution engine for real Python code, deciding branches with z3.

A `Sym` wraps a z3 Real term, a `SymB` a z3 Bool term.  They are put in the (object dtype) DataFrames
handed to nempy's public API; nempy's own code and pandas then run on them unchanged.  Every place where
the real code needs a concrete truth value calls SymB.__bool__, which asks the current `Path`; when both outcomes
are feasible the path forks, and the driver (`explore`) re-executes the harness once per feasible path.
"""
import sys
import time
import fractions

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import z3  # noqa: E402

z3.set_param('model.completion', True)


class Steer(BaseException):
    """Steering exceptions derive from BaseException so the code under test cannot swallow them."""


class Inconclusive(Steer):
    """The solver answered unknown, or a symbolic value reached code that cannot be encoded."""


class Infeasible(Steer):
    """The assumptions made on this path are contradictory."""


class PathLimit(Steer):
    pass


CUR = None  # the path being executed


def cur():
    if CUR is None:
        raise Inconclusive('symbolic value used outside a path')
    return CUR


class Stats:
    def __init__(self):
        self.paths = 0
        self.forks = 0
        self.branch_queries = 0
        self.prove_queries = 0
        self.syntactic = 0
        self.reach_queries = 0
        self.solver_s = 0.0

    def as_dict(self):
        return dict(self.__dict__)

    def add(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k, 0) + v)


def const_of(t):
    """The Fraction of a z3 numeral, or None."""
    if z3.is_rational_value(t):
        return fractions.Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def num(v):
    """z3 term of a python/numpy number (floats are taken as the exact rational they denote)."""
    if isinstance(v, Sym):
        return v.t
    if isinstance(v, SymB):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_expr(v):
        return v
    if isinstance(v, fractions.Fraction):
        return z3.RealVal(v)
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if hasattr(v, 'item'):
        v = v.item()
        return num(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise ValueError('not finite')
        return z3.RealVal(fractions.Fraction(v))
    raise TypeError('not a number: %r' % (v,))


def _isnum(o):
    import numpy as np
    return isinstance(o, (int, float, fractions.Fraction, Sym, SymB, np.number, np.bool_)) or z3.is_expr(o)


def _special(o):
    """nan / inf floats; returns the float or None."""
    if isinstance(o, (Sym, SymB)) or z3.is_expr(o):
        return None
    try:
        f = float(o)
    except Exception:
        return None
    if f != f or f in (float('inf'), float('-inf')):
        return f
    return None


class SymText(str):
    """The text of a symbolic number, as read from a file."""

    def __new__(cls, sym, integer=False):
        o = str.__new__(cls, '<number>')
        o.sym, o.integer = sym, integer
        return o

    def __eq__(self, o):
        if isinstance(o, SymText):
            return self.sym is o.sym
        if isinstance(o, str):
            try:
                float(o)
            except ValueError:
                return False
            raise Inconclusive('the text of a number compared with %r' % o)
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self)


class SymB:
    __slots__ = ('t',)
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        return SymB(z3.And(self.t, boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymB(z3.Or(self.t, boolterm(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymB(z3.Xor(self.t, boolterm(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymB(z3.Not(self.t))

    def __eq__(self, o):
        return SymB(self.t == boolterm(o))

    def __ne__(self, o):
        return SymB(self.t != boolterm(o))

    def __hash__(self):
        return 7919

    def __mul__(self, o):
        return Sym(num(self)) * o
    __rmul__ = __mul__

    def __repr__(self):
        return 'SymB(%s)' % self.t


def boolterm(o):
    if isinstance(o, SymB):
        return o.t
    if z3.is_expr(o):
        return o
    return z3.BoolVal(bool(o))


class Sym:
    """A symbolic real."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    # constant hash: hash tables (merge, groupby, drop_duplicates, isin) then decide key equality with __eq__,
    # which forks.
    def __hash__(self):
        return 7919

    def _bin(self, o, f, special):
        if not _isnum(o):
            return NotImplemented
        s = _special(o)
        if s is not None:
            return special(s)
        return Sym(f(self.t, num(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda s: s)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda s: s)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda s: -s)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda s: s)

    def __mul__(self, o):
        if not _isnum(o):
            return NotImplemented
        s = _special(o)
        if s is not None:
            if s != s:
                return s
            if self > 0:
                return s
            if self < 0:
                return -s
            return float('nan')
        return Sym(mul(self.t, num(o)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        s = _special(o)
        if s is not None:
            return s if s != s else Sym(z3.RealVal(0))
        return div(self.t, num(o))

    def __rtruediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        s = _special(o)
        if s is not None:
            return self.__rmul__(s)
        return div(num(o), self.t)

    def __pow__(self, o):
        if isinstance(o, Sym):
            raise Inconclusive('symbolic exponent')
        if float(o) == int(o) and 0 <= int(o) <= 4:
            r = z3.RealVal(1)
            for _ in range(int(o)):
                r = mul(r, self.t)
            return Sym(r)
        if o == 0.5:
            return cur().root(self)
        raise Inconclusive('power %r' % (o,))

    def __neg__(self):
        return Sym(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, f, pinf, ninf):
        if not _isnum(o):
            return NotImplemented
        s = _special(o)
        if s is not None:
            if s != s:
                return False
            return pinf if s > 0 else ninf
        return SymB(f(self.t, num(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, Sym) and self.t.eq(o.t):
            return True
        if not _isnum(o):
            return False
        if _special(o) is not None:
            return False
        return SymB(self.t == num(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymB):
            return ~r
        return not r

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __float__(self):
        c = const_of(z3.simplify(self.t))
        if c is not None:
            return float(c)
        if CUR is not None and CUR.on_float is not None:
            return CUR.on_float(self)
        raise Inconclusive('a symbolic number reached code that needs a machine float')

    def __int__(self):
        c = const_of(z3.simplify(self.t))
        if c is not None:
            return int(c)
        raise Inconclusive('a symbolic number reached code that needs a machine int')

    def __index__(self):
        raise TypeError('symbolic number used as an index')

    def __round__(self, n=None):
        # rounding is an uninterpreted perturbation of at most half a unit in the last place kept
        return cur().rounded(self, n or 0)

    def item(self):
        return self

    # numpy calls these on object arrays
    def sqrt(self):
        return cur().root(self)

    def rint(self):
        return cur().rounded(self, 0)

    def conjugate(self):
        return self

    def isnan(self):
        return False

    def __repr__(self):
        return 'Sym(%s)' % self.t

    def __format__(self, spec):
        return 'Sym(%s)' % self.t

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def mul(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca == 0 or cb == 0:
        return z3.RealVal(0)
    if ca == 1:
        return b
    if cb == 1:
        return a
    return a * b


def div(a, b):
    cb = const_of(z3.simplify(b)) if not z3.is_rational_value(b) else const_of(b)
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError('float division by zero')
        return Sym(a * z3.RealVal(1 / cb))
    if cur().branch(b == 0):
        return _div_by_zero(a)
    return Sym(a / b)


def _div_by_zero(a):
    # numpy/pandas semantics for float columns (inf / nan); a Python float would raise, harness assumptions exclude it.
    if cur().branch(a > 0):
        return float('inf')
    if cur().branch(a < 0):
        return float('-inf')
    return float('nan')


class Path:
    def __init__(self, prefix, stats, timeout_ms=60000, maxdepth=400):
        self.prefix = list(prefix)
        self.taken = []          # (decision, forked?)
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.solver = z3.SolverFor('QF_NRA') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.pc = []
        self.inputs = {}         # name -> term (in creation order)
        self.on_float = None
        self.fresh_n = 0
        self.maxdepth = maxdepth
        self.pending = []
        self.cache = {}
        self._keep = []

    # -- symbols
    def real(self, name, lo=None, hi=None, input=True):
        t = z3.Real(name)
        if input:
            self.inputs[name] = t
        s = Sym(t)
        if lo is not None:
            self.assume(t >= num(lo))
        if hi is not None:
            self.assume(t <= num(hi))
        return s

    def fresh(self, name):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (name, self.fresh_n))

    def integer(self, name, lo=None, hi=None):
        t = z3.ToReal(z3.Int(name))
        self.inputs[name] = t
        if lo is not None:
            self.assume(t >= num(lo))
        if hi is not None:
            self.assume(t <= num(hi))
        return Sym(t)

    def root(self, s):
        """The square root of a number that is not negative."""
        t = z3.simplify(s.t)
        c = const_of(t)
        if c is not None and c >= 0:
            return float(c) ** 0.5
        key = ('root', t.get_id())
        if key in self.cache:
            return self.cache[key]
        if not self.branch(t >= 0):
            raise Inconclusive('square root of a negative number')
        r = self.fresh('root')
        self.assume(z3.And(r >= 0, r * r == t))
        self.cache[key] = Sym(r)
        self._keep.append(t)
        return self.cache[key]

    def rounded(self, s, n):
        n = int(n)
        t = s.t
        key = ('round', t.get_id(), n)
        if key in self.cache:
            return self.cache[key]
        r = self.fresh('round')
        half = fractions.Fraction(1, 2) / (fractions.Fraction(10) ** n)
        k = z3.Int('%s_k' % r)
        self.assume(z3.And(r - t <= num(half), t - r <= num(half),
                           r * num(fractions.Fraction(10) ** n) == z3.ToReal(k)))
        out = Sym(r)
        self.cache[key] = out
        self._keep.append(t)
        return out

    # -- constraints
    def assume(self, t):
        if isinstance(t, SymB):
            t = t.t
        if isinstance(t, bool):
            if not t:
                raise Infeasible()
            return
        self.pc.append(t)
        self.solver.add(t)

    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            # the incremental solver gave up (non-linear terms): ask the one-shot procedures
            for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(),
                       lambda: z3.Solver()):
                s = mk()
                s.set('timeout', 20000)
                s.add(*self.pc)
                s.add(*extra)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r != z3.unknown:
                    break
        self.stats.solver_s += time.time() - t0
        return r

    def branch(self, cond):
        if isinstance(cond, SymB):
            cond = cond.t
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.cache:
            return self.cache[key]
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i >= self.maxdepth:
                raise PathLimit('more than %d branch decisions on a path' % self.maxdepth)
            self.stats.branch_queries += 1
            rt = self._check(cond)
            if rt == z3.unsat:
                d = False
            else:
                self.stats.branch_queries += 1
                rf = self._check(z3.Not(cond))
                if rf == z3.unsat:
                    d = True
                elif rt == z3.unknown or rf == z3.unknown:
                    raise Inconclusive('solver unknown on branch %s' % cond)
                else:
                    self.stats.forks += 1
                    self.pending.append([x for x in self.taken] + [False])
                    d = True
        self.taken.append(d)
        self.cache[key] = d
        self._keep.append(cond)
        c = cond if d else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        return d


def explore(fn, stats=None, max_paths=5000, timeout_ms=60000, deadline=None):
    """Run fn(path) on every feasible path (re-execution).  Yields (path, result)."""
    global CUR
    stats = stats or Stats()
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        p = Path(prefix, stats, timeout_ms)
        CUR = p
        try:
            res = fn(p)
            work.extend(p.pending)
            stats.paths += 1
            n += 1
            yield p, res
        except Infeasible:
            work.extend(p.pending)
        finally:
            CUR = None
        if n > max_paths:
            raise PathLimit('more than %d paths' % max_paths)
        if deadline is not None and time.time() > deadline:
            raise Inconclusive('time budget used up after %d paths' % n)
