"""Symbolic dates and times: stand-ins for datetime, timedelta, time and int in nempy's case file module.

A date is a symbolic day number, a time of day a symbolic number of seconds; year, month and day are tied to the day number by the
Gregorian calendar.  Digits of symbolic integers appear in text as private use characters, which ordinary string code (slicing, zfill,
format, replace) carries along."""
import datetime as dt
import re

from . import sym
from .sym import z3, Sym, SymB, Inconclusive

BASE = 0xE000
CUM = (0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def store():
    p = sym.cur()
    if not hasattr(p, 'symtime'):
        p.symtime = {'chars': [], 'civil': {}, 'keep': []}
    return p.symtime


def iv(x):
    """z3 Int term of an integer."""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, Sym):
        t = x.t
        return t.arg(0) if z3.is_to_real(t) else z3.ToInt(t)
    if isinstance(x, bool) or not isinstance(x, (int, float)) or x != int(x):
        raise Inconclusive('not an integer: %r' % (x,))
    return z3.IntVal(int(x))


def wrap(t, prov=None):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t, prov)


class SInt:
    """A symbolic integer."""
    __hash__ = None

    def __init__(self, t, prov=None):
        self.t, self.prov = t, prov

    def _bin(self, o, f):
        if isinstance(o, (Sym, float)):
            return f(Sym(z3.ToReal(self.t)), o)
        if isinstance(o, (int, SInt)):
            return wrap(f(self.t, iv(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return wrap(-self.t)

    def __truediv__(self, o):
        return Sym(z3.ToReal(self.t)) / (Sym(z3.ToReal(o.t)) if isinstance(o, SInt) else o)

    def _pos(self, o):
        if not isinstance(o, int) or o <= 0:
            raise Inconclusive('division by %r' % (o,))
        return z3.IntVal(o)

    def __floordiv__(self, o):
        return wrap(self.t / self._pos(o))

    def __mod__(self, o):
        return wrap(self.t % self._pos(o))

    def __divmod__(self, o):
        return self // o, self % o

    def _cmp(self, o, f):
        if isinstance(o, (Sym, float)):
            return SymB(f(z3.ToReal(self.t), sym.num(o)))
        return SymB(f(self.t, iv(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        raise Inconclusive('a symbolic integer is needed as a plain one')
    __index__ = __int__

    def digits(self, width=None):
        """Its decimal digits as text; forks on the length unless a width is given that holds it."""
        n = 1
        if width is not None and below(self, width):
            return ''.join(char(self, k) for k in range(width - 1, -1, -1))
        if bool(self < 0):
            return '-' + (-self).digits()
        while not bool(self < 10 ** n):
            n += 1
            if n > 12:
                raise Inconclusive('a very large integer as text')
        out = ''.join(char(self, k) for k in range(n - 1, -1, -1))
        return out if width is None else out.zfill(width)

    def __str__(self):
        return self.digits()
    __repr__ = __str__

    def __format__(self, spec):
        m = re.fullmatch(r'(0?)(\d*)d?', spec)
        if not m:
            raise Inconclusive('format %r' % spec)
        s = self.digits()
        w = int(m.group(2) or 0)
        return s.zfill(w) if m.group(1) else s.rjust(w)


def char(x, pos):
    st, key = store(), ('char', x.t.get_id(), pos)
    if key not in st:
        st['keep'].append(x.t)
        st['chars'].append((x, pos))
        st[key] = chr(BASE + len(st['chars']) - 1)
    return st[key]


def number(text):
    """The integer a text of digits denotes."""
    st = store()
    src = []
    for c in text.strip():
        if c.isdigit() and ord(c) < 128:
            src.append((int(c), None))
        elif BASE <= ord(c) < BASE + len(st['chars']):
            src.append(st['chars'][ord(c) - BASE])
        else:
            raise ValueError('invalid literal for int(): %r' % text)
    while len(src) > 1 and src[0] == (0, None):
        src = src[1:]
    if not src:
        raise ValueError('invalid literal for int(): %r' % text)
    first = src[0][0]
    if src[0][1] is not None and all(x is first and p == len(src) - 1 - i for i, (x, p) in enumerate(src)) \
            and below(first, len(src)):
        return first
    if all(p is None for x, p in src):
        return int(''.join(str(x) for x, p in src))
    t = z3.IntVal(0)
    for x, p in src:
        t = t * 10 + (z3.IntVal(x) if p is None else (x.t / 10 ** p) % 10)
    return SInt(t)


def below(x, n):
    """x certainly has at most n digits."""
    st, key = store(), ('below', x.t.get_id(), n)
    if key not in st:
        st[key] = sym.cur()._check(z3.Or(x.t < 0, x.t >= 10 ** n)) == z3.unsat
        st['keep'].append(x.t)
    return st[key]


def symbolic_text(s):
    return isinstance(s, str) and any(BASE <= ord(c) < BASE + 0x1900 for c in s)


class vint(int):
    _vf_int = True

    def __new__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, Sym):
            t = z3.simplify(x.t)
            return wrap(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
        if symbolic_text(x):
            return number(x)
        return int(x, *a)


def round_(x, n=None):
    if isinstance(x, Sym):
        raise Inconclusive('rounding a symbolic number')
    return x if isinstance(x, SInt) else round(x) if n is None else round(x, n)


# ---- calendar
def leap(y):
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def ordinal(y, m, d):
    """Day number (as datetime.toordinal)."""
    p = y - 1
    cum = z3.IntVal(334)
    for k in range(11, 0, -1):
        cum = z3.If(m == k, CUM[k], cum)
    return p * 365 + p / 4 - p / 100 + p / 400 + cum + z3.If(z3.And(m > 2, leap(y)), 1, 0) + d


def valid(y, m, d):
    dim = z3.If(m == 2, z3.If(leap(y), 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= dim)


def civil(o):
    """(year, month, day) of a day number."""
    o = z3.simplify(o)
    if z3.is_int_value(o):
        d = dt.date.fromordinal(o.as_long())
        return d.year, d.month, d.day
    st = store()
    if o.get_id() not in st['civil']:
        st['keep'].append(o)
        n = len(st['civil'])
        y, m, d = (z3.Int('%s!%d' % (c, n)) for c in 'ymd')
        lo, hi = dt.date(2000, 1, 1).toordinal(), dt.date(2099, 12, 31).toordinal()
        if sym.cur()._check(z3.Or(o < lo, o > hi)) == z3.unsat:
            # every fourth year is a leap year in this range: the same calendar without divisions
            q, r = z3.Int('q!%d' % n), z3.Int('r!%d' % n)
            cum, dim = z3.IntVal(334), z3.If(m == 2, z3.If(r == 0, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))
            for k in range(11, 0, -1):
                cum = z3.If(m == k, CUM[k], cum)
            sym.cur().assume(z3.And(q >= 0, q <= 24, r >= 0, r <= 3, m >= 1, m <= 12, d >= 1, d <= dim, y == 2000 + 4 * q + r,
                                    o == lo - 1 + 1461 * q + 365 * r + z3.If(r > 0, 1, 0) + cum + z3.If(z3.And(m > 2, r == 0), 1, 0) + d))
        else:
            sym.cur().assume(z3.And(valid(y, m, d), ordinal(y, m, d) == o))
        st['civil'][o.get_id()] = tuple(SInt(t, (c, o)) for c, t in zip('ymd', (y, m, d)))
    return st['civil'][o.get_id()]


def from_civil(y, m, d):
    if all(type(x) is int for x in (y, m, d)):
        return z3.IntVal(dt.date(y, m, d).toordinal())
    ps = [getattr(x, 'prov', None) for x in (y, m, d)]
    if all(ps) and [p[0] for p in ps] == ['y', 'm', 'd'] and all(p[1].eq(ps[0][1]) for p in ps):
        return ps[0][1]
    y, m, d = iv(y), iv(m), iv(d)
    if not sym.cur().branch(valid(y, m, d)):
        raise ValueError('day is out of range for month')
    return ordinal(y, m, d)


def secs_of(h, m, s):
    for x, hi in ((h, 23), (m, 59), (s, 59)):
        if isinstance(x, SInt):
            if not bool(x <= hi) or not bool(x >= 0):
                raise ValueError('out of range')
        elif not 0 <= x <= hi:
            raise ValueError('out of range')
    return z3.simplify(iv(h) * 3600 + iv(m) * 60 + iv(s))


def delta_secs(d):
    if isinstance(d, SDelta):
        return d.t
    if isinstance(d, dt.timedelta):
        if d.microseconds:
            raise Inconclusive('microseconds')
        return z3.IntVal(d.days * 86400 + d.seconds)
    return None


class SDelta:
    def __init__(self, t):
        self.t = z3.simplify(t)

    days = property(lambda s: wrap(s.t / 86400))
    seconds = property(lambda s: wrap(s.t % 86400))
    microseconds = 0

    def total_seconds(self):
        return Sym(z3.ToReal(self.t))

    def __truediv__(self, o):
        t = delta_secs(o)
        if t is not None:
            return Sym(z3.ToReal(self.t) / z3.ToReal(t))
        raise Inconclusive('part of a time difference')

    def __floordiv__(self, o):
        t = delta_secs(o)
        if t is None or not z3.is_int_value(t) or t.as_long() <= 0:
            raise Inconclusive('division of a time difference')
        return wrap(self.t / t)

    def __mod__(self, o):
        t = delta_secs(o)
        if t is None or not z3.is_int_value(t) or t.as_long() <= 0:
            raise Inconclusive('division of a time difference')
        return SDelta(self.t % t)

    def __add__(self, o):
        t = delta_secs(o)
        if t is not None:
            return SDelta(self.t + t)
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return SDelta(self.t - delta_secs(o))

    def __rsub__(self, o):
        return SDelta(delta_secs(o) - self.t)

    def __mul__(self, o):
        return SDelta(self.t * iv(o))
    __rmul__ = __mul__

    def __neg__(self):
        return SDelta(-self.t)

    __lt__ = lambda s, o: SymB(s.t < delta_secs(o))
    __le__ = lambda s, o: SymB(s.t <= delta_secs(o))
    __gt__ = lambda s, o: SymB(s.t > delta_secs(o))
    __ge__ = lambda s, o: SymB(s.t >= delta_secs(o))
    __eq__ = lambda s, o: SymB(s.t == delta_secs(o))
    __ne__ = lambda s, o: SymB(s.t != delta_secs(o))
    __hash__ = None


class _MDelta(type):
    def __call__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if all(isinstance(x, (int, float)) for x in a):
            return dt.timedelta(*a)
        if microseconds or milliseconds:
            raise Inconclusive('microseconds')
        return SDelta(iv(weeks * 7 + days) * 86400 + iv(hours) * 3600 + iv(minutes) * 60 + iv(seconds))


class timedelta(metaclass=_MDelta):
    pass


def time_secs(o):
    if isinstance(o, STime):
        return o.s
    if isinstance(o, dt.time):
        return z3.IntVal(o.hour * 3600 + o.minute * 60 + o.second)
    raise Inconclusive('not a time: %r' % (o,))


class STime:
    def __init__(self, s):
        self.s = s

    hour = property(lambda self: wrap(self.s / 3600))
    minute = property(lambda self: wrap((self.s % 3600) / 60))
    second = property(lambda self: wrap(self.s % 60))
    microsecond = 0
    __lt__ = lambda a, o: SymB(a.s < time_secs(o))
    __le__ = lambda a, o: SymB(a.s <= time_secs(o))
    __gt__ = lambda a, o: SymB(a.s > time_secs(o))
    __ge__ = lambda a, o: SymB(a.s >= time_secs(o))
    __eq__ = lambda a, o: SymB(a.s == time_secs(o))
    __ne__ = lambda a, o: SymB(a.s != time_secs(o))
    __hash__ = None


class _MTime(type):
    def __call__(cls, hour=0, minute=0, second=0, microsecond=0):
        if microsecond:
            raise Inconclusive('microseconds')
        if all(isinstance(x, int) for x in (hour, minute, second)):
            return dt.time(hour, minute, second)
        return STime(secs_of(hour, minute, second))


class time(metaclass=_MTime):
    pass


def stamp(o):
    """Seconds since day 0."""
    if isinstance(o, SDateTime):
        return o.o * 86400 + o.s
    if isinstance(o, dt.datetime):
        return z3.IntVal(o.toordinal() * 86400 + o.hour * 3600 + o.minute * 60 + o.second)
    if isinstance(o, dt.date):
        return z3.IntVal(o.toordinal() * 86400)
    return None


def pad(x, w):
    return x.digits(w) if isinstance(x, SInt) else str(x).zfill(w)


class SDateTime:
    """date_only: a date."""

    def __init__(self, o, s, date_only=False):
        self.o, self.s, self.date_only = z3.simplify(o), z3.simplify(s), date_only

    year = property(lambda self: civil(self.o)[0])
    month = property(lambda self: civil(self.o)[1])
    day = property(lambda self: civil(self.o)[2])
    hour = property(lambda self: wrap(self.s / 3600))
    minute = property(lambda self: wrap((self.s % 3600) / 60))
    second = property(lambda self: wrap(self.s % 60))
    microsecond = 0

    def date(self):
        return SDateTime(self.o, z3.IntVal(0), True)

    def time(self):
        return STime(self.s)

    def toordinal(self):
        return wrap(self.o)

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=0):
        g = lambda a, b: b if a is None else a
        o = self.o
        if not (year is None and month is None and day is None):
            o = from_civil(g(year, self.year), g(month, self.month), g(day, self.day))
        s = self.s
        if not (hour is None and minute is None and second is None):
            s = secs_of(g(hour, self.hour), g(minute, self.minute), g(second, self.second))
        return SDateTime(o, s, self.date_only)

    def strftime(self, fmt):
        fmt = fmt.replace('%F', '%Y-%m-%d').replace('%T', '%H:%M:%S')
        f = {'%Y': (self, 'year', 4), '%m': (self, 'month', 2), '%d': (self, 'day', 2), '%H': (self, 'hour', 2), '%M': (self, 'minute', 2), '%S': (self, 'second', 2)}

        def sub(m):
            if m.group(0) == '%%':
                return '%'
            if m.group(0) not in f:
                raise Inconclusive('strftime %s' % m.group(0))
            o, n, w = f[m.group(0)]
            return pad(getattr(o, n), w)
        return re.sub('%.', sub, fmt)

    def isoformat(self, sep='T', timespec='auto'):
        return self.strftime('%Y-%m-%d') if self.date_only else self.strftime('%Y-%m-%d' + sep + '%H:%M:%S')

    def __str__(self):
        return self.isoformat(' ')

    def __format__(self, spec):
        return self.strftime(spec) if spec else str(self)

    def _shift(self, t):
        tot = z3.simplify(self.s + t)
        if z3.is_int_value(t) and t.as_long() % 86400 == 0:
            return SDateTime(self.o + t.as_long() // 86400, self.s, self.date_only)
        return SDateTime(self.o + tot / 86400, z3.IntVal(0) if self.date_only else tot % 86400, self.date_only)

    def __add__(self, d):
        t = delta_secs(d)
        return NotImplemented if t is None else self._shift(t)
    __radd__ = __add__

    def __sub__(self, d):
        t = delta_secs(d)
        if t is not None:
            return self._shift(z3.simplify(-t))
        u = stamp(d)
        return NotImplemented if u is None else SDelta(stamp(self) - u)

    def __rsub__(self, d):
        return SDelta(stamp(d) - stamp(self))

    __lt__ = lambda a, o: SymB(stamp(a) < stamp(o))
    __le__ = lambda a, o: SymB(stamp(a) <= stamp(o))
    __gt__ = lambda a, o: SymB(stamp(a) > stamp(o))
    __ge__ = lambda a, o: SymB(stamp(a) >= stamp(o))
    __eq__ = lambda a, o: SymB(stamp(a) == stamp(o))
    __ne__ = lambda a, o: SymB(stamp(a) != stamp(o))
    __hash__ = None


class _MDateTime(type):
    def __call__(cls, year, month, day, hour=0, minute=0, second=0, microsecond=0):
        if all(type(x) is int for x in (year, month, day, hour, minute, second)):
            return dt.datetime(year, month, day, hour, minute, second)
        return SDateTime(from_civil(year, month, day), secs_of(hour, minute, second))


class datetime(metaclass=_MDateTime):
    min, max = dt.datetime.min, dt.datetime.max

    @staticmethod
    def strptime(text, fmt):
        if not symbolic_text(text):
            return dt.datetime.strptime(text, fmt)
        width = {'Y': 4, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2}
        pos, got, i = 0, dict(Y=1900, m=1, d=1, H=0, M=0, S=0), 0
        while i < len(fmt):
            if fmt[i] == '%':
                w = width.get(fmt[i + 1])
                if w is None:
                    raise Inconclusive('strptime %' + fmt[i + 1])
                got[fmt[i + 1]] = number(text[pos:pos + w])
                pos, i = pos + w, i + 2
            else:
                if text[pos:pos + 1] != fmt[i]:
                    raise ValueError('time data does not match format')
                pos, i = pos + 1, i + 1
        if pos != len(text):
            raise ValueError('unconverted data remains')
        return SDateTime(from_civil(got['Y'], got['m'], got['d']), secs_of(got['H'], got['M'], got['S']))

    @staticmethod
    def fromisoformat(text):
        return datetime.strptime(text.replace('T', ' '), '%Y-%m-%d %H:%M:%S')

    @staticmethod
    def isoformat(d, sep='T', timespec='auto'):
        return d.isoformat(sep)

    @staticmethod
    def strftime(d, fmt):
        return d.strftime(fmt)

    @staticmethod
    def combine(d, t):
        if not isinstance(d, SDateTime) and isinstance(t, dt.time):
            return dt.datetime.combine(d, t)
        o = d.o if isinstance(d, SDateTime) else z3.IntVal(d.toordinal())
        return SDateTime(o, time_secs(t))


class _MDate(type):
    def __call__(cls, year, month, day):
        if all(type(x) is int for x in (year, month, day)):
            return dt.date(year, month, day)
        return SDateTime(from_civil(year, month, day), z3.IntVal(0), True)


class date(metaclass=_MDate):
    pass


def five_minutes(d, epoch):
    """The number of five minute steps (possibly not whole) from the epoch to a symbolic time."""
    return Sym(z3.ToReal((d.o - epoch.toordinal()) * 86400 + d.s) / 300)


def interval_text(o, s):
    """YYYY/MM/DD HH:MM:SS of a day number and seconds of the day."""
    return SDateTime(o, s).strftime('%Y/%m/%d %H:%M:%S')
