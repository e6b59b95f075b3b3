"""Real SQLite and CSV files with symbolic contents.

A symbolic number or date is written into a file or database as a token; SQLite's only way of comparing text, its BINARY collation, is
replaced by one that compares the values behind the tokens (forking where the path does not decide the order), so the SQL text that nempy
builds is run by the real SQLite.  Tokens read back by pandas become the symbolic values again.
"""
import datetime as dt
import re
import sqlite3

from . import symtime

EPOCH = dt.datetime(2009, 1, 1)
TOKEN = re.compile(r'~([dn])(\d+)~')


def date_text(k):
    return (EPOCH + dt.timedelta(minutes=5 * int(k))).strftime('%Y/%m/%d %H:%M:%S')


def date_index(text):
    return (dt.datetime.strptime(text, '%Y/%m/%d %H:%M:%S') - EPOCH) / dt.timedelta(minutes=5)


class SymDate:
    """The text of a symbolic time (a number of five minute steps), ordered as time.  Not a str: pandas compares those byte by byte."""

    def __init__(self, token, sym):
        self.token, self.sym = token, sym

    def __str__(self):
        return self.token

    def __format__(self, spec):
        if spec:
            return self.__getattr__('format')
        return self.token

    def __repr__(self):
        return repr(self.token)

    def _other(self, o):
        if isinstance(o, SymDate):
            return o.sym
        if isinstance(o, str):
            if TOKEN.fullmatch(o):
                return BOOK.of[o].sym
            try:
                return date_index(o)
            except ValueError:
                self.__getattr__('compared with %r' % o)
        return None

    def _cmp(self, o, f):
        v = self._other(o)
        return NotImplemented if v is None else bool(f(self.sym, v))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        v = self._other(o)
        return False if v is None else bool(self.sym == v)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name) and ' ' not in name:
            raise AttributeError(name)
        from .sym import Inconclusive
        raise Inconclusive('text operation on a symbolic date: %s' % name)

    def __getitem__(self, i):
        return self.__getattr__('split')

    def __add__(self, o):
        return self.__getattr__('join')

    __radd__ = __add__


class Book:
    """The tokens of one run."""

    def __init__(self):
        self.of, self.exc, self.text = {}, None, set()

    def date(self, sym):
        t = '~d%d~' % len(self.of)
        self.of[t] = SymDate(t, sym)
        return self.of[t]

    def number(self, sym):
        key = ('n', id(sym))
        if key not in self.of:
            t = '~n%d~' % len(self.of)
            self.of[t] = sym
            self.of[key] = t
        return self.of[key]

    def back(self, v):
        return self.of[v] if isinstance(v, str) and TOKEN.fullmatch(v) else v

    def frame(self, df):
        for c in df.columns:
            if df[c].dtype == object:
                df[c] = [self.back(v) for v in df[c]]
        return df

    def compare(self, a, b):
        if a == b:
            return 0
        if self.exc is not None:
            return 0
        try:
            ta, tb = TOKEN.fullmatch(a), TOKEN.fullmatch(b)
            if not ta and not tb and not symtime.symbolic_text(a) and not symtime.symbolic_text(b):
                return (a > b) - (a < b)
            x, y = self.value(a, ta), self.value(b, tb)
            if a in self.text and b in self.text:       # numbers kept in text columns are ordered as text
                x, y = self.as_text(x), self.as_text(y)
            return -1 if bool(x < y) else 1 if bool(x > y) else 0
        except BaseException as e:      # SQLite swallows it: raised again when the call returns
            self.exc = e
            return 0

    def as_text(self, n):
        """A number ordered as the decimal texts of the whole numbers from 1 to 99 are ordered."""
        from .sym import Sym, z3
        return Sym(z3.If(n.t < 10, 10 * n.t - z3.RealVal('1/2'), n.t))

    def written(self, con, table, df, columns):
        types = {r[1]: str(r[2]).upper() for r in sqlite3.Connection.execute(con, 'pragma table_info(%s)' % table)}
        for c in columns:
            if 'INT' not in types[c] and any(k in types[c] for k in ('TEXT', 'CHAR', 'CLOB')):
                self.text |= {self.number(v) for v in df[c] if is_sym(v)}

    def value(self, s, m):
        if m:
            v = self.of[s]
            return v.sym if isinstance(v, SymDate) else v
        if symtime.symbolic_text(s):
            return symtime.five_minutes(symtime.datetime.strptime(s, '%Y/%m/%d %H:%M:%S'), EPOCH)
        try:
            return date_index(s)
        except ValueError:
            pass
        try:
            return float(s)
        except ValueError:
            from .sym import Inconclusive
            raise Inconclusive('SQL compares a symbolic value with %r' % s)

    def check(self):
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e


BOOK = None


def is_sym(v):
    from .sym import Sym
    return isinstance(v, Sym)


KEY = re.compile(r',\s*PRIMARY\s+KEY\s*\([^)]*\)', re.I)


def plain(sql):
    """Tables without key: SQLite's indexes compare bytes.  That keys are unique is for the checks to say."""
    return KEY.sub('', sql) if 'CREATE' in sql.upper() else sql


class Cursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        r = super().execute(plain(sql), *a)
        BOOK.check()
        return r

    def executescript(self, sql):
        r = super().executescript(plain(sql))
        BOOK.check()
        return r


class Connection(sqlite3.Connection):
    def cursor(self, factory=Cursor):
        return super().cursor(factory)

    def execute(self, sql, *a):
        return self.cursor().execute(sql, *a)


class symbolic:
    """Within this context read_csv and read_sql give symbolic values for tokens, and new connections compare symbolically."""

    def __init__(self, E):
        self.E = E

    def __enter__(self):
        global BOOK
        import pandas as pd
        self.book = BOOK = Book()
        book = self.book
        self.old = {n: getattr(pd, n) for n in ('read_csv', 'read_sql_query', 'read_sql', 'read_sql_table')}
        self.to_sql = pd.DataFrame.to_sql
        if self.E.symbolic:
            from .sym import Sym
            sqlite3.register_adapter(Sym, book.number)
            sqlite3.register_adapter(SymDate, str)

            def wrap(f):
                def g(*a, **k):
                    r = f(*a, **k)
                    book.check()
                    return book.frame(r)
                return g
            for n, f in self.old.items():
                setattr(pd, n, wrap(f))
            old = self.to_sql

            def to_sql(df, name, con, *a, dtype=None, **k):
                numbers = [c for c in df.columns if df[c].dtype == object and any(is_sym(v) for v in df[c])]
                r = old(df, name, con, *a, dtype={**{c: 'REAL' for c in numbers}, **(dtype or {})} or None, **k)
                book.written(con, name, df, numbers)
                book.check()
                return r
            pd.DataFrame.to_sql = to_sql
        return self

    def __exit__(self, kind, *a):
        import pandas as pd
        for n, f in self.old.items():
            setattr(pd, n, f)
        pd.DataFrame.to_sql = self.to_sql
        if kind is None:
            self.book.check()

    def connect(self):
        if not self.E.symbolic:
            return sqlite3.connect(':memory:')
        con = sqlite3.connect(':memory:', factory=Connection)
        con.create_collation('BINARY', self.book.compare)
        con.execute('pragma automatic_index=off')
        return con

    def date(self, k):
        return self.book.date(k) if self.E.symbolic else date_text(k)

    def text(self, v):
        """The value as it stands in a file."""
        if isinstance(v, (str, SymDate)):
            return str(v)
        if v is None or isinstance(v, float) and v != v:
            return ''
        if self.E.symbolic and isinstance(v, self.E.sym.Sym):
            return self.book.number(v)
        return repr(v)
