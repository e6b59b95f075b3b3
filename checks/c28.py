"""The market tables' database: what is downloaded for a period, and what a query for an interval returns."""
import datetime as dt
import io
import re
import sqlite3
import zipfile

from vlib import symsql
from vlib.runner import Case as C

META = dict(
    bounds='periods of one to fourteen months from 2023 to 2025 starting in any month; per table up to four records, for up to three units, '
           'interconnectors or constraints, spread over up to three monthly files: every settlement, start and effective date (any five minutes from '
           '2009 to 2025), version number (1 to 99), intervention flag and value arbitrary, the interval asked for any interval of the period; any one '
           'file of the period missing; the period populated twice; tables kept by interval or by market day with three rows of any date',
    outside='records superseded by none that ended before the interval; rows of one key and archive that differ; constraint archives missing a needed '
            'column; malformed archives; interrupted downloads',
)

YEARS = range(2022, 2026)


def index(y, m):
    """The five minute index of the start of a month."""
    return int(symsql.date_index('%04d/%02d/01 00:00:00' % (y, m)))


def after(y, m, n=1):
    k = y * 12 + m - 1 + n
    return k // 12, k % 12 + 1


class Archive:
    """Stands for the requests module: monthly archives of tables."""
    OLD = re.compile(r'.*/MMSDM/(\d{4})/MMSDM_\1_(\d\d)/MMSDM_Historical_Data_SQLLoader/DATA/PUBLIC_DVD_(\w+)_\1\2(?:010000)\.zip')
    NEW = re.compile(r'.*/MMSDM/(\d{4})/MMSDM_\1_(\d\d)/MMSDM_Historical_Data_SQLLoader/DATA/PUBLIC_ARCHIVE%23(\w+)%23FILE01%23\1\2(?:010000)\.zip')

    def __init__(self, S):
        self.S, self.files, self.missing = S, {}, set()

    def __getattr__(self, name):
        import requests
        return getattr(requests, name)

    def put(self, table, year, month, columns, rows=()):
        cols, old = self.files.get((table, year, month), (columns, []))
        self.files[table, year, month] = (cols, old + list(rows))

    def get(self, url, *a, **k):
        for pattern, new in ((self.OLD, False), (self.NEW, True)):
            m = pattern.fullmatch(url)
            if m:
                key = (m.group(3), int(m.group(1)), int(m.group(2)))
                if new == (key[1:] >= (2024, 8)) and key in self.files and key not in self.missing:
                    return Response(200, self.zipped(*self.files[key]))
        return Response(404, b'<html>not found</html>')

    def zipped(self, columns, rows):
        def line(r):
            return ','.join(['"%s"' % self.S.text(r[c]) if isinstance(r.get(c), (str, symsql.SymDate)) else self.S.text(r.get(c)) for c in columns])
        text = ['C,NEMP.WORLD,TABLE,AEMO,PUBLIC,2020/01/01,10:00:00,1,MONTHLY,1', 'I,MMS,TABLE,1,' + ','.join(columns)]
        text += ['D,MMS,TABLE,1,' + line(r) for r in rows]
        text.append('C,"END OF REPORT",%d' % (len(rows) + 3))
        out = io.BytesIO()
        with zipfile.ZipFile(out, 'w') as z:
            z.writestr('PUBLIC_TABLE.CSV', '\n'.join(text) + '\n')
        return out.getvalue()


class Response:
    def __init__(self, status_code, content):
        self.status_code, self.content, self.ok = status_code, content, status_code == 200
        self.text = content.decode('latin1')

    def raise_for_status(self):
        if not self.ok:
            raise IOError(self.status_code)


MONTHLY = ['DISPATCHINTERCONNECTORRES', 'DISPATCHREGIONSUM', 'DISPATCHLOAD', 'DISPATCHCONSTRAINT', 'DISPATCHPRICE']
LATEST = ['INTERCONNECTOR', 'LOSSFACTORMODEL', 'LOSSMODEL', 'DUDETAILSUMMARY', 'INTERCONNECTORCONSTRAINT', 'MNSP_INTERCONNECTOR', 'DUDETAIL']
MATCHED = ['GENCONDATA', 'SPDCONNECTIONPOINTCONSTRAINT', 'SPDREGIONCONSTRAINT', 'SPDINTERCONNECTORCONSTRAINT']
TEXT = dict(DUID='U', REGIONID='R', CONSTRAINTID='G', GENCONID='G', INTERCONNECTORID='I', LINKID='L', CONNECTIONPOINTID='P', DISPATCHTYPE='GENERATOR',
            SCHEDULE_TYPE='SCHEDULED', CONSTRAINTTYPE='LE', BIDTYPE='ENERGY', REGIONFROM='R', REGIONTO='R', FROMREGION='R', TOREGION='R',
            ICTYPE='REGULATED', END_DATE='2999/12/31 00:00:00')
DATES = ('SETTLEMENTDATE', 'START_DATE', 'EFFECTIVEDATE', 'GENCONID_EFFECTIVEDATE')


def ident(v):
    try:
        return str(float(v))
    except ValueError:
        return str(v)


class World:
    """Archives of a period, a database, and nempy's manager of it."""

    def __init__(self, E, S, start, end, before=()):
        from nempy.historical_inputs import mms_db
        self.E, self.S, self.mms = E, S, mms_db
        self.start, self.end = start, end
        self.web = Archive(S)
        self.con = S.connect()
        self.db = mms_db.DBManager(self.con)
        self.n = 0
        self.months = []
        y, m = after(*start, -1)
        while (y, m) <= end:
            self.months.append((y, m))
            y, m = after(y, m)
        for t in MONTHLY:
            for ym in self.months:
                self.web.put(t, *ym, columns=['INTERVENTION', 'LASTCHANGED'] + self.columns(t)[::-1])
        for t in LATEST + MATCHED:
            self.web.put(t, *end, columns=['LASTCHANGED'] + self.columns(t))
            for i in before:
                self.web.put(t, *after(*end, -i), columns=self.columns(t)[::-1] + ['LASTCHANGED'])
        self.lo, self.hi = index(*start), index(*after(*end))

    def columns(self, table):
        return list(getattr(self.db, table).table_columns)

    def interval(self, name='T'):
        """Any interval of the period."""
        k = self.E.int(name, self.lo, self.hi)
        return k, self.S.date(k)

    def record(self, table, key, numbers=True, fixed=None, **given):
        """A row: key columns as given, dates given as indices, the first two numbers arbitrary and the others fixed."""
        E, row, free = self.E, {}, 0
        for i, c in enumerate(self.columns(table)):
            self.n += 1
            if c in given:
                v = given[c]
                if c in DATES:
                    row['#' + c] = v
                    v = self.S.date(v)
                row[c] = v
            elif c in key:
                row[c] = key[c]
            elif c in TEXT:
                row[c] = TEXT[c]
            elif free < 2 and numbers:
                free += 1
                row[c] = E.real('v%d' % self.n, -1000, 1000)
            else:
                row[c] = float(self.n if fixed is None else 100 * fixed + i)
        row['LASTCHANGED'] = '2020/01/01 00:00:00'
        row['INTERVENTION'] = given.get('INTERVENTION', 0)
        return row

    def gap(self, table, rows):
        """The file lacks its last column, which the rows then have no value of."""
        column = self.columns(table)[-1]
        self.web.files[(table,) + self.end][0].remove(column)
        for r in rows:
            r[column] = None

    def put(self, table, ym, *rows):
        self.web.put(table, *ym, columns=None, rows=rows)

    def populate(self, times=1):
        """Populates the database; what it raises, if anything."""
        old = self.mms.requests
        self.mms.requests = self.web
        try:
            for _ in range(times):
                self.db.populate(self.start[0], self.start[1], self.end[0], self.end[1], verbose=False)
        except self.mms._MissingData:
            return 'missing'
        except sqlite3.IntegrityError as e:
            return 'not stored: %s' % e
        finally:
            self.mms.requests = old
        return None

    def load(self, *tables):
        """The tables alone, as the documentation of each shows."""
        old = self.mms.requests
        self.mms.requests = self.web
        try:
            self.db.create_tables()
            for t in tables:
                for ym in self.months[1:] if t in MONTHLY else [self.end]:
                    t_ = getattr(self.db, t)
                    (t_.add_data if t in MONTHLY else t_.set_data)(year=ym[0], month=ym[1])
        except (self.mms._MissingData, sqlite3.IntegrityError) as e:
            return 'not stored: %s' % e
        finally:
            self.mms.requests = old
        return None

    def stored(self, times=1, tables=None):
        fault = self.load(*tables) if tables else self.populate(times)
        self.E.true('stored', fault is None, detail='populating the database: %s' % fault)
        return fault is None

    def query(self, table, T):
        t = getattr(self.db, table)
        return t.get_data(T) if table != 'INTERCONNECTOR' else t.get_data()

    def same(self, label, table, got, expected, keys):
        """The rows returned are the expected ones, each once."""
        E = self.E
        cols = self.columns(table)
        E.true(label + '/columns', set(got.columns) == set(cols), detail='%s' % list(got.columns))
        if set(got.columns) != set(cols):
            return
        rows = got.to_dict('records')
        ids = sorted(tuple(ident(r[k]) for k in keys) for r in rows)
        want = sorted(tuple(ident(r[k]) for k in keys) for r in expected)
        E.true(label + '/rows', ids == want, detail='%s: returned %s instead of %s' % (table, ids, want))
        if ids != want or len(set(want)) < len(want):
            return
        of = {tuple(ident(r[k]) for k in keys): r for r in expected}
        for r in rows:
            e = of[tuple(ident(r[k]) for k in keys)]
            for c in cols:
                if c in DATES and '#' + c in e:
                    E.true('%s/date' % label, E.eq(self.when(r[c]), e['#' + c]), detail='%s %s' % (c, r[c]))
                elif isinstance(e[c], str):
                    E.true('%s/text' % label, r[c] == e[c], detail='%s %r' % (c, r[c]))
                elif e[c] is None:
                    E.true('%s/absent' % label, r[c] is None or r[c] != r[c], detail='%s %r' % (c, r[c]))
                else:
                    v = r[c]
                    if isinstance(v, str) and not isinstance(v, symsql.SymDate):
                        v = float(v)
                    E.close('%s/value' % label, v, e[c])

    def when(self, v):
        if isinstance(v, symsql.SymDate):
            return v.sym
        try:
            return symsql.date_index(v)
        except (TypeError, ValueError):
            return -1


KEYS = dict(DISPATCHINTERCONNECTORRES='INTERCONNECTORID', DISPATCHREGIONSUM='REGIONID', DISPATCHLOAD='DUID', DISPATCHCONSTRAINT='CONSTRAINTID',
            DISPATCHPRICE='REGIONID')


def in_month(E, name, ym):
    return E.int(name, index(*ym) + 1, index(*after(*ym)))


def settlement(E, table, gap):
    """Tables of dispatch results: the interval's own rows, without those of intervention runs."""
    with symsql.symbolic(E) as S:
        w = World(E, S, (2024, 7), (2024, 8))
        k = KEYS[table]
        missing = None
        if gap:
            missing = [c for c in w.columns(table) if c not in (k, 'SETTLEMENTDATE')][-1]
            for ym in w.months:
                w.web.files[table, ym[0], ym[1]][0].remove(missing)
        rows = []
        for i, (name, ym) in enumerate((('A', w.months[0]), ('A', w.months[1]), ('A', w.months[1]), ('B', w.months[2]))):
            r = w.record(table, {k: name}, fixed=max(i, 2), SETTLEMENTDATE=in_month(E, 's%d' % i, ym),
                         INTERVENTION=E.pick('int%d' % i, [0, 1]) if i in (1, 2) else 0,
                         **({'GENCONID_EFFECTIVEDATE': E.int('g%d' % i, 0, w.hi), 'GENCONID_VERSIONNO': E.int('n%d' % i, 1, 99)} if k == 'CONSTRAINTID' else {}))
            if missing:
                r[missing] = None
            rows.append(r)
            w.put(table, ym, r)
        a, b = rows[1], rows[2]
        if a['INTERVENTION'] == b['INTERVENTION'] == 0:         # a repeated row is the same row
            same = [E.eq(a.get('#' + c, a[c]), b.get('#' + c, b[c])) for c in w.columns(table) if '#' + c in a or not isinstance(a[c], (type(None), str))]
            E.assume(E.Or(E.Not(E.eq(a['#SETTLEMENTDATE'], b['#SETTLEMENTDATE'])), E.And(*same)))
        if not w.stored():
            return
        t, T = w.interval()
        expected = [r for r in rows if r['INTERVENTION'] == 0 and E.decide(E.eq(r['#SETTLEMENTDATE'], t))]
        if len(expected) > 1 and expected[0][k] == expected[1][k]:
            expected = expected[1:]
        w.same('settlement', table, w.query(table, T), expected, [k])


def details(E, n, gap):
    """Unit details: for each unit the last record that started."""
    with symsql.symbolic(E) as S:
        w = World(E, S, (2024, 3), (2024, 3))
        t, T = w.interval()
        rows = []
        for i in range(n):
            rows.append(w.record('DUDETAILSUMMARY', dict(DUID='A'), START_DATE=E.int('s%d' % i, 0, w.hi + 1000)))
        rows.insert(1, w.record('DUDETAILSUMMARY', dict(DUID='B'), START_DATE=E.int('sB', 0, w.hi + 1000)))
        mine = [r for r in rows if r['DUID'] == 'A']
        for i, r in enumerate(mine):
            for q in mine[:i]:
                E.assume(E.Not(E.eq(r['#START_DATE'], q['#START_DATE'])))
        if gap:
            w.gap('DUDETAILSUMMARY', rows)
        w.put('DUDETAILSUMMARY', w.end, *rows)
        if not w.stored(tables=['DUDETAILSUMMARY']):
            return
        expected = []
        for u in 'AB':
            live = [r for r in rows if r['DUID'] == u and E.decide(E.leq(r['#START_DATE'], t))]
            best = None
            for r in live:
                if best is None or E.decide(E.lt(best['#START_DATE'], r['#START_DATE'])):
                    best = r
            expected += [best] if best is not None else []
        w.same('details', 'DUDETAILSUMMARY', w.query('DUDETAILSUMMARY', T), expected, ['DUID'])


IDS = dict(DUDETAIL=['DUID'], MNSP_INTERCONNECTOR=['INTERCONNECTORID', 'LINKID'], INTERCONNECTORCONSTRAINT=['INTERCONNECTORID'],
           LOSSMODEL=['INTERCONNECTORID'], LOSSFACTORMODEL=['INTERCONNECTORID'])
PARTS = dict(LOSSMODEL=('LOSSSEGMENT', [-1.0, 0.0, 1.0]), LOSSFACTORMODEL=('REGIONID', ['R1', 'R2']))


def versions(E, table, n, gap=False):
    """Versioned tables: the last version of the last effective date, for each id."""
    with symsql.symbolic(E) as S:
        w = World(E, S, (2024, 3), (2024, 3))
        t, T = w.interval()
        ids = IDS[table]
        by_interval = ids == ['INTERCONNECTORID']
        records = []
        names = ['A'] * n + ['B']
        for i, name in enumerate(names):
            e = E.int('e%d' % i, 0, w.hi + 1000)
            v = E.int('v%d' % i, 1, 99) if name == 'A' else 3.0
            for o, (x, y, _) in records:
                if o == name:
                    E.assume(E.Not(E.And(E.eq(x, e), E.eq(y, v))))
            key = {c: name for c in ids}
            if 'LINKID' in ids and name == 'B':
                key['INTERCONNECTORID'] = 'A'
            column, parts = PARTS.get(table, (None, [None]))
            rows = []
            for part in parts:
                given = {column: part} if column else {}
                rows.append(w.record(table, key, EFFECTIVEDATE=e, VERSIONNO=v, **given))
            records.append((name, (e, v, rows)))
        order = [r for _, (_, _, rows) in records for r in rows]
        if gap:
            w.gap(table, order)
        w.put(table, w.end, *(order[1::2] + order[::2]))
        if by_interval:
            seen = E.pick('present', ['A', 'AB', ''])
            for name in 'AB':
                d = t
                if name not in seen:
                    d = E.int('d' + name, w.lo + 1, w.hi)
                    E.assume(E.Not(E.eq(d, t)))
                else:
                    E.assume(E.lt(w.lo, t))
                w.put('DISPATCHINTERCONNECTORRES', w.end, w.record('DISPATCHINTERCONNECTORRES', dict(INTERCONNECTORID=name), numbers=False, SETTLEMENTDATE=d))
        if not w.stored(tables=[table] + ['DISPATCHINTERCONNECTORRES'] * by_interval):
            return
        expected = []
        for name in 'AB':
            if by_interval and name not in seen:
                continue
            best = None
            for o, (e, v, rows) in records:
                if o == name and E.decide(E.leq(e, t)):
                    if best is None or E.decide(E.Or(E.lt(best[0], e), E.And(E.eq(best[0], e), E.lt(best[1], v)))):
                        best = (e, v, rows)
            expected += best[2] if best else []
        column = PARTS.get(table, (None,))[0]
        w.same('version', table, w.query(table, T), expected, ids + ([column] if column else []))


def matched(E, table, files, n):
    """Constraint tables: the terms of the version used at the interval, from the newest archive that has it."""
    with symsql.symbolic(E) as S:
        end = dict(GENCONDATA=(2024, 9), SPDREGIONCONSTRAINT=(2024, 2), SPDCONNECTIONPOINTCONSTRAINT=(2024, 1), SPDINTERCONNECTORCONSTRAINT=(2025, 1))[table]
        oldest = (end[0] - 2010) * 12 + end[1] - 1
        w = World(E, S, end, end, before=(1, 2, 3, oldest))
        t, T = w.interval()
        rows = []
        extra = dict(SPDCONNECTIONPOINTCONSTRAINT='CONNECTIONPOINTID', SPDREGIONCONSTRAINT='REGIONID', SPDINTERCONNECTORCONSTRAINT='INTERCONNECTORID')
        extra = extra.get(table)
        shape = (('A', 0, 'X'), ('A', 1, 'X'), ('A', files, 'X'))[:n] + ((('A', 1, 'Y'), ('B', oldest, 'X')) if extra else ())
        for i, (name, back, part) in enumerate(shape):
            if name == 'B' or part == 'Y':          # another term of the second row's version
                e, v = rows[1]['#EFFECTIVEDATE'], rows[1]['VERSIONNO']
            else:
                e, v = E.int('e%d' % i, 0, w.hi), E.int('v%d' % i, 1, 99)
            r = w.record(table, dict(GENCONID=name, **({extra: part} if extra else {})), EFFECTIVEDATE=e, VERSIONNO=v)
            for q in rows:
                if q['back'] == back and q['GENCONID'] == name and (not extra or q[extra] == part):
                    E.assume(E.Not(E.And(E.eq(q['#EFFECTIVEDATE'], e), E.eq(q['VERSIONNO'], v))))
            r['back'] = back
            rows.append(r)
            w.put(table, after(*w.end, -back), r)
        used = {}
        for name in 'AB':
            d, e, v = in_month(E, 'd' + name, w.end), E.int('ge' + name, 0, w.hi), E.int('gv' + name, 1, 99)
            if name == 'B' and extra:
                d, e, v = used['A']
            used[name] = (d, e, v)
            w.put('DISPATCHCONSTRAINT', w.end, w.record('DISPATCHCONSTRAINT', dict(CONSTRAINTID=name), numbers=False, SETTLEMENTDATE=d,
                                                        GENCONID_EFFECTIVEDATE=e, GENCONID_VERSIONNO=v))
        if not w.stored(tables=[table, 'DISPATCHCONSTRAINT']):
            return
        expected = {}
        for r in sorted(rows, key=lambda r: r['back']):
            d, e, v = used[r['GENCONID']]
            key = (r['GENCONID'], r.get(extra))
            if key not in expected and E.decide(E.And(E.eq(d, t), E.eq(e, r['#EFFECTIVEDATE']), E.eq(v, r['VERSIONNO']))):
                expected[key] = r
        w.same('matched', table, w.query(table, T), list(expected.values()), ['GENCONID'] + ([extra] if extra else []))


def all_rows(E):
    with symsql.symbolic(E) as S:
        w = World(E, S, (2023, 1), (2023, 1))
        rows = [w.record('INTERCONNECTOR', dict(INTERCONNECTORID=n, REGIONFROM='R' + n, REGIONTO='Q' + n)) for n in 'CAB']
        w.put('INTERCONNECTOR', w.end, *rows)
        if w.stored():
            w.same('all', 'INTERCONNECTOR', w.query('INTERCONNECTOR', None), rows, ['INTERCONNECTORID'])


class clock:
    """Dates of mms_db are symbolic."""

    def __init__(self, E, module):
        self.E, self.module, self.old = E, module, {}

    def __enter__(self):
        if self.E.symbolic:
            import types
            from vlib import symtime as T
            for n, v in dict(datetime=T.datetime, timedelta=T.timedelta, time=T.time, date=T.date, int=T.vint).items():
                old = vars(self.module).get(n)
                self.old[n] = old
                setattr(self.module, n, T if isinstance(old, types.ModuleType) else v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            if v is None:
                delattr(self.module, n)
            else:
                setattr(self.module, n, v)


def by_time(E, daily):
    """Tables kept by interval, and by market day (from 04:05), filled and queried as their documentation shows."""
    import pandas as pd
    from nempy.historical_inputs import mms_db
    with symsql.symbolic(E) as S, clock(E, mms_db):
        con = S.connect()
        column = 'SETTLEMENTDATE' if daily else 'INTERVAL_DATETIME'
        kind = mms_db.InputsByDay if daily else mms_db.InputsByIntervalDateTime
        table = kind(table_name='EXAMPLE', table_columns=[column, 'DUID', 'INITIALMW'], table_primary_keys=[column, 'DUID'], con=con)
        table.create_table_in_sqlite_db()
        first = symsql.EPOCH.toordinal()
        day, k = E.int('day', 400, 6000), E.int('k', 0, 287)
        t = day * 288 + k
        if not E.symbolic:
            T = symsql.date_text(t)
        elif daily:
            from vlib import symtime
            import z3
            T = symtime.interval_text(z3.ToInt(day.t) + first, z3.ToInt(k.t) * 300)
        else:
            T = S.date(t)
        rows = []
        for i, u in enumerate('ABC'):
            d = E.int('d%d' % i, 399, 6001)
            at = d * 288 if daily else E.int('t%d' % i, 399 * 288, 6001 * 288)
            rows.append({column: at, 'DUID': u, 'INITIALMW': E.real('v%d' % i, -1000, 1000)})
        pd.DataFrame([{**r, column: S.date(r[column])} for r in rows]).to_sql('EXAMPLE', con=con, if_exists='append', index=False)
        start = E.If(k > 48, day, day - 1) * 288 if daily else t
        expected = {r['DUID']: r for r in rows if E.decide(E.eq(r[column], start))}
        got = table.get_data(date_time=T)
        names = list(got['DUID'])
        E.true('by-time/rows', sorted(names) == sorted(expected), detail='returned %s instead of %s' % (sorted(names), sorted(expected)))
        if sorted(names) == sorted(expected):
            for u, v in zip(names, got['INITIALMW']):
                E.close('by-time/value', v, expected[u]['INITIALMW'])


def period(E, start, lengths, twice):
    """Every interval of the period has its rows, wherever months begin and end."""
    with symsql.symbolic(E) as S:
        n = E.pick('length', lengths)
        w = World(E, S, start, after(*start, n))
        rows = {t: [] for t in MONTHLY}
        for t in MONTHLY:
            for i, ym in enumerate(w.months):
                # of the month before, the last interval is the first of the period
                k = in_month(E, 'k%s%d' % (t, i), ym) if i else w.lo
                r = w.record(t, {KEYS[t]: 'A'}, numbers=False, SETTLEMENTDATE=k,
                             **({'GENCONID_EFFECTIVEDATE': 0, 'GENCONID_VERSIONNO': 1.0} if t == 'DISPATCHCONSTRAINT' else {}))
                rows[t].append(r)
                w.put(t, ym, r)
        for t in LATEST:
            w.put(t, w.end, w.record(t, {}, numbers=False, **{c: 0 for c in DATES if c in w.columns(t)}, **{c: 1.0 for c in w.columns(t) if c == 'VERSIONNO'}))
        if not w.stored(2 if twice else 1):
            return
        for t in [E.pick('table', MONTHLY)]:
            for r in rows[t]:
                w.same('period', t, w.query(t, r['SETTLEMENTDATE']), [r], [KEYS[t]])
        for t in LATEST:
            if t in ('INTERCONNECTOR', 'DUDETAIL', 'DUDETAILSUMMARY', 'MNSP_INTERCONNECTOR'):
                E.true('period/latest', len(w.query(t, S.date(w.hi))) == 1, detail=t)


def gaps(E, start, length):
    """A file of the period that cannot be had is reported, not passed over."""
    with symsql.symbolic(E) as S:
        w = World(E, S, start, after(*start, length))
        ym = E.pick('month', w.months)
        t = E.pick('table', MONTHLY + (LATEST if ym == w.end else []))
        w.web.missing.add((t,) + ym)
        fault = w.populate()
        E.true('reported', fault == 'missing', detail='%s %s: %s' % (t, ym, fault))


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for t in MONTHLY:
        out.append(C('settlement_%s' % t, settlement, dict(table=t, gap=False)))
        if t != 'DISPATCHINTERCONNECTORRES':
            out.append(C('settlement_%s_gap' % t, settlement, dict(table=t, gap=True)))
    out.append(C('details', details, dict(n=4 if deep else 3, gap=False)))
    out.append(C('details_gap', details, dict(n=2, gap=True)))
    for t in IDS:
        out.append(C('versions_%s' % t, versions, dict(table=t, n=3 if deep or t == 'DUDETAIL' else 2)))
        if t in ('DUDETAIL', 'MNSP_INTERCONNECTOR'):
            out.append(C('versions_%s_gap' % t, versions, dict(table=t, n=1, gap=True)))
    for t in MATCHED:
        out.append(C('matched_%s' % t, matched, dict(table=t, files=3, n=3 if deep else 2)))
    out.append(C('all_rows', all_rows))
    for m in range(1, 13):
        out.append(C('period_%d' % m, period, dict(start=(2023 + m % 2, m), lengths=[0, 1, 2, 11, 12, 13] if deep else [0, 1, (11, 12, 13)[m % 3]],
                                                   twice=m % 3 == 0)))
    out.append(C('by_interval', by_time, dict(daily=False)))
    out.append(C('by_market_day', by_time, dict(daily=True)))
    out.append(C('gaps', gaps, dict(start=(2024, 1), length=1)))
    return out
