"""The case file cache covers the period populated, and a search of it finds the first intervals with violations."""
import datetime as dt
import io
import os
import re
import shutil
import tempfile
import types
import zipfile

from vlib.runner import Case as C
from .nemde import Case, VIOLATIONS, document

META = dict(
    bounds='populating from any month to the same, the next or a later month (thorough: every month of two years and up to thirteen months), and from any '
           'day to a later day; any one download answered with an error page at first; any interval of the period; searches of months with up to seven '
           'files of which up to four have arbitrary violations of two kinds, for any number of intervals up to three, with and without intervention runs',
    outside='the market day that starts on the end date of populate_by_day (the documentation calls the end date inclusive, the examples give the day '
            'after; it is downloaded when asked for); archives with missing files; downloads that fail twice',
)


def ordinal(y, m, d=1):
    return dt.date(y, m, d).toordinal()


def after(y, m, n=1):
    k = y * 12 + m - 1 + n
    return k // 12, k % 12 + 1


def file_name(o, n):
    return 'NEMSPDOutputs_%s%03d00.loaded' % (dt.date.fromordinal(o).strftime('%Y%m%d'), n)


def place(t):
    """Market day and number of the interval ending at a time."""
    minutes = t.hour * 60 + t.minute
    k = minutes // 5
    o = t.toordinal()
    return (o, k - 48) if k >= 49 else (o - 1, k + 240)


class Web:
    """A scratch cache folder and a stand-in for the network; the archives of market days are real zip files."""

    def __init__(self, content, bad=()):
        from nempy.historical_inputs import xml_cache as xc
        self.xc, self.content, self.bad, self.asked = xc, content, bad, []
        self.folder = tempfile.mkdtemp(prefix='vf_c30_')
        self.docs = None

    def __enter__(self):
        self.old = self.xc.requests, self.xc.sleep, self.xc.xmltodict
        self.xc.requests = types.SimpleNamespace(get=self.get)
        self.xc.sleep = lambda s: None
        self.xc.xmltodict = types.SimpleNamespace(parse=lambda text: self.docs[text] if self.docs else {'read': text})
        return self

    def __exit__(self, *a):
        self.xc.requests, self.xc.sleep, self.xc.xmltodict = self.old
        shutil.rmtree(self.folder)

    def get(self, url, *a, **k):
        m = re.search(r'/(\d{4})/NEMDE_(\d{4})_(\d{2})/.*_(\d{4})(\d\d)(\d\d)_', url) or re.search(r'/(\d{4})/NEMDE_(\d{4})_(\d{2})/.*_(\d{4})(\d\d)(\d\d)\D', url)
        y, y2, mo, y3, mo2, d = [int(x) for x in m.groups()]
        if (y, mo) != (y2, mo2) or y != y3:
            return self.page(404)
        self.asked.append(ordinal(y, mo, d))
        if len(self.asked) - 1 in self.bad:
            self.asked[-1] = None
            return self.page(503)
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            for name in self.content(self.asked[-1]):
                z.writestr(name, name)
        return types.SimpleNamespace(content=b.getvalue(), ok=True, status_code=200, raise_for_status=lambda: None)

    def page(self, status):
        return types.SimpleNamespace(content=b'<html>busy</html>', ok=False, status_code=status, raise_for_status=lambda: None)


def covered(E, label, folder, first, last):
    """Every interval from the first to the last (day number, interval of the day) has its file in the folder."""
    have = {}
    for name in os.listdir(folder):
        m = re.fullmatch(r'NEMSPDOutputs_(\d{4})(\d\d)(\d\d)(\d{3})00\.loaded', name)
        if m:
            y, mo, d, n = [int(x) for x in m.groups()]
            have.setdefault(ordinal(y, mo, d), set()).add(n)
    whole = [o for o, ns in have.items() if ns >= set(range(1, 289))]
    day, k = E.int('day', first[0], last[0]), E.int('k', 0, 287)
    E.assume(E.Or(E.lt(first[0], day), E.leq(first[1], k)))
    E.assume(E.Or(E.lt(day, last[0]), E.leq(k, last[1])))
    late = E.leq(49, k)
    E.true(label, E.Or(*[E.Or(E.And(late, E.eq(day, o)), E.And(E.Not(late), E.eq(day, o + 1))) for o in whole] or [False]),
           detail='no file for an interval of day %s' % (E.symbolic or dt.date.fromordinal(int(day))))


def months(E, start, lengths):
    n, bad = E.pick('length', [(0, (start[1] % 5,))] + [(n, ()) for n in lengths])
    end = after(*start, n)
    with Web(lambda o: [file_name(o, i) for i in range(1, 289)], bad) as w:
        w.xc.XMLCacheManager(w.folder).populate(start[0], start[1], end[0], end[1], verbose=False)
        nxt = ordinal(*after(*end))
        covered(E, 'populated', w.folder, (ordinal(*start), 1), (nxt, 0))


def days(E, start, lengths):
    n = E.pick('length', lengths)
    end = dt.date.fromordinal(ordinal(*start) + n)
    with Web(lambda o: [file_name(o, i) for i in range(1, 289)]) as w:
        w.xc.XMLCacheManager(w.folder).populate_by_day(start_year=start[0], start_month=start[1], start_day=start[2], end_year=end.year,
                                                       end_month=end.month, end_day=end.day, verbose=False)
        covered(E, 'populated-days', w.folder, (ordinal(*start), 1), (end.toordinal(), 0))


def text(t):
    return t.strftime('%Y/%m/%d %H:%M:%S')


def search(E, start, length, times, sure, intervention):
    """times: minutes from the start of files with arbitrary violations; sure: those of files that have a violation for certain."""
    begin = dt.datetime(start[0], start[1], 1)
    end = after(*start, length)
    limit = E.pick('limit', [1, 2, 3]) if sure else 2
    with Web(lambda o: ['nothing.txt']) as w:
        w.docs, found = {}, []
        for i, minutes in enumerate(sorted(times + sure)):
            t = dt.datetime(*after(*start, length + 1), 1) if minutes is END else begin + dt.timedelta(minutes=minutes)
            c = Case(E)
            c.intervention = intervention
            a, b = (0.0, 7.5) if minutes in sure else (E.real('a%d' % i, 0, 100), E.real('b%d' % i, 0, 100))
            kinds = ('unit_capacity', 'fcas_profile')
            c.violations = ({**{k: 0.0 for k in VIOLATIONS}, kinds[0]: a}, {kinds[1]: b})
            c.unit('U', trades=[])
            name = file_name(*place(t))
            doc = document({}, c.outputs())
            if not E.symbolic:
                import xmltodict
                doc = xmltodict.parse(xmltodict.unparse(doc))
            w.docs[name] = doc
            with open(os.path.join(w.folder, name), 'w') as f:
                f.write(name)
            found.append((text(t), dict(zip(kinds, (a, b)))))
        got = w.xc.XMLCacheManager(w.folder).find_intervals_with_violations(limit, start[0], start[1], end[0], end[1])
        want = {}
        for t, v in found:
            kinds = [k for k, x in v.items() if E.decide(E.lt(0, x))]
            if kinds and len(want) < limit:
                want[t] = kinds
        E.true('found', list(got) == list(want), detail='%s instead of %s' % (list(got), list(want)))
        E.true('kinds', all(sorted(got[t]) == sorted(want[t]) for t in want if t in got), detail='%s instead of %s' % (got, want))


END = 10 ** 9


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for m in range(1, 13):
        for y in ((2023, 2024) if deep else (2023 + m % 2,)):
            out.append(C('months_%d_%d' % (y, m), months, dict(start=(y, m), lengths=[0, 1, 2, 12] if deep else [m % 2])))
    for s in ((2024, 2, 27), (2023, 12, 30), (2023, 6, 1)):
        out.append(C('days_%d_%d' % s[:2], days, dict(start=s, lengths=[0, 1, 2, 3, 5] if deep else [0, 3])))
    out.append(C('search_start', search, dict(start=(2023, 4), length=0, times=[0, 245, 1440], sure=[2000, 2005, 2010], intervention=False)))
    out.append(C('search_intervention', search, dict(start=(2023, 12), length=1, times=[5, 240], sure=[250, 255, 300], intervention=True)))
    for s in ((2023, 12), (2024, 2)) if deep else ((2024, 12),):
        out.append(C('search_end_%d' % s[1], search, dict(start=s, length=0, times=[END], sure=[], intervention=False)))
    return out
