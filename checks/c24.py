"""Every dispatch interval is mapped to its own case file."""
import os
import shutil
import tempfile
import datetime as dt

META = dict(
    bounds='every five minute interval of every day from 2001-01-01 to 2099-12-31 (a symbolic day number and interval of the day), the '
           'plain file, the over-constrained variant, both or neither present, one interval after another',
    outside='times that are not on a five minute boundary; downloading and unpacking themselves (stand-ins record the address asked for)',
)
FIRST, LAST = dt.date(2001, 1, 1).toordinal(), dt.date(2099, 12, 31).toordinal()
SHAPE = r'NEMSPDOutputs_(.{8})(.{3})00(_OCD)?\.loaded'


def market_day(day, k):
    """Day number and interval number (1 to 288) of the market day: it starts with the interval ending 04:05."""
    return (day, k - 48) if k >= 49 else (day - 1, k + 240)


class Files:
    """The cache folder: which of the two files of an interval are there."""

    def __init__(self, E, n, present, at=None):
        self.E, self.present = E, set(present)
        if at is not None:
            self.day, self.k = dt.date(*at[:3]).toordinal(), at[3]
            return
        self.day = E.int('day%s' % n, FIRST, LAST)
        self.k = E.int('k%s' % n, 0, 287)


class Sim:
    """Symbolic stand-ins for the clock, the file system and the network."""

    def __init__(self, E, xc):
        from vlib import symtime as T
        self.E, self.xc, self.T = E, xc, T
        self.sets, self.opened, self.urls = [], [], []
        self.undo = []
        self.folder = os.path.join(tempfile.gettempdir(), 'vf_none')
        self.on_download = None

    def put(self, o, name, v):
        had = name in vars(o)
        old = vars(o).get(name)
        self.undo.append((o, name, had, old))
        setattr(o, name, v)

    def __enter__(self):
        import pathlib
        import types
        import zipfile
        T, xc = self.T, self.xc
        for n in ('datetime', 'timedelta', 'time', 'date'):
            self.put(xc, n, types.SimpleNamespace(datetime=T.datetime, timedelta=T.timedelta, time=T.time, date=T.date)
                     if isinstance(vars(xc).get(n), types.ModuleType) else getattr(T, n))
        self.put(xc, 'int', T.vint)
        self.put(xc, 'round', T.round_)
        op = open
        self.put(xc, 'open', lambda p, *a, **k: self.open(p, *a, **k) if self.mine(p) else op(p, *a, **k))
        self.put(xc, 'xmltodict', types.SimpleNamespace(parse=parsed))
        self.put(pathlib.Path, 'open', lambda p, *a, **k: self.open(p) if self.mine(p) else op(p, *a, **k))
        self.put(pathlib.Path, 'read_text', lambda p, *a, **k: self.open(p).read() if self.mine(p) else op(p).read())
        self.put(pathlib.Path, 'read_bytes', lambda p: self.open(p).read() if self.mine(p) else op(p, 'rb').read())
        self.put(xc, 'requests', types.SimpleNamespace(get=self.get))
        self.put(xc, 'zipfile', types.SimpleNamespace(ZipFile=self.unzip, BadZipFile=zipfile.BadZipFile))
        self.put(xc, 'io', types.SimpleNamespace(BytesIO=lambda b: b))
        self.put(xc, 'sleep', lambda s: None)
        sim, exists, isfile = self, os.path.exists, os.path.isfile
        self.put(os.path, 'exists', lambda p: sim.exists(p) if sim.mine(p) else exists(p))
        self.put(os.path, 'isfile', lambda p: sim.exists(p) if sim.mine(p) else isfile(p))
        pe, pf = pathlib.Path.exists, pathlib.Path.is_file
        self.put(pathlib.Path, 'exists', lambda p, **k: sim.exists(p) if sim.mine(p) else pe(p))
        self.put(pathlib.Path, 'is_file', lambda p, **k: sim.exists(p) if sim.mine(p) else pf(p))
        return self

    def __exit__(self, *a):
        for o, name, had, old in reversed(self.undo):
            if had:
                setattr(o, name, old)
            else:
                delattr(o, name)

    def mine(self, p):
        return self.T.symbolic_text(str(p)) or os.path.dirname(str(p)) == self.folder

    def text(self, f):
        T = self.T
        return T.interval_text(T.iv(f.day), T.iv(f.k) * 300)

    def expected(self, f):
        """(year, month, day, number) of the file's name."""
        T, z3 = self.T, self.E.z3
        if not hasattr(f, 'want'):
            late = self.E.decide(self.E.leq(49, f.k))
            o = z3.simplify(T.iv(f.day) if late else T.iv(f.day) - 1)
            f.want = T.civil(o) + (T.wrap(T.iv(f.k) + (-48 if late else 240)),)
        return f.want

    def matches(self, f, name):
        """(condition that the digits are this interval's, variant) or None if no case file is called so."""
        import re
        T, z3 = self.T, self.E.z3
        m = re.fullmatch(SHAPE, name)
        if not m:
            return None
        try:
            got = [T.number(x) for x in (m.group(1)[:4], m.group(1)[4:6], m.group(1)[6:], m.group(2))]
        except ValueError:
            return None
        return self.E.sym.SymB(z3.And(*[T.iv(a) == T.iv(b) for a, b in zip(got, self.expected(f))])), 'ocd' if m.group(3) else 'plain'

    def exists(self, path):
        folder, name = os.path.split(str(path))
        if folder != self.folder:
            return False
        for f in self.sets:
            m = self.matches(f, name)
            if m is not None and m[1] in f.present and self.E.decide(m[0]):
                return True
        return False

    def open(self, path, *a, **k):
        if not self.exists(path):
            raise FileNotFoundError(str(path))
        self.opened.append(str(path))
        import io
        return io.StringIO(str(path))

    def get(self, url, *a, **k):
        import types
        self.urls.append(url)
        return types.SimpleNamespace(content=b'', ok=True, status_code=200, raise_for_status=lambda: None)

    def unzip(self, data, *a, **k):
        import types
        return types.SimpleNamespace(extractall=lambda path=None, *a, **k: self.on_download(), __enter__=None)

    def check_name(self, label, f, name, variant):
        import re
        m = self.matches(f, str(name))
        self.E.true(label + '-form', m is not None, detail=repr(name))
        if m is not None:
            self.E.true(label, m[0], detail='not the file of this interval')
            self.E.true(label + '-variant', m[1] == variant, detail='%s instead of %s' % (m[1], variant))

    def check_url(self, label, f):
        self.E.true(label + '-once', len(self.urls) >= 1)
        for u in self.urls:
            name = u.rsplit('/', 1)[-1]
            i = name.find('_')
            try:
                got = self.T.number(name[i + 1:i + 9])
            except ValueError:
                self.E.true(label, False, detail=name)
                continue
            y, m, d, _ = self.expected(f)
            iv = self.T.iv
            self.E.true(label, self.E.sym.SymB(iv(got) == iv(y) * 10000 + iv(m) * 100 + iv(d)), detail='not the market day')

    def check_read(self, label, m, name):
        self.E.true(label, m.xml == {'read': os.path.join(self.folder, str(name))}, detail='%r' % (m.xml,))


def parsed(t, *a, **k):
    return {'read': t.read() if hasattr(t, 'read') else t}


class Real:
    """The same with real files in a scratch folder; only the network is a stand-in."""

    def __init__(self, E, xc):
        self.E, self.xc = E, xc
        self.sets, self.urls = [], []
        self.folder = tempfile.mkdtemp(prefix='vf_c24_')
        self.on_download = None

    def __enter__(self):
        import types
        self.old = self.xc.requests, self.xc.sleep
        self.xc.requests = types.SimpleNamespace(get=self.get)
        self.xc.sleep = lambda s: None
        return self

    def __exit__(self, *a):
        self.xc.requests, self.xc.sleep = self.old
        shutil.rmtree(self.folder)

    def text(self, f):
        return (dt.datetime.fromordinal(f.day) + dt.timedelta(minutes=5 * f.k)).strftime('%Y/%m/%d %H:%M:%S')

    def name(self, f, variant):
        o, n = market_day(f.day, f.k)
        return 'NEMSPDOutputs_%s%03d00%s.loaded' % (dt.date.fromordinal(o).strftime('%Y%m%d'), n, '_OCD' if variant == 'ocd' else '')

    def sync(self):
        for f in self.sets:
            for v in ('plain', 'ocd'):
                p = os.path.join(self.folder, self.name(f, v))
                if v in f.present and not os.path.exists(p):
                    with open(p, 'w') as h:
                        h.write('<read>%s</read>' % os.path.basename(p))

    def get(self, url, *a, **k):
        import io
        import types
        import zipfile
        self.urls.append(url)
        self.on_download()
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            for f in self.sets:
                for v in f.present:
                    z.writestr(self.name(f, v), '<read>%s</read>' % self.name(f, v))
        return types.SimpleNamespace(content=b.getvalue(), ok=True, status_code=200, raise_for_status=lambda: None)

    def check_name(self, label, f, name, variant):
        import re
        E, name = self.E, str(name)
        E.true(label + '-form', re.fullmatch(SHAPE, name) is not None, detail=name)
        E.true(label, name[:25] == self.name(f, variant)[:25], detail='%s for %s' % (name, self.text(f)))
        E.true(label + '-variant', ('_OCD' in name) == (variant == 'ocd'), detail=name)

    def check_url(self, label, f):
        self.E.true(label + '-once', len(self.urls) >= 1)
        for u in self.urls:
            name = u.rsplit('/', 1)[-1]
            i = name.find('_')
            self.E.true(label, name[i + 1:i + 9] == self.name(f, 'plain')[14:22], detail=u)

    def check_read(self, label, m, name):
        self.E.true(label, m.xml == {'read': str(name)}, detail=str(m.xml))


def world(E):
    from nempy.historical_inputs import xml_cache as xc
    return (Sim if E.symbolic else Real)(E, xc), xc


CHOICES = {(): 'plain', ('plain',): 'plain', ('ocd',): 'ocd', ('plain', 'ocd'): 'plain'}


def names(E, present):
    w, xc = world(E)
    with w:
        f = Files(E, '', present)
        w.sets.append(f)
        if not E.symbolic:
            w.sync()
        m = xc.XMLCacheManager(w.folder)
        m.interval = w.text(f)
        w.check_name('file-name', f, m.get_file_name(), CHOICES[present])
        E.true('in-cache', bool(m.interval_inputs_in_cache()) == bool(present))
        w.check_name('file-path', f, os.path.basename(str(m.get_file_path())), CHOICES[present])
        E.true('file-folder', os.path.dirname(str(m.get_file_path())) == w.folder)


def load(E, first, second, download, at=None):
    """Two intervals loaded one after another; what is not there is downloaded."""
    from nempy.historical_inputs import loaders
    w, xc = world(E)
    with w:
        f, g = Files(E, '1', first, at), Files(E, '2', second)
        E.assume(E.Or(E.Not(E.eq(f.day, g.day)), E.Not(E.eq(f.k, g.k))))
        w.sets += [f, g]
        if not E.symbolic:
            w.sync()
        m = xc.XMLCacheManager(w.folder)
        ld = loaders.RawInputsLoader(m, None)
        for s, label in ((f, 'first'), (g, 'second')):
            w.urls.clear()

            def arrive(s=s):
                s.present |= set(download)
            w.on_download = arrive
            had = bool(s.present)
            try:
                ld.set_interval(w.text(s))
            except xc.MissingDataError:
                E.true('missing-reported', not s.present)
                w.check_url('download-day', s)
                return
            E.true('missing-not-reported', bool(s.present))
            v = CHOICES[tuple(x for x in ('plain', 'ocd') if x in s.present)]
            name = m.get_file_name()
            w.check_name('loaded-name', s, name, v)
            w.check_read('loaded-content', m, name)
            E.true('over-constrained-flag', bool(ld.is_over_constrained_dispatch_rerun()) == (v == 'ocd'))
            if not had:
                w.check_url('download-day', s)
            else:
                E.true('no-download', not w.urls)


def cases(tier):
    from vlib.runner import Case
    out = [Case('names_' + ('_'.join(p) or 'none'), names, dict(present=p)) for p in CHOICES]
    loads = [(('plain',), ('ocd',), ()), ((), ('plain', 'ocd'), ('ocd',)), (('ocd',), (), ('plain',)), ((), (), ())]
    ats = [(2024, 3, 1, 0), (2019, 12, 31, 49), (2021, 1, 1, 48), (2050, 7, 9, 150)]
    if tier == 'thorough':
        out += [Case('load_both_%d' % i, load, dict(first=a, second=b, download=d)) for i, (a, b, d) in enumerate(loads)]
        loads = [(a, b, d) for a in CHOICES for b in CHOICES for d in ((), ('plain',), ('ocd',), ('plain', 'ocd'))]
    out += [Case('load_%d' % i, load, dict(first=a, second=b, download=d, at=ats[i % 4])) for i, (a, b, d) in enumerate(loads)]
    return out
