"""Stubs used while nempy runs symbolically.  Each is listed in the evidence assumptions."""


STRICT = [False]        # a check sets this where no symbolic number is in play


class FlexType:
    """Stands for np.float64 in a validator schema: a column of symbolic numbers (dtype object) also passes."""

    def __init__(self, real):
        self.real = real

    def __eq__(self, o):
        return o == self.real or not STRICT[0] and o == object

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def install():
    import numpy as np
    from nempy.spot_market_backend import dataframe_validator as dv
    cls = dv.SeriesSchema
    orig = cls.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        for n, v in list(self.__dict__.items()):
            if v is np.float64:
                self.__dict__[n] = FlexType(v)
    cls.__init__ = init
    _isinstance()
    _numbers()
    _merge_reductions()
    _elementwise()
    _astype()
    _float64()
    _round()


def _isinstance():
    """isinstance(symbolic number, float) holds inside nempy."""
    import builtins
    import sys
    from .sym import Sym

    def isinst(o, t):
        if isinstance(o, Sym):
            ts = t if isinstance(t, tuple) else (t,)
            return any(x is float or x is Sym or x is object or getattr(x, '_vf_float', False) for x in ts)
        if isinstance(t, tuple):
            t = tuple(float if getattr(x, '_vf_float', False) else int if getattr(x, '_vf_int', False) else x for x in t)
        elif getattr(t, '_vf_float', False):
            t = float
        elif getattr(t, '_vf_int', False):
            t = int
        return builtins.isinstance(o, t)
    import importlib
    import pkgutil
    import nempy
    for info in pkgutil.walk_packages(nempy.__path__, 'nempy.'):
        try:
            importlib.import_module(info.name)
        except ImportError:
            pass
    for n, m in list(sys.modules.items()):
        if n.split('.')[0] == 'nempy':
            m.isinstance = isinst


def _numbers():
    """float(x), int(x) and to_numeric(x) of the text of a symbolic number read from a file are the number itself."""
    import sys
    import numpy as np
    import pandas as pd
    from .sym import Sym, SymText, Inconclusive
    tn = pd.to_numeric

    def to_numeric(arg, *a, **k):
        vals = list(arg) if hasattr(arg, '__iter__') and not isinstance(arg, str) else [arg]
        if not any(isinstance(v, (Sym, SymText)) for v in vals):
            return tn(arg, *a, **k)
        out = np.empty(len(vals), dtype=object)
        out[:] = [v.sym if isinstance(v, SymText) else v if isinstance(v, Sym) else tn(v, *a, **k) for v in vals]
        return pd.Series(out, index=arg.index, name=arg.name) if isinstance(arg, pd.Series) else out if len(vals) > 1 else out[0]
    pd.to_numeric = to_numeric

    class vfloat(float):
        _vf_float = True

        def __new__(cls, x=0.0):
            return x.sym if isinstance(x, SymText) else x if isinstance(x, Sym) else float(x)

    class vint(int):
        _vf_int = True

        def __new__(cls, x=0, *a):
            if isinstance(x, SymText):
                if not x.integer:
                    raise Inconclusive('int() of the text of a number that need not be an integer')
                return x.sym
            return x if isinstance(x, Sym) else int(x, *a)
    for n in ('rhs_calculator', 'xml_cache'):
        m = sys.modules.get('nempy.historical_inputs.' + n)
        if m is not None:
            m.float, m.int = vfloat, vint


def _merge_reductions():
    """min/max of a pandas object column holding symbolic numbers: one if-then-else term instead of a fork per element
    order (same value, fewer paths)."""
    import numpy as np
    from pandas.core import nanops
    from .sym import Sym, num, z3, _special

    def pick(vals, less):
        r = None
        for v in vals:
            if v is None:
                continue
            if not isinstance(v, Sym) and v != v:
                continue
            if r is None:
                r = v
                continue
            sr, sv = _special(r), _special(v)
            if sr is not None or sv is not None:
                a = sr if sr is not None else 0.0
                b = sv if sv is not None else 0.0
                take = b < a if less else b > a
                r = v if take else r
                continue
            if not isinstance(r, Sym) and not isinstance(v, Sym):
                r = min(r, v) if less else max(r, v)
                continue
            a, b = num(r), num(v)
            r = Sym(z3.If(b < a if less else b > a, b, a))
        return float('nan') if r is None else r

    def wrap(name, less):
        orig = getattr(nanops, name)

        def f(values, *a, axis=None, skipna=True, **k):
            arr = getattr(values, '_values', values)
            if getattr(arr, 'dtype', None) == object and any(isinstance(x, Sym) for x in np.ravel(arr)):
                if arr.ndim == 1 or axis is None:
                    return pick(np.ravel(arr), less)
                out = np.empty(arr.shape[1 - axis], dtype=object)
                for i in range(len(out)):
                    out[i] = pick(arr[:, i] if axis == 0 else arr[i, :], less)
                return out
            return orig(values, *a, axis=axis, skipna=skipna, **k)
        f.__name__ = name
        setattr(nanops, name, f)
    mean = nanops.nanmean

    def nanmean(values, *a, axis=None, skipna=True, **k):
        arr = getattr(values, '_values', values)
        if getattr(arr, 'dtype', None) == object and getattr(arr, 'ndim', 0) == 1 and any(isinstance(x, Sym) for x in arr):
            vals = [v for v in arr if isinstance(v, Sym) or (v is not None and v == v)]
            return sum(vals[1:], vals[0]) / len(vals)
        return mean(values, *a, axis=axis, skipna=skipna, **k)
    nanops.nanmean = nanmean
    wrap('nanmin', True)
    wrap('nanmax', False)


def _elementwise():
    """np.fmin/fmax/minimum/maximum/isnan on object arrays holding symbolic numbers."""
    import numpy as np
    import pandas as pd
    from .sym import Sym, SymB, num, z3, _special

    def has(x):
        if isinstance(x, (Sym, SymB)):
            return True
        if isinstance(x, (pd.Series, pd.Index, pd.DataFrame)):
            x = x.to_numpy()
        return isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(v, (Sym, SymB)) for v in np.ravel(x))

    def objects(x):
        # a column of numbers that no longer holds a symbol would be a float column in the real run
        d = getattr(x, 'dtype', None)
        return d == object and all(isinstance(v, (float, int)) for v in np.ravel(x))

    def two(less, ignore_nan):
        def one(a, b):
            sa, sb = _special(a), _special(b)
            if sa is not None and sa != sa:
                return b if ignore_nan else a
            if sb is not None and sb != sb:
                return a if ignore_nan else b
            if sa is not None or sb is not None:
                fa = sa if sa is not None else 0.0
                fb = sb if sb is not None else 0.0
                return (a if fa < fb else b) if less else (a if fa > fb else b)
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return min(a, b) if less else max(a, b)
            x, y = num(a), num(b)
            return Sym(z3.If(x <= y if less else x >= y, x, y))
        return np.frompyfunc(one, 2, 1)

    def wrap2(name, less, ignore_nan):
        orig = getattr(np, name)
        f = two(less, ignore_nan)

        class W:
            def __call__(self, a, b, *r, **k):
                if has(a) or has(b) or objects(a) or objects(b):
                    return f(a, b)
                return orig(a, b, *r, **k)

            def __getattr__(self, n):
                return getattr(orig, n)
        setattr(np, name, W())
    wrap2('fmin', True, True)
    wrap2('fmax', False, True)
    wrap2('minimum', True, False)
    wrap2('maximum', False, False)

    nan_f = np.frompyfunc(lambda v: False if isinstance(v, (Sym, SymB)) else bool(v != v), 1, 1)
    orig_isnan = np.isnan

    def isnan(x, *a, **k):
        if has(x) or (getattr(x, 'dtype', None) == object):
            r = nan_f(x)
            return r.astype(bool) if hasattr(r, 'astype') else r
        return orig_isnan(x, *a, **k)
    np.isnan = isnan


def _astype():
    """astype(float) of a column holding symbolic numbers is the identity."""
    import numpy as np
    from pandas.core.dtypes import astype as am
    from pandas.core.internals import blocks
    from .sym import Sym, SymText
    orig = am.astype_array

    def astype_array(values, dtype, copy=False):
        if getattr(values, 'dtype', None) == object and getattr(dtype, 'kind', '') == 'f' \
                and any(isinstance(v, (Sym, SymText)) for v in np.ravel(values)):
            if any(isinstance(v, str) for v in np.ravel(values)):
                values = values.copy()
                for i in np.ndindex(values.shape):
                    if isinstance(values[i], str):
                        values[i] = values[i].sym if isinstance(values[i], SymText) else float(values[i])
                return values
            return values.copy() if copy else values
        return orig(values, dtype, copy)
    am.astype_array = astype_array
    if hasattr(blocks, 'astype_array'):
        blocks.astype_array = astype_array


def _float64():
    """np.float64(column) of a column holding symbolic numbers is the column itself (historical input modules)."""
    import sys
    import numpy as np
    from .sym import Sym, SymText

    class float64(np.float64):
        def __new__(cls, x=0.0, *a):
            if isinstance(x, Sym):
                return x
            if isinstance(x, SymText):
                return x.sym
            if getattr(x, 'dtype', None) == object and any(isinstance(v, (Sym, SymText)) for v in np.ravel(x)):
                return np.array(x.astype(float), dtype=object)
            return np.float64(x, *a)

    class Proxy:
        def __getattr__(self, n):
            return getattr(np, n)
    proxy = Proxy()
    proxy.float64 = float64
    for n, m in list(sys.modules.items()):
        if n.startswith('nempy.historical_inputs') and getattr(m, 'np', None) is np:
            m.np = proxy


def _round():
    """round(n) of a column holding symbolic numbers rounds each of them."""
    import numpy as np
    from pandas.core.internals import blocks
    from .sym import Sym
    orig = blocks.Block.round

    def round_(self, decimals, *a, **k):
        v = self.values
        if getattr(v, 'dtype', None) == object and any(isinstance(x, Sym) for x in np.ravel(v)):
            out = np.empty(v.shape, dtype=object)
            for i in np.ndindex(v.shape):
                out[i] = round(v[i], decimals) if isinstance(v[i], (Sym, float)) else v[i]
            return self.make_block_same_class(out)
        return orig(self, decimals, *a, **k)
    blocks.Block.round = round_
