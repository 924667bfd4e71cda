"""Install the symbolic environment into the already imported meshiphi modules of *this* process.

Only called in forked symbolic workers; replay processes never see any of it.
"""
import builtins
import json as _json
import logging
import math as _math
import sys
import types
import numpy as _np
from fractions import Fraction

from . import core, geom, npf
from .core import SymNum, SymBool, is_sym, taint, eng, Unsupported


# ------------------------------------------------------------------ builtins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, SymNum) and not o.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymNum))

    def __eq__(cls, o):
        return o is cls or o is float or o is SymNum or o is _np.float64

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0.0, *a):
        if isinstance(x, SymNum):
            if x.is_const() and Fraction(float(x.c)) == x.c:
                return float(x.c)
            return SymNum(x.c, x.t, False)
        if isinstance(x, SymBool):
            return float(x._i())
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.reshape(-1)[0])
        if type(x).__name__ in ('DataArray', 'Series') and getattr(x, 'size', 0) == 1:
            return cls(_np.asarray(x.values).reshape(-1)[0])
        if isinstance(x, str) and core.ENGINE is not None:
            v = core.ENGINE.untoken(x)
            if v is not None:
                return SymNum(v.c, v.t, False)
        return float(x, *a)


class PFloat(metaclass=_FloatMeta):
    dtype = _np.dtype(float)
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, SymNum) and o.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, *a):
        if isinstance(x, SymNum):
            if not x.isint:
                x = x.__trunc__()
            return int(x.c) if x.is_const() else x
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, str) and core.ENGINE is not None:
            v = core.ENGINE.untoken(x)
            if v is not None:
                return v
        return int(x, *a)


class PInt(metaclass=_IntMeta):
    dtype = _np.dtype(int)


def p_round(x, nd=None):
    if isinstance(x, SymNum):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def p_range(*a):
    return builtins.range(*[int(x) if isinstance(x, SymNum) else x for x in a])


# ------------------------------------------------------------------ json
_MARK = '\x01'


class _Enc:
    pass


def _enc(o):
    if isinstance(o, SymNum):
        return _MARK + eng().token(o)
    if isinstance(o, SymBool):
        return bool(o)
    raise TypeError(f'Object of type {type(o).__name__} is not JSON serializable')


def _dec(o):
    if isinstance(o, str) and o.startswith(_MARK):
        return core.ENGINE.untoken(o[1:])
    if isinstance(o, list):
        return [_dec(x) for x in o]
    if isinstance(o, dict):
        return {k: _dec(v) for k, v in o.items()}
    return o


def j_dumps(o, *a, **k):
    k.setdefault('default', _enc)
    return _json.dumps(o, *a, **k)


def j_loads(s, *a, **k):
    return _dec(_json.loads(s, *a, **k))


def j_dump(o, f, *a, **k):
    f.write(j_dumps(o, *a, **k))


def j_load(f, *a, **k):
    return j_loads(f.read(), *a, **k)


# ------------------------------------------------------------------ misc stand-ins
class Tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __getattr__(self, n):
        return lambda *a, **k: None

    @staticmethod
    def write(*a, **k):
        pass


class SilentLog(types.ModuleType):
    def __getattr__(self, n):
        if n in ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'warn'):
            return lambda *a, **k: None
        return getattr(logging, n)


def _pandas_patches():
    import pandas as pd
    from pandas.core import nanops

    def wrapn(name, red):
        real = getattr(nanops, name)

        def f(values, *a, axis=None, skipna=True, mask=None, **k):
            if getattr(values, 'dtype', None) == object and core.ENGINE is not None:
                ddof = k.get('ddof', None)
                g = npf._red(red, skipna)
                A = _np.asarray(values)
                kw = {} if ddof is None else {'ddof': ddof}
                if axis is None or A.ndim == 1:
                    vals = [v for v in A.ravel().tolist() if not (skipna and npf._isnan1(v))]
                    if not vals and red in (npf._minl, npf._maxl):
                        return float('nan')
                    return g(A, None, **kw)
                return g(A, axis, **kw)
            return real(values, *a, axis=axis, skipna=skipna, mask=mask, **k)
        setattr(nanops, name, f)
    for n, r in (('nansum', npf._sum), ('nanmean', npf._mean), ('nanmedian', npf._median), ('nanmin', npf._nanminl),
                 ('nanmax', npf._nanmaxl), ('nanvar', npf._var), ('nanstd', npf._std)):
        wrapn(n, r)

    def wraparg(name, best):
        real = getattr(nanops, name)

        def f(values, *, axis=None, skipna=True, mask=None):
            if getattr(values, 'dtype', None) == object and core.ENGINE is not None:
                vals = _np.asarray(values).ravel().tolist()
                if not skipna and any(npf._isnan1(v) for v in vals) or all(npf._isnan1(v) for v in vals):
                    return -1
                return npf.argbest(vals, best)
            return real(values, axis=axis, skipna=skipna, mask=mask)
        setattr(nanops, name, f)
    wraparg('nanargmin', 'min')
    wraparg('nanargmax', 'max')

    # label slicing of a concrete monotonic index with symbolic bounds
    real_si = pd.Index.slice_indexer

    def slice_indexer(self, start=None, end=None, step=None, **k):
        if is_sym(start) or is_sym(end):
            if step not in (None, 1):
                taint('stepped symbolic slice')
            vals = [v.item() if isinstance(v, _np.generic) else v for v in self.tolist()]
            inc = self.is_monotonic_increasing
            if not inc and not self.is_monotonic_decreasing:
                raise KeyError('Cannot get left slice bound for non-unique/non-monotonic label')
            lo = 0
            hi = len(vals)
            if start is not None:
                lo = 0
                for v in vals:
                    if bool(v < start) if inc else bool(v > start):
                        lo += 1
                    else:
                        break
            if end is not None:
                hi = 0
                for v in vals:
                    if bool(v <= end) if inc else bool(v >= end):
                        hi += 1
                    else:
                        break
            return slice(lo, hi, None)
        return real_si(self, start, end, step, **k)
    pd.Index.slice_indexer = slice_indexer

    real_numeric = pd.to_numeric

    def to_numeric(x, *a, **k):
        if npf.has_sym(x) and isinstance(x, pd.Series):
            # symbolic numbers are numbers, everything else is converted as usual
            return pd.Series([v if npf.has_sym(v) else real_numeric(pd.Series([v]), *a, **k).iloc[0] for v in x], index=x.index, name=x.name, dtype=object)
        if npf.has_sym(x):
            return x
        return real_numeric(x, *a, **k)
    pd.to_numeric = to_numeric


def _xarray_patches():
    from xarray.core import duck_array_ops as dao
    try:
        from xarray.compat import array_api_compat                    # noqa
    except ImportError:
        pass

    def wrap(name, red):
        real = getattr(dao, name)

        def f(values, axis=None, skipna=None, **k):
            if core.ENGINE is not None and getattr(values, 'dtype', None) == object:
                k.pop('dtype', None)
                k.pop('min_count', None)
                g = npf._red(red, skipna is None or bool(skipna))
                kw = {'ddof': k['ddof']} if k.get('ddof') is not None else {}
                A = _np.asarray(values)
                if isinstance(axis, tuple) and len(axis) == A.ndim or axis == () and A.ndim == 0:
                    axis = None
                if isinstance(axis, tuple) and len(axis) == 1:
                    axis = axis[0]
                if isinstance(axis, tuple):
                    rest = [i for i in range(A.ndim) if i not in [x % A.ndim for x in axis]]
                    A = _np.transpose(A, rest + [x % A.ndim for x in axis])
                    A = A.reshape(A.shape[:len(rest)] + (-1,))
                    axis = -1
                r = g(A, axis, **kw)
                if isinstance(r, _np.ndarray):
                    return r
                out = _np.empty((), dtype=object)
                out[()] = r
                return out
            return real(values, axis=axis, skipna=skipna, **k)
        f.__name__ = name
        for a in ('available_min_count', 'numeric_only'):
            if hasattr(real, a):
                setattr(f, a, getattr(real, a))
        setattr(dao, name, f)
    for n, r in (('mean', npf._mean), ('sum', npf._sum), ('median', npf._median), ('min', npf._nanminl), ('max', npf._nanmaxl), ('std', npf._std), ('var', npf._var)):
        wrap(n, r)

    def wraparg(name, best):
        real = getattr(dao, name)

        def f(values, axis=None, skipna=None, **k):
            if core.ENGINE is not None and getattr(values, 'dtype', None) == object:
                A = _np.asarray(values)
                if axis is not None and not (isinstance(axis, int) and A.ndim == 1):
                    taint('argmin along an axis')
                vals = A.ravel().tolist()
                if skipna is None or skipna:
                    if all(npf._isnan1(v) for v in vals):
                        raise ValueError('All-NaN slice encountered')
                elif any(npf._isnan1(v) for v in vals):
                    return _np.array([i for i, v in enumerate(vals) if npf._isnan1(v)][0])
                return _np.array(npf.argbest(vals, best))
            return real(values, axis=axis, skipna=skipna, **k)
        f.__name__ = name
        setattr(dao, name, f)
    # arrays of symbolic numbers are numeric
    import xarray as xr
    reduce = xr.Dataset.reduce

    def red(self, func, dim=None, *, numeric_only=False, **k):
        if core.ENGINE is not None:
            numeric_only = False
        return reduce(self, func, dim, numeric_only=numeric_only, **k)
    xr.Dataset.reduce = red
    wraparg('argmin', 'min')
    wraparg('argmax', 'max')


_DONE = False


def mapping():
    import shapely, shapely.wkt, shapely.geometry, shapely.ops, shapely.strtree
    wktf = npf.Facade(shapely.wkt, {'loads': geom.loads, 'dumps': geom.dumps}, 'shapely.wkt')
    geomf = npf.Facade(shapely.geometry, {'Polygon': geom.Polygon, 'MultiPolygon': geom.MultiPolygon, 'Point': geom.Point,
                                          'box': geom.box, 'GeometryCollection': geom.GeometryCollection}, 'shapely.geometry')
    opsf = npf.Facade(shapely.ops, {'unary_union': geom.unary_union}, 'shapely.ops')
    strf = npf.Facade(shapely.strtree, {'STRtree': geom.STRtree}, 'shapely.strtree')
    shp = npf.Facade(shapely, {'wkt': wktf, 'geometry': geomf, 'ops': opsf, 'strtree': strf, 'Polygon': geom.Polygon,
                               'MultiPolygon': geom.MultiPolygon, 'Point': geom.Point, 'box': geom.box, 'GeometryCollection': geom.GeometryCollection,
                               'unary_union': geom.unary_union, 'union_all': geom.unary_union, 'STRtree': geom.STRtree,
                               'from_wkt': geom.loads, 'to_wkt': geom.dumps}, 'shapely')
    npx = npf.make_np(PFloat, PInt)
    mth = npf.make_math()
    m = {id(shapely): shp, id(shapely.wkt): wktf, id(shapely.geometry): geomf, id(shapely.ops): opsf, id(shapely.strtree): strf,
         id(shapely.Polygon): geom.Polygon, id(shapely.MultiPolygon): geom.MultiPolygon, id(shapely.Point): geom.Point,
         id(shapely.GeometryCollection): geom.GeometryCollection, id(shapely.box): geom.box, id(shapely.wkt.loads): geom.loads, id(shapely.ops.unary_union): geom.unary_union,
         id(shapely.unary_union): geom.unary_union, id(shapely.strtree.STRtree): geom.STRtree,
         id(_np): npx, id(_math): mth, id(_json): npf.Facade(_json, {'dumps': j_dumps, 'loads': j_loads, 'dump': j_dump, 'load': j_load}, 'json'),
         id(logging): SilentLog('logging')}
    try:
        m[id(shapely.geometry.box)] = geom.box
    except Exception:
        pass
    for n, f in npf.MATH.items():
        m[id(getattr(_math, n))] = f
    for n in npf.OVERRIDES:
        m[id(getattr(_np, n))] = getattr(npx, n)
    for n in npf._OBJ_CTORS:
        m[id(getattr(_np, n))] = getattr(npx, n)
    m[id(_json.dumps)] = j_dumps
    m[id(_json.loads)] = j_loads
    import jsonschema

    def has_sym(o):
        if isinstance(o, dict):
            return any(has_sym(v) for v in o.values())
        if isinstance(o, (list, tuple)):
            return any(has_sym(v) for v in o)
        return is_sym(o)
    real_validate = jsonschema.validate
    classes = {}

    def validate(instance, schema, cls=None, *a, **k):
        if has_sym(instance):
            # the real validator, with symbolic numbers being numbers
            c = cls or jsonschema.validators.validator_for(schema)
            if c not in classes:
                t = c.TYPE_CHECKER
                classes[c] = jsonschema.validators.extend(c, type_checker=t.redefine_many({
                    'number': lambda ch, o, t=t: isinstance(o, SymNum) or t.is_type(o, 'number'),
                    'integer': lambda ch, o, t=t: isinstance(o, SymNum) and o.isint or t.is_type(o, 'integer'),
                    'boolean': lambda ch, o, t=t: isinstance(o, SymBool) or t.is_type(o, 'boolean')}))
            cls = classes[c]
        return real_validate(instance, schema, cls, *a, **k)
    m[id(jsonschema)] = npf.Facade(jsonschema, {'validate': validate}, 'jsonschema')
    m[id(real_validate)] = validate
    import tqdm
    m[id(tqdm)] = npf.Facade(tqdm, {'tqdm': Tqdm}, 'tqdm')
    m[id(tqdm.tqdm)] = Tqdm
    return m


def install(extra=None):
    """patch every loaded meshiphi module; extra: {module name: {global: value}}"""
    global _DONE
    if _DONE:
        return
    _DONE = True
    m = mapping()
    for name, mod in list(sys.modules.items()):
        if not (name == 'meshiphi' or name.startswith('meshiphi.')) or mod is None:
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            if k.startswith('__'):
                continue
            r = m.get(id(v))
            if r is not None:
                g[k] = r
        g.setdefault('float', PFloat)
        g.setdefault('int', PInt)
        g.setdefault('round', p_round)
        g.setdefault('range', p_range)
    _pandas_patches()
    _xarray_patches()
    import warnings
    warnings.simplefilter('ignore')
    if extra:
        for mn, d in extra.items():
            mod = sys.modules.get(mn)
            if mod is not None:
                mod.__dict__.update(d)
