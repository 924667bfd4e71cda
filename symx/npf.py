"""numpy / math facades: real numpy for concrete arguments, exact symbolic versions otherwise."""
import builtins
import math as _math
import numpy as _np
import types
from fractions import Fraction

from . import core
from .core import SymNum, SymBool, And, Or, Not, is_sym, taint, eng, Unsupported


def has_sym(x, depth=0):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if depth > 6:
        return False
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return False
    t = type(x).__name__
    if t in ('Series', 'DataArray', 'Index', 'Variable'):
        return x.dtype == object
    if t == 'DataFrame':
        return any(d == object for d in x.dtypes)
    return False


def _isnan1(v):
    if is_sym(v):
        return False
    try:
        return bool(v != v)
    except Exception:
        return False


def arr(x):
    if isinstance(x, _np.ndarray):
        return x
    if hasattr(x, 'to_numpy') and not isinstance(x, (list, tuple)):
        return _np.asarray(x.to_numpy())
    if hasattr(x, 'values') and not callable(x.values):
        return _np.asarray(x.values)
    if is_sym(x):
        a = _np.empty((), dtype=object)
        a[()] = x
        return a
    return _np.asarray(x, dtype=object) if has_sym(x) else _np.asarray(x)


def unwrap(a):
    if isinstance(a, _np.ndarray) and a.ndim == 0:
        return a.item()
    return a


def elementwise(f, dtype=object):
    def g(*xs, **kw):
        kw.pop('out', None)
        kw.pop('where', None)
        if xs and type(xs[0]).__name__ == 'Series':
            import pandas as pd
            s = xs[0]
            vals = [f(v, *[(y.iloc[i] if type(y).__name__ == 'Series' else y) for y in xs[1:]]) for i, v in enumerate(s.tolist())]
            return pd.Series(_mk(vals, dtype), index=s.index, name=s.name)
        if xs and type(xs[0]).__name__ == 'DataArray':
            da = xs[0]
            return da.copy(data=arr(g(da.values, *[y.values if type(y).__name__ == 'DataArray' else y for y in xs[1:]])))
        if xs and type(xs[0]).__name__ == 'DataFrame':
            df = xs[0]
            return df.apply(lambda col: g(col))
        bs = _np.broadcast_arrays(*[arr(x) for x in xs])
        if bs[0].ndim == 0:
            return f(*[b.item() for b in bs])
        out = _np.empty(bs[0].shape, dtype=dtype)
        for idx in _np.ndindex(bs[0].shape):
            out[idx] = f(*[_py(b[idx]) for b in bs])
        return out
    return g


def _py(v):
    if isinstance(v, _np.generic):
        return v.item()
    return v


def _mk(vals, dtype):
    out = _np.empty(len(vals), dtype=dtype)
    for i, v in enumerate(vals):
        out[i] = v
    return out


def smin(a, b):
    if _isnan1(a) or _isnan1(b):
        return float('nan')
    return b if bool(b < a) else a


def smax(a, b):
    if _isnan1(a) or _isnan1(b):
        return float('nan')
    return b if bool(b > a) else a


def _flat(x):
    return [_py(v) for v in arr(x).ravel().tolist()]


def ssort(vals):
    out = []
    for v in vals:
        i = 0
        while i < len(out) and not bool(v < out[i]):
            i += 1
        out.insert(i, v)
    return out


def _red(core_f, nan_skip):
    """reduction builder over flat list -> scalar"""
    def on(vals):
        if nan_skip:
            vals = [v for v in vals if not _isnan1(v)]
        elif any(_isnan1(v) for v in vals):
            return float('nan')
        return core_f(vals)

    def g(x, axis=None, *a, **kw):
        ddof = kw.pop('ddof', None)
        f = on if ddof is None else (lambda v: _ddof(core_f, [q for q in v if not _isnan1(q)] if nan_skip else v, ddof))
        keep = kw.pop('keepdims', False)
        A = arr(x)
        if axis is None:
            return f(_flat(A))
        A2 = _np.moveaxis(A, axis, -1)
        out = _np.empty(A2.shape[:-1], dtype=object)
        for idx in _np.ndindex(A2.shape[:-1]):
            out[idx] = f([_py(v) for v in A2[idx].tolist()])
        if keep is True:
            out = _np.expand_dims(out, axis)
        return unwrap(out)
    return g


def _sum(v):
    t = 0
    for q in v:
        t = t + q
    return t


def _mean(v):
    if not v:
        return float('nan')
    return _sum(v) / len(v)


def _minl(v):
    if not v:
        raise ValueError('zero-size array to reduction operation')
    m = v[0]
    for q in v[1:]:
        m = smin(m, q)
    return m


def _maxl(v):
    if not v:
        raise ValueError('zero-size array to reduction operation')
    m = v[0]
    for q in v[1:]:
        m = smax(m, q)
    return m


def _nanminl(v):
    return _minl(v) if v else float('nan')


def _nanmaxl(v):
    return _maxl(v) if v else float('nan')


def _median(v):
    if not v:
        return float('nan')
    s = ssort(v)
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def _var(v, ddof=0):
    if len(v) - ddof <= 0:
        return float('nan')
    m = _mean(v)
    return _sum([(q - m) * (q - m) for q in v]) / (len(v) - ddof)


def _std(v, ddof=0):
    r = _var(v, ddof)
    return r if _isnan1(r) else sqrt1(r)


def _ddof(f, v, ddof):
    if any(_isnan1(q) for q in v):
        return float('nan')
    if f in (_var, _std):
        return f(v, ddof)
    return f(v)


def sqrt1(v):
    if is_sym(v):
        return v.sqrt()
    return _math.sqrt(v) if v >= 0 else float('nan')


def abs1(v):
    return abs(v)


def floor1(v):
    if is_sym(v):
        f = v.floor()
        return SymNum(f.c, f.t, False)
    return float(_math.floor(v)) if not _isnan1(v) else v


def ceil1(v):
    if is_sym(v):
        f = v.ceil()
        return SymNum(f.c, f.t, False)
    return float(_math.ceil(v)) if not _isnan1(v) else v


def round1(v, nd=None):
    if is_sym(v):
        return v.__round__(nd)
    return float(_np.round(v, nd or 0))


def s_round(x, decimals=None, out=None):
    if decimals is None:
        return elementwise(round1)(x)
    return elementwise(lambda v, d: round1(v, int(d)))(x, decimals)


def log10_1(v):
    if not is_sym(v):
        return _math.log10(v)
    if not bool(v > 0):
        taint('log10 of a non-positive symbolic number')
    e = eng()
    for _ in range(e.FORKCAP):
        g = e.peek(v)
        q = 0
        while Fraction(10) ** q > g:
            q -= 1
        while Fraction(10) ** (q + 1) <= g:
            q += 1
        lo, hi = Fraction(10) ** q, Fraction(10) ** (q + 1)
        if bool(core.And(v >= lo, v < hi)):
            if bool(v == lo):
                return float(q)
            r = e.uninterpreted('log10', [v])
            c = core.And(r > q, r < q + 1)
            if not isinstance(c, bool):
                e.add(c.z3())
            e.floors[r.key()] = q
            return r
    raise core.PathLimit('log10 decades')


def s_log10(x, out=None, where=True, **k):
    if out is None and where is True:
        return elementwise(log10_1)(x)
    A = arr(x)
    W = _np.broadcast_to(arr(where), A.shape)
    O = out if out is not None else _np.zeros(A.shape, dtype=object)
    for i in _np.ndindex(A.shape):
        if bool(W[i]):
            O[i] = log10_1(_py(A[i]))
    return O


def mod1(a, b):
    if _isnan1(a) or _isnan1(b):
        return float('nan')
    return a % b


def isclose1(a, b, rtol=1e-05, atol=1e-08):
    if _isnan1(a) or _isnan1(b):
        return False
    d = a - b
    tol = Fraction(atol) + Fraction(rtol) * (abs(b) if not isinstance(b, float) else Fraction(abs(b)))
    return bool(abs(d) <= tol)


def uninterp(name, real, lo=None, hi=None):
    def f(*xs):
        if any(_isnan1(x) for x in xs):
            return float('nan')
        if not any(is_sym(x) for x in xs):
            return real(*xs)
        return eng().uninterpreted(name, [SymNum.lift(x) for x in xs], lo, hi)
    return f


def s_arange(*a, **k):
    k.pop('dtype', None)
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        (start, stop), step = a, k.get('step', 1)
    else:
        start, stop, step = a[:3]
    n = (stop - start) / step if not is_sym(step) else None
    if n is None:
        # n = ceil((stop-start)/step) found by forking on the quotient
        d, s = stop - start, step
        q = -(-(SymNum.lift(d)) // s)
    else:
        q = -((-SymNum.lift(n)).floor())
    n = int(q)
    n = builtins.max(0, n)
    out = _np.empty(n, dtype=object)
    for i in range(n):
        out[i] = start + i * step
    return out


def s_linspace(start, stop, num=50, endpoint=True, retstep=False, **k):
    num = int(num)
    div = (num - 1) if endpoint else num
    out = _np.empty(num, dtype=object)
    step = (stop - start) / div if div > 0 else float('nan')
    for i in range(num):
        out[i] = start + i * step if div > 0 else start
    if endpoint and num > 1:
        out[-1] = stop
    return (out, step) if retstep else out


def s_gradient(f, *varargs, axis=None, edge_order=1):
    if varargs or edge_order != 1:
        taint('gradient with spacing')
    A = arr(f)
    axes = range(A.ndim) if axis is None else [axis] if isinstance(axis, int) else axis
    outs = []
    for ax in axes:
        B = _np.moveaxis(A, ax, 0)
        n = B.shape[0]
        if n < 2:
            raise ValueError('Shape of array too small to calculate a numerical gradient, at least (edge_order + 1) elements are required.')
        out = _np.empty(B.shape, dtype=object)
        out[0] = B[1] - B[0]
        out[n - 1] = B[n - 1] - B[n - 2]
        for i in range(1, n - 1):
            out[i] = (B[i + 1] - B[i - 1]) / 2
        outs.append(_np.moveaxis(out, 0, ax))
    if axis is None and A.ndim > 1:
        return outs
    return outs[0]


def s_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        taint('norm ord')
    A = arr(x)
    if axis is None:
        return sqrt1(_sum([q * q for q in _flat(A)]))
    A2 = _np.moveaxis(A, axis, -1)
    out = _np.empty(A2.shape[:-1], dtype=object)
    for idx in _np.ndindex(A2.shape[:-1]):
        v = [_py(q) for q in A2[idx].tolist()]
        out[idx] = float('nan') if any(_isnan1(q) for q in v) else sqrt1(_sum([q * q for q in v]))
    return unwrap(out)


def s_average(x, axis=None, weights=None, **k):
    if weights is None:
        return _red(_mean, False)(x, axis)
    v, w = _flat(x), _flat(weights)
    if any(_isnan1(q) for q in v + w):
        return float('nan')
    tw = _sum(w)
    if bool(SymNum.lift(tw) == 0):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return _sum([a * b for a, b in zip(v, w)]) / tw


def s_where(c, *ab):
    C = arr(c)
    b = _np.empty(C.shape, dtype=bool)
    for idx in _np.ndindex(C.shape):
        b[idx] = bool(C[idx])
    if not ab:
        return _np.where(b)
    A, B = arr(ab[0]), arr(ab[1])
    b, A, B = _np.broadcast_arrays(b, A, B)
    out = _np.empty(b.shape, dtype=object)
    for idx in _np.ndindex(b.shape):
        out[idx] = _py(A[idx]) if b[idx] else _py(B[idx])
    return unwrap(out)


def s_count_nonzero(x, axis=None):
    if axis is not None:
        taint('count_nonzero axis')
    return builtins.sum(1 for v in _flat(x) if bool(v))


def s_any(x, axis=None, **k):
    if axis is not None:
        taint('any axis')
    r = False
    for v in _flat(x):
        if bool(v):
            return True
    return r


def s_all(x, axis=None, **k):
    if axis is not None:
        taint('all axis')
    for v in _flat(x):
        if not bool(v):
            return False
    return True


def argbest(v, best):
    """index of the smallest / largest entry that is not NaN (first one of equals)"""
    bi = None
    for i in range(len(v)):
        if _isnan1(v[i]):
            continue
        if bi is None or (bool(v[i] < v[bi]) if best == 'min' else bool(v[i] > v[bi])):
            bi = i
    return bi


def s_argbest(best, nanskip=False):
    def f(x, axis=None):
        if axis is not None and arr(x).ndim > 1:
            taint('argmin along an axis')
        v = _flat(x)
        nn = [i for i, q in enumerate(v) if _isnan1(q)]
        if nn and not nanskip:
            return nn[0]
        if not v or len(nn) == len(v):
            raise ValueError('All-NaN slice encountered' if v else 'attempt to get argmin of an empty sequence')
        return argbest(v, best)
    return f


def s_unique(x, **k):
    if k:
        taint('unique with options')
    out = []
    for v in ssort(_flat(x)):
        if not out or not bool(out[-1] == v):
            out.append(v)
    return _mk(out, object)


def s_searchsorted(a, v, side='left', sorter=None):
    A = _flat(a)

    def one(x):
        n = 0
        for q in A:
            if (bool(q < x) if side == 'left' else bool(q <= x)):
                n += 1
            else:
                break
        return n
    if has_sym(v) and not isinstance(v, SymNum) or isinstance(v, (list, _np.ndarray)):
        return _np.array([one(x) for x in _flat(v)])
    return one(v)


def s_digitize(x, bins, right=False):
    return s_searchsorted(bins, x, side='left' if right else 'right')


def s_append(a, b, axis=None):
    A, B = arr(a), arr(b)
    if axis is None:
        return _np.concatenate([A.ravel().astype(object), B.ravel().astype(object)])
    return _np.concatenate([A.astype(object), B.astype(object)], axis=axis)


def s_asarray(x, dtype=None, **k):
    if is_sym(x):
        return arr(x)
    A = arr(x)
    return A.astype(object) if A.dtype != object else A


def s_array(x, dtype=None, **k):
    return s_asarray(x).copy()


def s_isin(x, test, **k):
    T = _flat(test)
    return elementwise(lambda v: any(bool(v == t) for t in T), dtype=bool)(x)


def s_sign(v):
    if _isnan1(v):
        return v
    return 1.0 if bool(v > 0) else -1.0 if bool(v < 0) else 0.0


def s_modf(v):
    if is_sym(v):
        t = v.__trunc__()
        return v - t, SymNum(t.c, t.t, False)
    return _math.modf(v)


OVERRIDES = {
    'isnan': elementwise(_isnan1, dtype=bool),
    'isfinite': elementwise(lambda v: True if is_sym(v) else bool(_math.isfinite(v)), dtype=bool),
    'isinf': elementwise(lambda v: False if is_sym(v) else bool(_math.isinf(v)), dtype=bool),
    'abs': elementwise(abs1), 'absolute': elementwise(abs1), 'fabs': elementwise(abs1),
    'mod': elementwise(mod1), 'remainder': elementwise(mod1),
    'floor': elementwise(floor1), 'ceil': elementwise(ceil1), 'rint': elementwise(round1),
    'round': s_round, 'around': s_round,
    'sqrt': elementwise(sqrt1), 'square': elementwise(lambda v: v * v), 'sign': elementwise(s_sign),
    'power': elementwise(lambda a, b: a ** b),
    'divide': elementwise(lambda a, b: a / b), 'true_divide': elementwise(lambda a, b: a / b),
    'floor_divide': elementwise(lambda a, b: a // b),
    'maximum': elementwise(smax), 'minimum': elementwise(smin),
    'fmax': elementwise(lambda a, b: b if _isnan1(a) else a if _isnan1(b) else smax(a, b)),
    'fmin': elementwise(lambda a, b: b if _isnan1(a) else a if _isnan1(b) else smin(a, b)),
    'clip': elementwise(lambda v, a, b: smin(smax(v, a), b)),
    'hypot': elementwise(lambda a, b: sqrt1(a * a + b * b)),
    'isclose': elementwise(isclose1, dtype=bool),
    'logical_and': elementwise(lambda a, b: bool(a) and bool(b), dtype=bool),
    'logical_or': elementwise(lambda a, b: bool(a) or bool(b), dtype=bool),
    'logical_not': elementwise(lambda a: not bool(a), dtype=bool),
    'sum': _red(_sum, False), 'nansum': _red(_sum, True),
    'mean': _red(_mean, False), 'nanmean': _red(_mean, True),
    'min': _red(_minl, False), 'amin': _red(_minl, False), 'nanmin': _red(_nanminl, True),
    'max': _red(_maxl, False), 'amax': _red(_maxl, False), 'nanmax': _red(_nanmaxl, True),
    'median': _red(_median, False), 'nanmedian': _red(_median, True),
    'std': _red(_std, False), 'nanstd': _red(_std, True),
    'var': _red(_var, False), 'nanvar': _red(_var, True),
    'average': s_average, 'count_nonzero': s_count_nonzero, 'any': s_any, 'all': s_all,
    'argmin': s_argbest('min'), 'argmax': s_argbest('max'), 'nanargmin': s_argbest('min', True), 'nanargmax': s_argbest('max', True),
    'arange': s_arange, 'linspace': s_linspace, 'gradient': s_gradient, 'where': s_where,
    'unique': s_unique, 'searchsorted': s_searchsorted, 'digitize': s_digitize, 'append': s_append,
    'asarray': s_asarray, 'array': s_array, 'isin': s_isin, 'modf': s_modf,
    'allclose': lambda a, b, **k: s_all(elementwise(isclose1, dtype=bool)(a, b)),
    'sin': elementwise(uninterp('sin', _math.sin, -1, 1)), 'cos': elementwise(uninterp('cos', _math.cos, -1, 1)),
    'arctan2': elementwise(uninterp('atan2', _math.atan2, -4, 4)),
    'radians': elementwise(uninterp('radians', _math.radians)), 'deg2rad': elementwise(uninterp('radians', _math.radians)),
    'degrees': elementwise(uninterp('degrees', _math.degrees)), 'rad2deg': elementwise(uninterp('degrees', _math.degrees)),
    'log10': s_log10,
}
# in-place friendly constructors: always object dtype when the engine is active
_OBJ_CTORS = ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like')


def _wrap(name, sym, real):
    def f(*a, **k):
        if core.ENGINE is not None and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            return sym(*a, **k)
        return real(*a, **k)
    f.__name__ = name
    f.__wrapped_real__ = real
    return f


def _ctor(name, real):
    def f(*a, **k):
        if core.ENGINE is not None and 'dtype' not in k and (name not in ('zeros', 'ones', 'empty') or len(a) < 2):
            if name.startswith('empty'):
                return _np.zeros(_np.shape(a[0]) if name.endswith('like') else a[0]).astype(object)
            if name.endswith('_like'):
                shp = _np.shape(arr(a[0]))
                if name == 'full_like':
                    return _fullobj(shp, a[1] if len(a) > 1 else k['fill_value'])
                return (_np.zeros(shp) if name == 'zeros_like' else _np.ones(shp)).astype(object)
            if name == 'full':
                return _fullobj(a[0], a[1] if len(a) > 1 else k['fill_value'])
            return real(*a, **k).astype(object)
        return real(*a, **k)
    f.__name__ = name
    return f


def _fullobj(shape, v):
    out = _np.empty(shape, dtype=object)
    for idx in _np.ndindex(out.shape):
        out[idx] = v
    return out


class Facade(types.ModuleType):
    def __init__(self, real, over, name):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)


def make_np(patched_float, patched_int):
    over = {n: _wrap(n, f, getattr(_np, n)) for n, f in OVERRIDES.items()}
    for n in _OBJ_CTORS:
        over[n] = _ctor(n, getattr(_np, n))
    over['linalg'] = Facade(_np.linalg, {'norm': _wrap('norm', s_norm, _np.linalg.norm)}, 'numpy.linalg')
    over['float64'] = patched_float
    over['float32'] = patched_float
    return Facade(_np, over, 'numpy')


def _m(name, sym):
    real = getattr(_math, name)

    def f(*a, **k):
        if any(is_sym(x) for x in a) or any(has_sym(x) for x in a):
            return sym(*a, **k)
        return real(*a, **k)
    f.__name__ = name
    return f


MATH = {
    'sqrt': _m('sqrt', sqrt1), 'floor': _m('floor', lambda v: v.floor()), 'ceil': _m('ceil', lambda v: v.ceil()),
    'fabs': _m('fabs', abs), 'isnan': _m('isnan', lambda v: False), 'isinf': _m('isinf', lambda v: False),
    'isfinite': _m('isfinite', lambda v: True), 'trunc': _m('trunc', lambda v: v.__trunc__()),
    'sin': _m('sin', uninterp('sin', _math.sin, -1, 1)), 'cos': _m('cos', uninterp('cos', _math.cos, -1, 1)),
    'asin': _m('asin', uninterp('asin', _math.asin)), 'atan2': _m('atan2', uninterp('atan2', _math.atan2, -4, 4)),
    'radians': _m('radians', uninterp('radians', _math.radians)), 'degrees': _m('degrees', uninterp('degrees', _math.degrees)),
    'isclose': _m('isclose', lambda a, b, rel_tol=1e-09, abs_tol=0.0: bool(abs(a - b) <= smax(Fraction(rel_tol) * smax(abs(a), abs(b)), Fraction(abs_tol)))),
    'fmod': _m('fmod', lambda a, b: (a % abs(b)) if bool(a >= 0) else -((-a) % abs(b))),
    'pow': _m('pow', lambda a, b: a ** b), 'hypot': _m('hypot', lambda a, b: sqrt1(a * a + b * b)),
    'log10': _m('log10', log10_1),
    'fsum': _m('fsum', lambda v: _sum(list(v))),
}


def make_math():
    return Facade(_math, MATH, 'math')
