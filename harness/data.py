"""Loaders around in-memory data sets, for the data harnesses (same code in symbolic and concrete mode)."""
import numpy as np
import pandas as pd
import xarray as xr
from meshiphi.dataloaders.scalar.abstract_scalar import ScalarDataLoader
from meshiphi.dataloaders.vector.abstract_vector import VectorDataLoader
from meshiphi.mesh_generation.boundary import Boundary

DATA_STUB = 'pandas and xarray run as they are on object columns / arrays of symbolic values; their numeric reductions are replaced by exact-rational equivalents'


class Scal(ScalarDataLoader):
    def import_data(self, bounds):
        return self._given

    def __init__(self, bounds, params, data):
        self._given = data
        super().__init__(bounds, params)


class Vec(VectorDataLoader):
    def import_data(self, bounds):
        return self._given

    def __init__(self, bounds, params, data):
        self._given = data
        super().__init__(bounds, params)


_TEMPLATE = {}


def template(cls, names, kind):
    """a loader constructed for real from a one-point data set of the same kind"""
    import copy
    k = (cls, tuple(names), kind)
    if k not in _TEMPLATE:
        if kind is pd.DataFrame:
            d = pd.DataFrame({'lat': [5.0], 'long': [5.0], **{n: [1.0] for n in names}})
        else:
            d = xr.Dataset({n: (['lat', 'long'], np.array([[1.0]])) for n in names}, coords={'lat': [5.0], 'long': [5.0]})
        _TEMPLATE[k] = cls(Boundary([1.25, 8.75], [1.125, 8.875], ['1999-01-01', '1999-01-02']), {'dataloader_name': 'x', 'data_name': ','.join(names)}, d)
    return copy.deepcopy(_TEMPLATE[k])


def raw(cls, data, name, **kw):
    """a properly constructed loader whose data set is replaced by the given one"""
    l = template(cls, name.split(','), type(data))
    d = dict(dataloader_name='x', downsample_factors=[1, 1], aggregate_type='MEAN', min_dp=5, data=data, data_name=name, data_name_list=name.split(','))
    d.update(kw)
    l.__dict__.update(d)
    return l


def col(S, xs):
    a = np.empty(len(xs), dtype=object if S.symbolic else float)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def frame(S, lat, long, time=None, **cols):
    d = {'lat': col(S, lat), 'long': col(S, long)}
    if time is not None:
        d['time'] = list(time)
    for k, v in cols.items():
        d[k] = col(S, v)
    return pd.DataFrame(d)


def cube(S, lat, long, time=None, **cols):
    """xr.Dataset on a concrete grid; cols: name -> nested lists shaped (lat, long) or (time, lat, long)"""
    coords = {'lat': np.array(lat, dtype=float), 'long': np.array(long, dtype=float)}
    dims = ['lat', 'long']
    if time is not None:
        coords = {'time': list(time), **coords}
        dims = ['time'] + dims
    shape = tuple(len(coords[d]) for d in dims)
    v = {}
    for k, vals in cols.items():
        a = np.empty(shape, dtype=object if S.symbolic else float)
        flat = list(_flat(vals))
        for i, x in enumerate(flat):
            a[np.unravel_index(i, shape)] = x
        v[k] = (dims, a)
    return xr.Dataset(v, coords=coords)


def _flat(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            yield from _flat(x)
    else:
        yield v


def mean(S, xs):
    t = xs[0]
    for x in xs[1:]:
        t = t + x
    return t, len(xs)


def isnan(v):
    return isinstance(v, float) and v != v


def rectg(S, x0, y0, x1, y1):
    """rectangle polygon (shapely, or its stand-in in symbolic mode)"""
    if S.symbolic:
        from symx import geom
        return geom.box(x0, y0, x1, y1)
    import shapely
    return shapely.box(x0, y0, x1, y1)


def holesg(S, shell, holes):
    """rectangle with rectangular holes"""
    ring = lambda r: [(r[0], r[1]), (r[2], r[1]), (r[2], r[3]), (r[0], r[3])]
    if S.symbolic:
        from symx import geom
        return geom.Polygon(ring(shell), [ring(h) for h in holes])
    import shapely
    return shapely.Polygon(ring(shell), [ring(h) for h in holes])


def holeg(S, x0, y0, x1, y1, hole):
    """rectangle with a rectangular hole"""
    return holesg(S, (x0, y0, x1, y1), [hole])


def multig(S, rs):
    if S.symbolic:
        from symx import geom
        return geom.MultiPolygon([r if not isinstance(r, tuple) else geom.box(*r) for r in rs])
    import shapely
    return shapely.MultiPolygon([r if not isinstance(r, tuple) else shapely.box(*r) for r in rs])


def lineg(S):
    if S.symbolic:
        from symx import geom
        return geom.Line()
    import shapely
    return shapely.LineString([(0, 0), (1, 1)])


def table_of(S, geoms, index=None, **cols):
    """LUT table: geometry column plus data columns"""
    d = {'geometry': pd.Series(geoms, dtype=object)}
    for k, v in cols.items():
        d[k] = pd.Series(v, dtype=object if S.symbolic else None)
    df = pd.DataFrame(d)
    if index is not None:
        df.index = pd.Index(index, name='time')
    return df
