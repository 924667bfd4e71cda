"""C32 reprojection of sources"""
import contextlib
import numpy as np
import pandas as pd
import xarray as xr
from .common import *
from .data import *
from .c31 import store, arrof, times, got_points, same
from meshiphi.dataloaders.factory import DataLoaderFactory
from meshiphi.dataloaders.scalar import abstract_scalar as ams
from meshiphi.dataloaders.vector import abstract_vector as amv

PROPERTY = dict(
    bounds='tables of two datapoints at any projected position, grids of 2 x 3, one or two dates, any real values (some missing), scalar and vector; tables and grids of 240 places, one of them of any value; AMSR files of three days (sixty with one value any), visual_iced files; the listed projections',
    outside='the projection itself (pyproj); the fast, interpolating reprojection; downsampling before a reprojection',
    stubs=['pyproj transformers replaced by a fixed affine map of (x, y) for each pair of projections (replays use pyproj)', 'xarray.open_dataset returns in-memory data sets', DATA_STUB, NP_STUB], budget=dict(quick=600, thorough=600))


class FCRS:
    def __init__(self, n):
        self.n = n.n if isinstance(n, FCRS) else str(n)

    @staticmethod
    def from_user_input(n):
        return FCRS(n)

    from_string = from_user_input

    @staticmethod
    def from_epsg(n):
        return FCRS(f'EPSG:{n}')

    def to_epsg(self, *a, **k):
        return int(self.n.split(':')[1]) if ':' in self.n else None

    def to_string(self, *a, **k):
        return self.n

    def __eq__(self, o):
        return isinstance(o, (str, FCRS)) and self.n.upper() == FCRS(o).n.upper()

    def __hash__(self):
        return hash(self.n.upper())


K = {'EPSG:3411': 1, 'EPSG:3412': 2, 'EPSG:3031': 3, 'EPSG:3857': 4}


def affine(a, b, x, y):
    """stand-in for a -> b, x and y in metres: longitude, latitude"""
    k = K.get(a, 7)
    return x / 1000000 * k + y / 4000000 + 20 * k, y / 1000000 - x / 8000000 * k - 50 + k


class FTr:
    @staticmethod
    def from_crs(a, b, always_xy=False, **kw):
        t = FTr()
        t.a, t.b, t.xy = FCRS(a).n, FCRS(b).n, always_xy
        return t

    def transform(self, x, y, *a, **k):
        f = np.frompyfunc(lambda p, q: affine(self.a, self.b, p, q), 2, 2)
        if np.ndim(x) == 0:
            lon, lat = affine(self.a, self.b, x, y)
        else:
            lon, lat = f(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
        return (lon, lat) if self.xy else (lat, lon)


_TR = {}


def place(S, a, x, y):
    """expected (lat, long)"""
    if S.symbolic:
        lon, lat = affine(a, 'EPSG:4326', x, y)
    else:
        from pyproj import Transformer
        if a not in _TR:
            _TR[a] = Transformer.from_crs(a, 'EPSG:4326', always_xy=True)
        lon, lat = _TR[a].transform(x, y)
    return lat, lon


@contextlib.contextmanager
def proj(S):
    if not S.symbolic:
        yield
        return
    import pyproj
    real = [(m, n, getattr(m, n)) for m in (ams, amv, pyproj) for n in ('Transformer', 'CRS') if hasattr(m, n)]
    for m, n, _ in real:
        setattr(m, n, {'Transformer': FTr, 'CRS': FCRS}[n])
    try:
        yield
    finally:
        for m, n, v in real:
            setattr(m, n, v)


def expect(S, g, want, names, time=False, exact=True):
    """want: list of (lat, long, date, {name: value})"""
    S.check(all(c in g.columns for c in ['lat', 'long'] + names), 'the data have the standard columns')
    if not all(c in g.columns for c in ['lat', 'long'] + names):
        return
    recs = g.to_dict('records')
    S.check(len(recs) == len(want), 'every datapoint is there once')
    left = list(want)
    for rec in recs:
        hit = None
        for w in left:
            if time and str(pd.Timestamp(rec['time']).date()) != w[2]:
                continue
            if S.And(S.eq(rec['lat'], w[0]), S.eq(rec['long'], w[1]), *[same(S, rec[n], w[3][n]) for n in names]):
                hit = w
                break
        S.check(hit is not None, 'a datapoint keeps its values and date at the place it is projected to')
        if hit is None:
            return
        left.remove(hit)


POS = [(-2000000.0, 1500000.0), (500000.0, -2500000.0)]


def table(S, cls='s', cols='xy', same_proj=False):
    """the documented default columns are a table with other names"""
    p = S.choice('proj', ['EPSG:3031', 'EPSG:3857', 'EPSG:3412'])
    n = 2
    xs = [S.real('x0', -3000000, 3000000), POS[1][0]]
    ys = [POS[0][1], S.real('y1', -3000000, 3000000)]
    names = ['v'] if cls == 's' else ['u', 'v']
    vals = {k: [S.real(f'{k}{i}', -9, 9) for i in range(n)] for k in names}
    xc, yc = {'xy': ('x', 'y'), 'en': ('easting', 'northing'), 'default': ('lat', 'long'), 'std': ('long', 'lat'), 'half': ('lat', 'y')}[cols]
    df = pd.DataFrame({'time': ['2020-01-01', '2020-01-02'], xc: col(S, xs), yc: col(S, ys), **{k: col(S, v) for k, v in vals.items()}})
    l = raw(Scal if cls == 's' else Vec, df, ','.join(names), fast_reprojection=False)
    with proj(S):
        got, e = S.call(l.reproject, in_proj=p, **({'out_proj': 'EPSG:4326' if not same_proj else p, 'x_col': xc, 'y_col': yc} if cols != 'default' else {}))
    S.check(e is None, 'data can be reprojected')
    if e is not None:
        return
    if same_proj:
        S.check(list(got.columns) == ['time', xc, yc] + names and len(got) == 2, 'data in the right projection stay as they are')
        for i in range(n):
            S.check(S.And(S.eq(got[xc].tolist()[i], xs[i]), S.eq(got[yc].tolist()[i], ys[i])), 'data in the right projection stay as they are')
        S.reach('ok')
        return
    S.check(set(got.columns) == {'time', 'lat', 'long', *names}, 'the projected columns are replaced')
    expect(S, got, [place(S, p, xs[i], ys[i]) + (df['time'][i], {k: vals[k][i] for k in names}) for i in range(n)], names, time=True)
    S.reach('ok')


GX, GY = [-1500000.0, 250000.0, 1000000.0], [2000000.0, -500000.0]


def grid(S, cls='s', time=False):
    p = S.choice('proj', ['EPSG:3031', 'EPSG:3412'])
    names = ['v'] if cls == 's' else ['u', 'v']
    days = ['2020-01-01', '2020-01-03'] if time else [None]
    v, want = {}, []
    for k in names:
        a = np.empty((len(days), 2, 3), dtype=object if S.symbolic else float)
        for idx in np.ndindex(a.shape):
            a[idx] = S.val(f'{k}{"".join(map(str, idx))}', nan=True, lo=-9, hi=9) if idx in ((0, 0, 0), (0, 1, 2)) and k == names[-1] else S.real(f'{k}{"".join(map(str, idx))}', -9, 9)
        v[k] = a
    ds = xr.Dataset({k: ((['time'] if time else []) + ['y', 'x'], a if time else a[0]) for k, a in v.items()}, coords={'x': GX, 'y': GY, **({'time': days} if time else {})})
    l = raw(Scal if cls == 's' else Vec, ds, ','.join(names), fast_reprojection=False)
    with proj(S):
        got, e = S.call(l.reproject, in_proj=p, out_proj='EPSG:4326', x_col='x', y_col='y')
    S.check(e is None, 'data can be reprojected')
    if e is not None:
        return
    for d in range(len(days)):
        for i, y in enumerate(GY):
            for j, x in enumerate(GX):
                w = {k: v[k][d, i, j] for k in names}
                if not any(isnan(q) for q in w.values()):
                    want.append(place(S, p, x, y) + (days[d], w))
    S.check(isinstance(got, pd.DataFrame) and 'x' not in got.columns and 'y' not in got.columns, 'the projected columns are replaced')
    expect(S, got, want, names, time=time)
    S.reach('ok')


DAYS = ['2020-02-28', '2020-03-01', '2020-03-03']


def amsr(S, single=False):
    """daily files, selected by the date in their name, reprojected by hemisphere"""
    h = S.choice('hemi', ['south', 'North', 'SOUTH', 'east', 'northern', ''])
    t0, t1 = ['2020-02-28', '2020-02-29', '2020-03-03'][S.cint('t0', 0, 2)], ['2020-02-27', '2020-02-29', '2020-03-03', '2020-03-20'][S.cint('t1', 0, 3)]
    if t0 > t1:
        return
    days = DAYS if not single else [DAYS[1]]
    files, v = {}, {}
    for d, day in enumerate(days):
        a = np.empty((2, 3), dtype=object if S.symbolic else float)
        for idx in np.ndindex(a.shape):
            a[idx] = v[(d,) + idx] = S.val(f'v{d}{idx[0]}{idx[1]}', nan=True, lo=0, hi=100) if d == len(days) // 2 and idx == (0, 1) else S.real(f'v{d}{idx[0]}{idx[1]}', 0, 100)
        files[f'/x-y/asi-AMSR2-s6250-{day.replace("-", "")}-v5.4.nc'] = xr.Dataset({'z': (['y', 'x'], a), 'polar_stereographic': ([], 1)}, coords={'x': GX, 'y': GY})
    b = Boundary([-90, 90], [-180, 180], [t0, t1])
    with store(files) as opened, proj(S):
        l, e = S.call(DataLoaderFactory.get_dataloader, 'amsr', b, {'files': list(files), 'hemisphere': h})
    if h.lower() not in ('north', 'south'):
        S.check(isinstance(e, ValueError), 'an unknown hemisphere is refused')
        S.reach('hemi')
        return
    use = [d for d in range(len(days)) if t0 <= days[d] <= t1]
    if not use:
        S.check(isinstance(e, FileNotFoundError), 'without files in the date range the source is refused')
        S.reach('nofile')
        return
    S.check(e is None, 'the source can be loaded')
    if e is not None:
        return
    p = {'south': 'EPSG:3412', 'north': 'EPSG:3411'}[h.lower()]
    S.check(l.data_name == 'SIC', 'the data have their standard name')
    want = [place(S, p, x, y) + (days[d], {'SIC': v[d, i, j]}) for d in use for i, y in enumerate(GY) for j, x in enumerate(GX) if not isnan(v[d, i, j])]
    expect(S, got_points(l), want, ['SIC'], time=True)
    fs = list(files)
    S.check(list(l.files) == [fs[d] for d in use], 'the files used are remembered')
    S.reach('ok')


def amsr_many(S):
    """sixty daily files, one value of one of them any real"""
    n = 60
    alld = [str(d.date()) for d in pd.date_range('2020-01-20', periods=n)]
    t0, t1 = S.choice('t', [('2020-01-01', '2020-12-31'), ('2020-02-01', '2020-03-15'), ('2020-03-10', '2020-03-19')])
    at = S.choice('at', [0, 30, n - 1])
    files, v = {}, {}
    for d, day in enumerate(alld):
        a = np.empty((1, 3), dtype=object if S.symbolic else float)
        for j in range(3):
            a[0, j] = v[d, j] = S.real('v', 0, 100) if (d, j) == (at, 1) else float((d + 7 * j) % 50)
        files[f'/x/asi-AMSR2-s6250-{day.replace("-", "")}-v5.4.nc'] = xr.Dataset({'z': (['y', 'x'], a), 'polar_stereographic': ([], 1)}, coords={'x': GX, 'y': GY[:1]})
    with store(files), proj(S):
        l, e = S.call(DataLoaderFactory.get_dataloader, 'amsr', Boundary([-90, 90], [-180, 180], [t0, t1]), {'files': list(files), 'hemisphere': 'south'})
    S.check(e is None, 'the source can be loaded')
    if e is not None:
        return
    use = [d for d in range(n) if t0 <= alld[d] <= t1]
    want = [place(S, 'EPSG:3412', x, GY[0]) + (alld[d], {'SIC': v[d, j]}) for d in use for j, x in enumerate(GX)]
    expect(S, got_points(l), want, ['SIC'], time=True)
    S.check(list(l.files) == [list(files)[d] for d in use], 'the files used are remembered')
    S.reach('ok')


def large(S, kind='table', cls='s'):
    """240 places, one of them of any value"""
    p = S.choice('proj', ['EPSG:3031', 'EPSG:3412'])
    names = ['v'] if cls == 's' else ['u', 'v']
    xs, ys = [-1000000.0 + 125000.0 * i for i in range(16)], [500000.0 + 62500.0 * i for i in range(15)]
    at = S.choice('at', [0, 120, 239])
    vals = {k: [float((i * 3 + len(k)) % 11) for i in range(240)] for k in names}
    vals['v'][at] = S.real('a', -9, 9)
    vals['v'][17] = float('nan')
    pts = [(xs[i % 16], ys[i // 16]) for i in range(240)]
    if kind == 'table':
        data = pd.DataFrame({'x': [q[0] for q in pts], 'y': [q[1] for q in pts], **{k: col(S, v) for k, v in vals.items()}})
    else:
        data = xr.Dataset({k: (['y', 'x'], np.array(v, dtype=object if S.symbolic else float).reshape((15, 16))) for k, v in vals.items()}, coords={'x': xs, 'y': ys})
    l = raw(Scal if cls == 's' else Vec, data, ','.join(names), fast_reprojection=False)
    with proj(S):
        got, e = S.call(l.reproject, in_proj=p, out_proj='EPSG:4326', x_col='x', y_col='y')
    S.check(e is None, 'data can be reprojected')
    if e is not None:
        return
    got = got.dropna()
    S.check(len(got) == 239, 'every datapoint is there once')
    if len(got) != 239:
        return
    # both are in order of the rows, or the grid has been stacked the other way round: compare by place
    want = {}
    for i, q in enumerate(pts):
        if i != 17:
            la, lo = place(S, p, *q)
            want[round(float(la), 6), round(float(lo), 6)] = i
    seen = set()
    for rec in got.to_dict('records'):
        i = want.get((round(float(rec['lat']), 6), round(float(rec['long']), 6)))
        S.check(i is not None and S.And([same(S, rec[k], vals[k][i]) for k in names]), 'a datapoint keeps its values and date at the place it is projected to')
        seen.add(i)
    S.check(len(seen) == 239, 'every datapoint is there once')
    S.reach('ok')


def iced(S, fmt='nc'):
    p = 'EPSG:3031'
    v = {}
    a = np.empty((2, 3), dtype=object if S.symbolic else float)
    for idx in np.ndindex(a.shape):
        a[idx] = v[idx] = S.val(f'v{idx[0]}{idx[1]}', nan=idx == (1, 1), lo=-1, hi=3)
    if fmt == 'nc':
        ds = xr.Dataset({'Band1': (['y', 'x'], a), 'polar_stereographic': ([], 1)}, coords={'x': GX, 'y': GY})
    else:
        ds = xr.Dataset({'band_data': (['band', 'y', 'x'], a.reshape((1, 2, 3)))}, coords={'band': [1], 'x': GX, 'y': GY, 'spatial_ref': 0})
    files = {f'/x/a.{fmt}': ds}
    two = S.flag('two')
    with store(files), proj(S):
        l, e = S.call(DataLoaderFactory.get_dataloader, 'visual_iced', Boundary([-90, 90], [-180, 180], ['2020-01-01', '2020-02-01']),
                      {'files': list(files) * (2 if two else 1), 'in_proj': p, 'x_col': 'x', 'y_col': 'y'})
    if two:
        S.check(isinstance(e, ValueError), 'more than one image is refused')
        return
    S.check(e is None, 'the source can be loaded')
    if e is not None:
        return
    S.check(l.data_name == 'SIC', 'the data have their standard name')
    expect(S, got_points(l), [place(S, p, x, y) + (None, {'SIC': v[i, j] * 100}) for i, y in enumerate(GY) for j, x in enumerate(GX) if not isnan(v[i, j])], ['SIC'])
    S.reach('ok')


def csv_like(S, cls='s'):
    """a source constructed with in_proj, x_col and y_col holds its data at their true places"""
    p = S.choice('proj', ['EPSG:3031', 'EPSG:3412'])
    xs, ys = [S.real('x0', -2000000, 2000000), POS[1][0]], [POS[0][1], S.real('y1', -2000000, 2000000)]
    names = ['v'] if cls == 's' else ['u', 'v']
    vals = {k: [S.real(f'{k}{i}', 1, 9) if i == 0 and k == 'v' else 2.0 + i for i in range(2)] for k in names}
    df = pd.DataFrame({'e': col(S, xs), 'n': col(S, ys), **{k: col(S, q) for k, q in vals.items()}})
    with proj(S):
        l, e = S.call(Scal if cls == 's' else Vec, Boundary([-90, 90], [-180, 180], ['2020-01-01', '2020-02-01']), {'dataloader_name': 'x', 'in_proj': p, 'x_col': 'e', 'y_col': 'n'}, df)
    S.check(e is None, 'the source can be loaded')
    if e is not None:
        return
    want = [place(S, p, xs[i], ys[i]) + (None, {k: vals[k][i] for k in names}) for i in range(2)]
    expect(S, l.data, want, names)
    S.reach('ok')


def jobs(tier):
    J = []

    def add(fn, name, reach=('ok',), wit=3, **c):
        J.append(job(__name__, fn, name, cfg=c, reach=list(reach), wit_every=wit))
    for cls in ('s', 'v'):
        add('table', f'table-{cls}', cls=cls)
        add('table', f'table-{cls}-en', cls=cls, cols='en')
        for c in ('default', 'std', 'half'):
            add('table', f'table-{cls}-{c}', cls=cls, cols=c)
        add('table', f'table-{cls}-same', cls=cls, same_proj=True)
        add('grid', f'grid-{cls}', cls=cls)
        add('grid', f'grid-{cls}-time', cls=cls, time=True)
        add('csv_like', f'source-{cls}', cls=cls)
    add('amsr', 'amsr-single', ('ok', 'hemi', 'nofile'), single=True)
    add('amsr', 'amsr', ('ok', 'hemi', 'nofile'))
    add('amsr_many', 'amsr-many')
    for cls in ('s', 'v'):
        for k in ('table', 'grid'):
            add('large', f'large-{k}-{cls}', kind=k, cls=cls)
    for f in ('nc', 'tiff'):
        add('iced', f'iced-{f}', fmt=f)
    return J
