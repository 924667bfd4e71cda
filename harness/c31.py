"""C31 what the file loaders make of their files"""
import contextlib
import math
import numpy as np
import pandas as pd
import xarray as xr
from .common import *
from .data import *
from meshiphi.dataloaders.factory import DataLoaderFactory

PROPERTY = dict(
    bounds='files of up to 3 x 4 places and three days with any real values (one of them possibly missing); regions with any real latitude range or any real western edge (thorough: any real longitude range), also across the antimeridian; the listed date ranges',
    outside='the NetCDF/GRIB/GeoTIFF readers; places other than the listed ones; reprojected sources (C32); one-row or one-column regions may keep more than their own data; the last day of IceNet forecasts',
    stubs=['xarray.open_dataset and open_mfdataset return in-memory data sets', DATA_STUB, NP_STUB, 'sin, cos, arctan2 and radians uninterpreted'], budget=dict(quick=600, thorough=900))

DAYS = ['2020-02-28', '2020-03-01', '2020-03-02']
RANGES = [('2020-02-28', '2020-03-02'), ('2020-03-01', '2020-03-01'), ('2020-02-29', '2020-03-01'), ('2020-03-02', '2020-04-01')]
UP, DOWN = [50.0, 54.0, 58.0], [58.0, 54.0, 50.0]
EAST = [-178.0, -20.0, 20.0, 178.0]          # -180..180
FULL = [20.0, 178.0, 180.25, 340.0]           # 0..360


@contextlib.contextmanager
def store(files):
    """files: name -> xr.Dataset"""
    opened = []

    def one(f, *a, **k):
        opened.append(str(f))
        if str(f) not in files:
            raise FileNotFoundError(str(f))
        return files[str(f)].copy()

    def many(fs, *a, **k):
        ds = [one(f) for f in fs]
        if not ds:
            raise OSError('no files to open')
        d = [x for x in ds[0].dims if x in ('time', 'times')]
        return xr.concat(ds, d[0]) if d else xr.merge(ds)
    with swapped(xr, open_dataset=one, open_mfdataset=many):
        yield opened


def arrof(S, shape, vals):
    a = np.empty(shape, dtype=object if S.symbolic else float)
    for i, x in enumerate(vals):
        a[np.unravel_index(i, shape)] = x
    return a


def lonof(x):
    return x - 360 if x > 180 else x


class Src:
    """grid of symbolic values per day: file data set and the expected points"""

    def __init__(self, S, lat, lon, days, names, lo=-50, hi=50, nan=True, few=False):
        self.S, self.lat, self.lon, self.days, self.names = S, lat, lon, days, names
        self.v = {}
        self.few = few
        for n in names:
            for d in range(len(days) or 1):
                for i in range(len(lat)):
                    for j in range(len(lon)):
                        k = f'{n}{d}{i}{j}'
                        if few and (i, j) not in ((0, 1), (1, 0)):
                            self.v[n, d, i, j] = float('nan') if (d, i, j) == (0, 1, 3) else float(lo + (d * 7 + i * 4 + j * 3 + len(n) + ord(n[0])) % (hi - lo))
                            continue
                        self.v[n, d, i, j] = S.val(k, nan=True, lo=lo, hi=hi) if nan and (d, i, j) == (0, 1, 1) else S.real(k, lo, hi)

    def var(self, n, d=None):
        shape = (len(self.lat), len(self.lon))
        if d is not None or not self.days:
            return arrof(self.S, shape, [self.v[n, d or 0, i, j] for i in range(shape[0]) for j in range(shape[1])])
        return arrof(self.S, (len(self.days),) + shape, [self.v[n, k, i, j] for k in range(len(self.days)) for i in range(shape[0]) for j in range(shape[1])])

    def points(self):
        """(lat, long, day, {name: value})"""
        out = []
        for d in range(len(self.days) or 1):
            for i, y in enumerate(self.lat):
                for j, x in enumerate(self.lon):
                    out.append((y, lonof(x), self.days[d] if self.days else None, {n: self.v[n, d, i, j] for n in self.names}))
        return out


def times(ds):
    return np.array(ds, dtype='datetime64[ns]')


def region(S, axis, lons):
    if axis == 'lat':
        y0, y1 = S.real('y0', 40, 70), S.real('y1', 40, 70)
        S.assume(y0 < y1)
        return y0, y1, -30.0, 30.0
    x0 = S.real('x0', -180, 180)
    x1 = S.real('x1', -180, 180) if axis == 'both' else S.choice('x1', [25.0, -170.0])
    S.assume(S.And(S.Or(x0 < x1, x0 > x1), x0 < 180))
    return 49.0, 55.0, x0, x1


def within(S, r, y, x):
    y0, y1, x0, x1 = r
    return S.And(y > y0, y <= y1, S.Or(S.And(x0 < x1, x > x0, x <= x1), S.And(x0 > x1, S.Or(x > x0, x <= x1))))


def got_points(l):
    d = l.data
    if isinstance(d, xr.Dataset):
        d = d.to_dataframe().reset_index()
    return d


def same(S, a, b):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return S.eq(a, b)


def verify(S, l, pts, names, r, days, opt=()):
    """pts: expected points of the whole source; opt: days that may or may not be there"""
    S.check(str(l.data_name) == ','.join(names), 'the data have their standard name')
    g = got_points(l)
    S.check('lat' in g.columns and 'long' in g.columns and all(n in g.columns for n in names), 'the data have the standard columns')
    if not ('lat' in g.columns and 'long' in g.columns and all(n in g.columns for n in names)):
        return
    has_t = any(p[2] is not None for p in pts)
    if has_t:
        S.check('time' in g.columns or not len(g), 'the data have their dates')
        if 'time' not in g.columns and len(g):
            return
    got = {}
    for rec in g.to_dict('records'):
        k = (float(rec['lat']), float(rec['long']), str(pd.Timestamp(rec['time']).date()) if has_t else None)
        S.check(k not in got, 'no datapoint is repeated')
        got[k] = {n: rec[n] for n in names}
    want = {}
    for y, x, d, v in pts:
        if days is not None and d is not None and not days[0] <= d <= days[1]:
            continue
        if within(S, r, y, x):
            want[y, x, d] = v
    full = len({k[0] for k in want}) > 1 and len({k[1] for k in want}) > 1
    for k, v in want.items():
        if k[2] in opt and k not in got:
            continue
        gone = all(isnan(x) for x in v.values())
        S.check(k in got or gone, 'every datapoint of the region is there')
        if k in got:
            for n in names:
                S.check(same(S, got[k][n], v[n]), 'a datapoint has the value of the file at its place and date')
    for k, v in got.items():
        if k not in want:
            S.check(not full or all(isnan(x) for x in v.values()), 'there are no other datapoints')
    S.reach('some' if want else 'none')


def build(S, name, files, r, days, **params):
    b = Boundary([r[0], r[1]], [r[2], r[3]], list(days))
    with store(files) as opened:
        l, e = S.call(DataLoaderFactory.get_dataloader, name, b, {'files': list(files), **params})
    return l, e, opened


def run(S, name, files, pts, names, axis, days, **params):
    r = region(S, axis, None)
    l, e, _ = build(S, name, files, r, days, **params)
    S.check(e is None, 'the source can be loaded')
    if e is None:
        verify(S, l, pts, names, r, days)


def rangeof(S, axis='lat'):
    return RANGES[S.cint('range', 0, len(RANGES) - 1 if axis == 'lat' else 1)]


def ones(S, names, src, dims, latn, lonn, timen='time', perfile=False, prefix='some_data_', extra=None, over=None):
    """files of a source: one per day or one for all"""
    def mk(d):
        vs = {}
        for n in names:
            a = src.var(n, d)
            if d is not None and src.days:
                a = a.reshape((1,) + a.shape)
            vs[n] = ([timen] * bool(src.days) + [latn, lonn], a)
        co = {latn: np.array(src.lat), lonn: np.array(src.lon)}
        if src.days:
            co[timen] = times(src.days if d is None else [src.days[d]])
        ds = xr.Dataset(vs, coords=co)
        return extra(ds) if extra else ds
    if perfile:
        return {f'/x/{prefix}{src.days[d]}.nc': mk(d) for d in range(len(src.days))}
    return {'/x/a.nc': mk(None)}


def gebco(S, axis='lat', two=False):
    s = Src(S, UP, EAST, [], ['elevation'], nan=axis == 'lat')
    files = ones(S, ['elevation'], s, None, 'lat', 'lon')
    if two:                              # one file per pair of columns
        ds = files['/x/a.nc']
        files = {'/x/a.nc': ds.isel(lon=slice(0, 2)), '/x/b.nc': ds.isel(lon=slice(2, 4))}
    run(S, 'gebco', files, s.points(), ['elevation'], axis, DAYS[::2])


def bsose_depth(S, axis='lat'):
    s = Src(S, UP, FULL, [], ['elevation'], nan=axis == 'lat')
    ds = xr.Dataset({'other': (['YC', 'XC'], np.zeros((3, 4)))}, coords={'YC': np.array(UP), 'XC': np.array(FULL), 'Depth': (['YC', 'XC'], s.var('elevation'))})
    pts = [(y, x, d, {k: (v if isnan(v) else -v) for k, v in vs.items()}) for y, x, d, vs in s.points()]
    run(S, 'bsose_depth', {'/x/a.nc': ds}, pts, ['elevation'], axis, DAYS[::2])


def bsose_sic(S, axis='lat'):
    s = Src(S, UP, FULL, DAYS, ['SIC'], -1, 2, nan=axis == 'lat')
    files = ones(S, ['SIC'], s, None, 'YC', 'XC', extra=lambda d: d.rename({'SIC': 'SIarea'}))
    u = S.choice('units', [None, 'percentage', 'fraction', 'other', 'percent', 'fractional', 'PERCENTAGE', ''])
    f = 1 if u == 'fraction' else 100
    pts = [(y, x, d, {k: (v if isnan(v) else v * f) for k, v in vs.items()}) for y, x, d, vs in s.points()]
    days = rangeof(S, axis)
    r = region(S, axis, None)
    l, e, _ = build(S, 'bsose_sic', files, r, days, **({'units': u} if u is not None else {}))
    if u not in (None, 'percentage', 'fraction'):
        S.check(isinstance(e, ValueError), 'unknown units are refused')
        return
    S.check(e is None, 'the source can be loaded')
    if e is None:
        verify(S, l, pts, ['SIC'], r, days)


def baltic_sic(S, axis='lat', per=False, rows=3):
    s = Src(S, DOWN[:rows], EAST, DAYS, ['SIC'], 0, 100, nan=axis == 'lat')
    files = ones(S, ['SIC'], s, None, 'lat', 'lon', perfile=per, extra=lambda d: d.rename({'SIC': 'ice_concentration'}).assign(ice_thickness=(['lat', 'lon'], np.ones((rows, 4)))))
    run(S, 'baltic_sic', files, s.points(), ['SIC'], axis, rangeof(S, axis))


ERA = {'era5_sig_wave_height': 'swh', 'era5_max_wave_height': 'hmax', 'era5_wave_dir': 'mwd', 'era5_wave_period': 'mwp'}


def era5(S, axis='lat', which='era5_sig_wave_height', lons='full'):
    n = ERA[which]
    s = Src(S, DOWN, FULL if lons == 'full' else EAST, DAYS, [n], nan=axis == 'lat')
    files = ones(S, [n], s, None, 'latitude', 'longitude', perfile=True, extra=lambda d: d.assign(other=(['latitude', 'longitude'], np.ones((3, 4)))))
    run(S, which, files, s.points(), [n], axis, rangeof(S, axis))


def fn(S, name, *x):
    if S.symbolic:
        from symx import npf
        return npf.OVERRIDES[name](*x)
    return float(getattr(np, name)(*x))


def era5_wind_mag(S, axis='lat'):
    days = DAYS[:2]
    t = Src(S, DOWN, FULL, days, ['wind_mag'], 0, 9, nan=False, few=True)

    def extra(d):
        return d.assign(u10=d['wind_mag'] * -3, v10=d['wind_mag'] * 4).drop_vars('wind_mag')
    pts = [(y, x, d, {k: v * 5 for k, v in vs.items()}) for y, x, d, vs in t.points()]
    files = ones(S, ['wind_mag'], t, None, 'latitude', 'longitude', perfile=True, extra=extra)
    run(S, 'era5_wind_mag', files, pts, ['wind_mag'], axis, ('2020-02-28', '2020-03-01') if S.flag('both') else ('2020-03-01', '2020-03-01'))


def era5_wind_dir(S, axis='lat'):
    """direction = 180 + angle of (u, v)  mod 360"""
    t = Src(S, DOWN, FULL, DAYS[:2], ['u10', 'v10'], -9, 9, nan=False, few=True)
    days = DAYS[:2] if S.flag('both') else DAYS[1:2] * 2
    files = ones(S, ['u10', 'v10'], t, None, 'latitude', 'longitude', perfile=True)
    pts = []
    for y, x, d, v in t.points():
        a = v['u10'] if isnan(v['u10']) else 180 + (180 / math.pi) * fn(S, 'arctan2', v['v10'], v['u10'])
        pts.append((y, x, d, {'wind_dir': a}))
    r = region(S, axis, None)
    l, e, _ = build(S, 'era5_wind_dir', files, r, days)
    S.check(e is None, 'the source can be loaded')
    if e is not None:
        return
    g = got_points(l)
    exp = {(y, x, d): v['wind_dir'] for y, x, d, v in pts if days[0] <= d <= days[1]}
    S.check('wind_dir' in g.columns and 'time' in g.columns, 'the data have the standard columns')
    if not ('wind_dir' in g.columns and 'time' in g.columns):
        return
    got = set()
    for rec in g.to_dict('records'):
        w, k = rec['wind_dir'], (float(rec['lat']), float(rec['long']), str(pd.Timestamp(rec['time']).date()))
        S.check(k in exp and k not in got, 'a datapoint has its place')
        got.add(k)
        if k in exp and (isnan(w) or isnan(exp[k])):
            S.check(isnan(w) and isnan(exp[k]), 'a missing wind has no direction')
        elif k in exp:
            q = w - exp[k]
            S.check(S.And(w >= 0, w <= 360, S.Or([S.And(q <= 360 * m + 1e-6, q >= 360 * m - 1e-6) for m in (-1, 0, 1)])), 'the direction is that of the wind, in degrees')
    for k in exp:
        if within(S, r, k[0], k[1]):
            S.check(k in got, 'every datapoint of the region is there')
    S.reach('some' if len(g) else 'none')


def ecmwf(S, axis='lat'):
    """forecast files: the latest issue before the start, forecasts within the range"""
    issues = ['20200227120000', '20200228000000', '20200301000000', '20200301120000']
    leads = [0, 24, 48]
    t0 = ['2020-02-27', '2020-02-28', '2020-03-02', '2020-03-05'][S.cint('t0', 0, 3)]
    t1 = ['2020-03-01', '2020-03-03', '2020-03-05'][S.cint('t1', 0, 2)]
    if t0 > t1:
        return
    s = Src(S, DOWN, EAST, [f'{i}-{h}' for i in issues for h in leads], ['swh'], 0, 20, nan=axis == 'lat')
    files, when = {}, {}
    for k, key in enumerate(s.days):
        i, h = key.split('-')
        a = s.var('swh', k)
        files[f'/x/{i}-{h}h-wave-fc.grib2'] = xr.Dataset({'swh': (['latitude', 'longitude'], a), 'mwp': (['latitude', 'longitude'], np.ones((3, 4)))},
                                                          coords={'latitude': np.array(DOWN), 'longitude': np.array(EAST), 'step': h, 'meanSea': 0.0})
        when[key] = pd.Timestamp(i[:8]) + pd.Timedelta(hours=int(i[8:10]) + int(h))
    before = [i for i in issues if pd.Timestamp(i[:8]) + pd.Timedelta(hours=int(i[8:10])) < pd.Timestamp(t0)]
    r = region(S, axis, None)
    if not before:
        with store(files):
            l, e = S.call(DataLoaderFactory.get_dataloader, 'ecmwf_sig_wave_height', Boundary([r[0], r[1]], [r[2], r[3]], [t0, t1]), {'files': list(files)})
        S.check(isinstance(e, FileNotFoundError), 'without a forecast before the start the source is refused')
        S.reach('refused')
        return
    use = [k for k in s.days if k.startswith(max(before)) and pd.Timestamp(t0) <= when[k] <= pd.Timestamp(t1)]
    l, e, _ = build(S, 'ecmwf_sig_wave_height', files, r, (t0, t1))
    if not use:
        S.check(isinstance(e, FileNotFoundError), 'without a forecast in the range the source is refused')
        S.reach('refused')
        return
    S.check(e is None, 'the source can be loaded')
    if e is None:
        verify(S, l, [(y, x, str(when[d].date()), v) for y, x, d, v in s.points() if d in use], ['swh'], r, None)
        S.check(sorted(l.files) == sorted(f'/x/{k}h-wave-fc.grib2' for k in use), 'the files used are remembered')


def icenet(S, axis='lat'):
    """daily forecasts of the latest file before the start"""
    lat2 = np.array([[50.0, 50.0], [58.0, 58.0]])
    lon2 = np.array([[-20.0, 20.0], [-20.0, 20.0]])
    fd = {'b': '2020-02-27', 'c': '2020-03-02', 'a': '2020-02-25'}
    leads = [1, 2, 3, 4, 5, 6]
    t0, n = ['2020-02-28', '2020-02-29', '2020-03-04', '2020-02-27'][S.cint('t0', 0, 3)], S.cint('n', 1, 2)
    t1 = str((pd.Timestamp(t0) + pd.Timedelta(days=n)).date())
    files, vals = {}, {}
    for k, d in fd.items():
        a = np.empty((1, 2, 2, 6), dtype=object if S.symbolic else float)
        for idx in np.ndindex(a.shape):
            a[idx] = vals[(k,) + idx[1:]] = S.real(f'{k}{idx[1]}{idx[2]}{idx[3]}', -1, 2)
        files[f'/x/{dict(a="z", b="v1.2", c="c")[k]}/south_daily_forecast.{d}.nc'] = xr.Dataset(
            {'sic_mean': (['time', 'yc', 'xc', 'leadtime'], a), 'sic_stddev': (['time', 'yc', 'xc', 'leadtime'], np.zeros(a.shape)), 'ensemble_members': ([], 3), 'Lambert_Azimuthal_Grid': ([], 0)},
            coords={'time': times([d]), 'leadtime': leads, 'yc': [1.0, 2.0], 'xc': [1.0, 2.0], 'lat': (['yc', 'xc'], lat2), 'lon': (['yc', 'xc'], lon2),
                    'forecast_date': (['time', 'leadtime'], np.zeros((1, 6)))})
    r = region(S, axis, None)
    use = max((k for k in fd if fd[k] < t0), key=lambda k: fd[k])
    pts = []
    for i in range(2):
        for j in range(2):
            for q, ld in enumerate(leads):
                pts.append((lat2[i][j], lon2[i][j], str((pd.Timestamp(fd[use]) + pd.Timedelta(days=ld)).date()), {'SIC': vals[use, i, j, q] * 100}))
    l, e, _ = build(S, 'icenet', files, r, (t0, t1))
    S.check(e is None, 'the source can be loaded')
    if e is None:
        verify(S, l, pts, ['SIC'], r, (t0, t1), opt=(t1,))


def modis(S, axis='lat'):
    s = Src(S, UP, EAST, [], ['SIC'], 0, 100, nan=axis == 'lat')
    c = [[S.cint('cloud0', 0, 1), 0, 0, 0], [0, 0, S.cint('cloud1', 0, 1), 0], [0, 0, 1, 0]]
    ds = xr.Dataset({'iceArea': (['lat', 'long'], s.var('SIC')), 'cloud': (['lat', 'long'], np.array(c))}, coords={'lat': np.array(UP), 'long': np.array(EAST)})
    pts = []
    for (y, x, d, v), k in zip(s.points(), [q for row in c for q in row]):
        pts.append((y, x, d, {'SIC': float('nan') if k else v['SIC']}))
    run(S, 'modis', {'/x/a.nc': ds}, pts, ['SIC'], axis, DAYS[::2])


def baltic_currents(S, axis='lat', per=False):
    s = Src(S, UP, EAST, DAYS, ['uC', 'vC'], nan=axis == 'lat')
    days = rangeof(S, axis)

    def extra(d):
        for n, m in (('uC', 'uo'), ('vC', 'vo')):
            a = d[n].values
            deep = np.stack([a, np.full(a.shape, 99.0, dtype=a.dtype)], axis=1)
            d[m] = (['time', 'depth', 'latitude', 'longitude'], deep)
        return d.drop_vars(['uC', 'vC']).assign_coords(depth=[0.5, 10.0])
    files = ones(S, ['uC', 'vC'], s, None, 'latitude', 'longitude', perfile=per, extra=extra)
    P = s.points()
    pts = []
    for i, y in enumerate(UP):
        for j, x in enumerate(EAST):
            v = {}
            for n in ('uC', 'vC'):
                use = [s.v[n, d, i, j] for d in range(3) if days[0] <= DAYS[d] <= days[1] and not isnan(s.v[n, d, i, j])]
                v[n] = sum(use) / len(use) if use else math.nan
            pts.append((y, x, None, v))
    run(S, 'baltic_currents', files, pts, ['uC', 'vC'], axis, days)


def duacs(S, axis='lat', crs=True):
    s = Src(S, UP, EAST, DAYS, ['uC', 'vC'], nan=axis == 'lat')

    def extra(d):
        d = d.rename({'uC': 'ugos', 'vC': 'vgos'})
        return d.assign(crs=([], 1)) if crs else d
    files = ones(S, ['uC', 'vC'], s, None, 'latitude', 'longitude', perfile=True, extra=extra)
    run(S, 'duacs_currents', files, s.points(), ['uC', 'vC'], axis, rangeof(S, axis))


def era5_wind(S, axis='lat'):
    s = Src(S, DOWN, EAST, DAYS, ['u10', 'v10'], nan=axis == 'lat')
    files = ones(S, ['u10', 'v10'], s, None, 'latitude', 'longitude', perfile=True)
    run(S, 'era5_wind', files, s.points(), ['u10', 'v10'], axis, rangeof(S, axis))


def era5_wave_direction(S, axis='lat'):
    """unit vector the waves go to, from the direction they come from"""
    s = Src(S, DOWN, FULL, DAYS, ['mwd'], 0, 360, nan=False, few=True)
    files = ones(S, ['mwd'], s, None, 'latitude', 'longitude', perfile=True)
    pts = []
    for y, x, d, v in s.points():
        if isnan(v['mwd']):
            pts.append((y, x, d, {'uW': v['mwd'], 'vW': v['mwd']}))
            continue
        a = fn(S, 'radians', v['mwd'])
        pts.append((y, x, d, {'uW': -fn(S, 'sin', a), 'vW': -fn(S, 'cos', a)}))
    run(S, 'era5_wave_direction', files, pts, ['uW', 'vW'], axis, rangeof(S, axis))


def northsea(S, axis='lat', per=False):
    s = Src(S, UP, EAST, DAYS, ['uC', 'vC'], nan=axis == 'lat')
    files = ones(S, ['uC', 'vC'], s, None, 'lat', 'lon', timen='times', perfile=per, extra=lambda d: d.rename({'uC': 'U', 'vC': 'V'}).assign(H=(['lat', 'lon'], np.ones((3, 4)))))
    run(S, 'northsea_currents', files, s.points(), ['uC', 'vC'], axis, rangeof(S, axis))


def oras5(S, axis='lat'):
    s = Src(S, UP, EAST, [], ['uC', 'vC'], nan=axis == 'lat')
    files = ones(S, ['uC', 'vC'], s, None, 'nav_lat', 'nav_lon', extra=lambda d: d.rename({'uC': 'uo', 'vC': 'vo'}).assign(other=(['nav_lat', 'nav_lon'], np.ones((3, 4)))))
    run(S, 'oras5_currents', files, s.points(), ['uC', 'vC'], axis, DAYS[::2])


def sose(S, axis='lat'):
    s = Src(S, UP, FULL, [], ['uC', 'vC'], nan=axis == 'lat')
    files = ones(S, ['uC', 'vC'], s, None, 'lat', 'lon', extra=lambda d: d.assign(other=(['lat', 'lon'], np.ones((3, 4)))))
    run(S, 'sose', files, s.points(), ['uC', 'vC'], axis, DAYS[::2])


def jobs(tier):
    J = []

    def add(fn, name, reach=('some', 'none'), wit=6, **c):
        for ax in ('lat', 'lon') if tier == 'quick' else ('lat', 'both'):
            J.append(job(__name__, fn, f'{name}-{ax}', cfg=dict(axis=ax, **c), reach=[x for x in reach if x != 'none' or ax != 'lon'], wit_every=wit))
    add('gebco', 'gebco')
    add('gebco', 'gebco-two', two=True)
    add('bsose_depth', 'bsose-depth')
    add('bsose_sic', 'bsose-sic')
    add('baltic_sic', 'baltic-sic')
    add('baltic_sic', 'baltic-sic-two', per=True)
    add('baltic_sic', 'baltic-sic-rows', rows=2)
    for w in ERA:
        add('era5', w, which=w)
    add('era5', 'era5-east', which='era5_wave_dir', lons='east')
    add('era5_wind_mag', 'wind-mag')
    add('era5_wind_dir', 'wind-dir')
    add('ecmwf', 'ecmwf', reach=('some', 'none', 'refused'))
    add('icenet', 'icenet')
    add('modis', 'modis')
    add('baltic_currents', 'baltic-cur')
    add('baltic_currents', 'baltic-cur-two', per=True)
    add('duacs', 'duacs')
    add('duacs', 'duacs-nocrs', crs=False)
    add('era5_wind', 'era5-wind')
    add('era5_wave_direction', 'wave-dir')
    add('northsea', 'northsea')
    add('northsea', 'northsea-two', per=True)
    add('oras5', 'oras5')
    add('sose', 'sose')
    return J
