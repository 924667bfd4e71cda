"""C26 built-in and file look-up tables"""
import contextlib
from .common import *
from .data import *
from .c21 import table_of
from meshiphi.dataloaders.lut import density as dmod, thickness as tmod, lut_csv as cmod, lut_geojson as gmod, lut_shapefile as smod, scotland_ncmpa as nmod
from meshiphi.dataloaders.factory import DataLoaderFactory

PROPERTY = dict(
    bounds='density and thickness: a cell with any real limits inside a region (or equal to it), in every month of a year and over ranges of days across a change of season; south, north, across the equator, across each '
           'boundary between the thickness regions, around the Baltic and across the antimeridian. Tables from files: one or two rectangular polygons (any real interval in one direction), any real or boolean value, any cell; 64 strips (or a multi-polygon of them) in one or 21 files, with one edge and value any real',
    outside='polygons that are not axis-aligned rectangles; the file formats themselves (in-memory tables are read)',
    stubs=[DATA_STUB, NP_STUB, GEOM_STUB, 'pandas.read_csv and geopandas.read_file return in-memory tables'], budget=dict(quick=600, thorough=1200))

NAN = float('nan')
SOUTH = {12: 'su', 1: 'su', 2: 'su', 3: 'au', 4: 'au', 5: 'au', 6: 'wi', 7: 'wi', 8: 'wi', 9: 'sp', 10: 'sp', 11: 'sp'}
NORTH = {12: 'wi', 1: 'wi', 2: 'wi', 3: 'sp', 4: 'sp', 5: 'sp', 6: 'su', 7: 'su', 8: 'su', 9: 'au', 10: 'au', 11: 'au'}
DENSITY = {'su': 875.0, 'sp': 900.0, 'au': 900.0, 'wi': 920.0}
ROSS = {'wi': 0.72, 'sp': 0.67, 'su': 1.32, 'au': 0.82}
SECTORS = [(-180, -130, ROSS),
           (-130, -60, {'wi': 0.65, 'sp': 0.79, 'su': 2.14, 'au': 0.79}),
           (-60, -45, {'wi': 1.33, 'sp': 1.33, 'su': 1.20, 'au': 1.38}),
           (-45, 20, {'wi': 0.54, 'sp': 0.89, 'su': 0.87, 'au': 0.44}),
           (20, 90, {'wi': 0.59, 'sp': 0.78, 'su': 1.05, 'au': 0.45}),
           (90, 160, {'wi': 0.72, 'sp': 0.68, 'su': 1.17, 'au': 0.75}),
           (160, 180, ROSS)]
BALTIC = (54, 66, 12, 32)
RANGES = [('2020-02-28', '2020-03-02'), ('2019-11-29', '2019-12-01'), ('2020-05-31', '2020-06-01'), ('2021-08-30', '2021-09-02')]


def days(a, b):
    return list(pd.date_range(a, b).month)


def overlap(a0, a1, b0, b1):
    """length of the overlap of two intervals (by case distinction)"""
    lo = a0 if a0 > b0 else b0
    hi = a1 if a1 < b1 else b1
    return hi - lo if lo < hi else 0


def parts(kind, lat0, lat1, lon0, lon1, month):
    """[(area, value)] of a cell not crossing the antimeridian"""
    n, s = overlap(lat0, lat1, 0, 90), overlap(lat0, lat1, -90, 0)
    w = lon1 - lon0
    if kind == 'density':
        return [(n * w, DENSITY[NORTH[month]]), (s * w, DENSITY[SOUTH[month]])]
    out = []
    if not (isinstance(s, int) and s == 0):
        for a, b, v in SECTORS:
            out.append((s * overlap(lon0, lon1, a, b), v[SOUTH[month]]))
    if not (isinstance(n, int) and n == 0):
        bal = overlap(lat0, lat1, BALTIC[0], BALTIC[1]) * overlap(lon0, lon1, BALTIC[2], BALTIC[3])
        out.append((bal, 0.3))
        out.append((n * w - bal, ROSS[NORTH[month]]))
    return out


def builtin(S, kind='density', region=None, lat=(-90, 90), lon=(10, 20), vary='lat', when='month', crossing=False, params=None):
    """a cell varying in one direction (lat, lon) inside region (None: the cell is the region)"""
    if when != 'range':
        m = S.cint('month', 1, 12) if when == 'month' else S.choice('month', [2, 5, 7, 10])
        t0 = t1 = f'2020-{m:02d}-{1 if m % 2 else 28:02d}'
    else:
        t0, t1 = S.choice('range', RANGES)
    a, b = S.real('lo', *(lat if vary == 'lat' else lon)), S.real('hi', *(lat if vary == 'lat' else lon))
    S.assume(b - a >= 1)
    lats, lons = ([a, b], list(lon)) if vary == 'lat' else (list(lat), [a, b])
    cell = Boundary(lats, lons, [t0, t1])
    bounds = cell if region is None else Boundary(region[0], region[1], [t0, t1])
    l, e = S.call(DataLoaderFactory.get_dataloader, kind, bounds, dict(params or {}), 1)
    S.check(e is None, 'the table is available for every region and date')
    if e is not None:
        return
    name = (params or {}).get('data_name', kind)
    got, e = S.call(l.get_value, cell)
    S.check(e is None and list(got) == [name], 'the table gives a value under its name')
    if e is not None or list(got) != [name]:
        return
    g = got[name]
    if isnan(g):
        S.check(False, 'every cell has a value')
        return
    boxes = [(lons[0], lons[1])] if not crossing else [(lons[0], 180), (-180, lons[1])]
    W = T = 0
    for m in days(t0, t1):
        for x0, x1 in boxes:
            for w, v in parts(kind, lats[0], lats[1], x0, x1, m):
                W, T = W + w, T + w * v
    S.observe('v', g)
    if S.symbolic:
        d = g * W - T
        S.check(S.And(d <= W * 1e-6, d >= W * -1e-6), 'the value is the seasonal value, averaged over area and days')
    else:
        S.check(abs(g - T / W) < 1e-6, 'the value is the seasonal value, averaged over area and days')
    S.reach('val')


@contextlib.contextmanager
def files(S, mod, tabs):
    """tabs: {file: (geometries, values or None)} read instead of real files"""
    if mod is cmod:
        with csv_files(S, tabs):
            yield
        return
    import geopandas
    new = dict(read_file=lambda f, *a, **k: tabs[f].copy())
    if S.symbolic:
        new['GeoDataFrame'] = lambda d, *a, **k: pd.DataFrame(d)
    with swapped(geopandas, **new):
        yield


LOADERS = {'lut_csv': cmod, 'lut_geojson': gmod, 'lut_shapefile': smod, 'scotland_ncmpa': nmod}
REG = [[-20, 30], [-20, 30]]


def rows(S, kind, geoms, vals, order, extra):
    """in-memory file content"""
    if kind == 'lut_csv':
        d = {'geometry': [str(g.wkt) for g in geoms], 'zone': pd.Series(vals, dtype=object if S.symbolic else None)}
        return pd.DataFrame({k: d[k] for k in (['geometry', 'zone'] if order else ['zone', 'geometry'])})
    d = {'geometry': pd.Series(geoms, dtype=object)}
    if extra:
        d = {'label': ['x'] * len(geoms), **d}
    if S.symbolic:
        return pd.DataFrame(d)
    import geopandas
    return geopandas.GeoDataFrame(d)


def fromfile(S, kind='lut_csv', n=1, nfiles=1, value='real', named=True, order=True, agg=None, extra=False, axis='x', lower=True):
    """n polygons from files, a cell [0, 10]^2 of the region"""
    ps, ab = [], []
    for i in range(n):
        a, b = S.real(f'p{i}.lo', -15, 25), S.real(f'p{i}.hi', -15, 25)
        S.assume(b - a >= 1)
        if i:
            S.assume(S.Or(a >= ab[0][1], b <= ab[0][0]))
        ab.append((a, b))
        ps.append(rectg(S, a, -5, b, 15) if axis == 'x' else rectg(S, -5, a, 15, b))
    if value == 'real':
        if kind == 'lut_csv':
            vals = [S.real(f'v{i}', -50, 50) for i in range(n)]
        else:
            vals = [S.real('v', -50, 50)] * n
    else:
        vals = [value] * n
    tabs = {}
    for f in range(nfiles):
        sel = [i for i in range(n) if i % nfiles == f]
        tabs[f'f{f}'] = rows(S, kind, [ps[i] for i in sel], [vals[i] for i in sel], order, extra)
    params = {'files': list(tabs)}
    if kind in ('lut_geojson', 'lut_shapefile'):
        params['value'] = vals[0]
    if named:
        params['data_name'] = name = 'area'
    else:
        name = {'lut_csv': 'zone', 'scotland_ncmpa': 'exclusion_zone'}.get(kind, 'dummy_data')
    if agg:
        params['aggregate_type'] = agg
    t = ['2020-03-01', '2020-03-31']
    with files(S, LOADERS[kind], tabs):
        l, e = S.call(DataLoaderFactory.get_dataloader, kind if lower else kind.upper(), Boundary(*REG, t), params, 1)
    S.check(e is None, 'the table is read')
    if e is not None:
        return
    got, e = S.call(l.get_value, Boundary([0, 10], [0, 10], t))
    S.check(e is None and list(got) == [name], 'the value is given under the name of the data')
    if e is not None or list(got) != [name]:
        return
    g = got[name]
    ov = [overlap(a, b, 0, 10) for a, b in ab]
    live = [(w, v) for w, v in zip(ov, vals) if not (isinstance(w, int) and w == 0)]
    rest = 10
    for w, _ in live:
        rest = rest - w
    full = bool(rest == 0)
    flag = kind == 'scotland_ncmpa' or value in (True, False)
    if flag:
        # opposite value outside the polygons: the fraction of the cell inside (or outside) them
        f = 10 - rest
        if value is False and kind != 'scotland_ncmpa':
            f = rest
        S.check(S.eq(g * 10, f), 'a flag averages to the part of the cell it holds on')
        S.reach('flag')
        return
    if not full:
        S.check(isnan(g), 'a cell that the polygons do not fill has no value')
        S.reach('nan')
        return
    S.reach('val')
    if isnan(g):
        S.check(False, 'a cell filled by polygons has their value')
        return
    t = 0
    for w, v in live:
        t = t + w * v
    S.observe('v', g)
    S.check(S.eq(g * 10, t), 'a cell filled by polygons has their value, weighted by area')


def large(S, kind='lut_csv', multi=False):
    """files of 64 polygons, one of them with any value (edge)"""
    e = S.real('edge', 15.5, 16)
    S.assume(S.And(e > 15.5, e < 16))
    xs = [i / 4 for i in range(63)] + [e, 16.0]
    # the last strip leaves out the part beyond the edge
    geoms = [(xs[i], -5, xs[i + 1], 15) for i in range(63)]
    flag = kind != 'lut_csv'
    vals = [float(i % 4) for i in range(63)]
    at = S.choice('at', [0, 31, 62])
    if not flag:
        vals[at] = S.real('v', -9, 9)
        geoms.append((e, -5, 16.0, 15))
        vals.append(2.0)
    n = len(geoms)
    if multi:
        rs = [multig(S, geoms)] if flag else [rectg(S, *g) for g in geoms]
    else:
        rs = [rectg(S, *g) for g in geoms]
    tabs = {}
    nf = S.choice('files', [1, 21])
    nf = 1 if len(rs) == 1 else nf
    for f in range(nf):
        sel = [i for i in range(len(rs)) if i % nf == f]
        tabs[f'f{f}'] = rows(S, kind, [rs[i] for i in sel], [vals[i] for i in sel], True, False)
    params = {'files': list(tabs), 'data_name': 'area'}
    if kind in ('lut_geojson', 'lut_shapefile'):
        params['value'] = True
    t = ['2020-03-01', '2020-03-31']
    with files(S, LOADERS[kind], tabs):
        l, x = S.call(DataLoaderFactory.get_dataloader, kind, Boundary(*REG, t), params, 1)
    S.check(x is None, 'the table is read')
    if x is not None:
        return
    got, x = S.call(l.get_value, Boundary([0, 10], [0, 16], t))
    S.check(x is None and list(got) == ['area'], 'the value is given under the name of the data')
    if x is not None or list(got) != ['area'] or isnan(got['area']):
        S.check(False, 'every cell has a value')
        return
    g = got['area']
    if flag:
        S.check(S.eq(g * 16, e), 'a flag averages to the part of the cell it holds on')
    else:
        T = 0
        for (a, _, b, _), v in zip(geoms, vals):
            T = T + (b - a) * v
        S.check(S.eq(g * 16, T), 'a cell filled by polygons has their value, weighted by area')
    S.reach('val')


def history(S, kind='density'):
    """a table asked for several cells and dates gives the value of each"""
    a = S.real('lo', -60, -30)
    m = S.choice('month', [1, 4, 8, 11])
    t = [f'2020-{m:02d}-05', f'2020-{m:02d}-05']
    region = Boundary([-90, 90], [-40, 120], t)
    l, e = S.call(DataLoaderFactory.get_dataloader, kind, region, {}, 1)
    l2, e2 = S.call(DataLoaderFactory.get_dataloader, kind, Boundary([-90, 90], [-40, 120], [f'2020-{(m + 5) % 12 + 1:02d}-05'] * 2), {}, 1)
    S.check(e is None and e2 is None, 'the table is available for every region and date')
    if e is not None or e2 is not None:
        return
    asks = [(l, m, (a, a + 50), (50, 60)), (l, m, (20, 30), (50, 60)), (l2, (m + 5) % 12 + 1, (a, a + 50), (50, 60)), (l, m, (a, a + 50), (50, 60)), (l, m, (a, a + 5), (-30, -20)), (l2, (m + 5) % 12 + 1, (20, 30), (50, 60))]
    for ld, mm, lats, lons in asks:
        got, e = S.call(ld.get_value, Boundary(list(lats), list(lons), [f'2020-{mm:02d}-05'] * 2))
        S.check(e is None and list(got) == [kind] and not isnan(got[kind]), 'the table gives a value under its name')
        if e is not None or list(got) != [kind] or isnan(got[kind]):
            return
        W = T = 0
        for w, v in parts(kind, lats[0], lats[1], lons[0], lons[1], mm):
            W, T = W + w, T + w * v
        g = got[kind]
        if S.symbolic:
            d = g * W - T
            S.check(S.And(d <= W * 1e-6, d >= W * -1e-6), 'the value is the seasonal value, averaged over area and days')
        else:
            S.check(abs(g - T / W) < 1e-6, 'the value is the seasonal value, averaged over area and days')
        got[kind] = 1e6
    S.reach('val')


def jobs(tier):
    J = []

    def add(fn, name, cfg, reach=('val',), wit=7):
        J.append(dict(mod='harness.c26', fn=fn, name=name, cfg=cfg, wit_every=wit, reach=list(reach)))
    for k in ('density', 'thickness'):
        add('builtin', f'{k}-lat', dict(kind=k))
        add('builtin', f'{k}-in-region', dict(kind=k, lat=(-70, 80), when='season', region=([-70, 80], [-150, 150])))
        add('builtin', f'{k}-south-days', dict(kind=k, lat=(-80, -50), when='range', vary='lon', lon=(-44, 19), region=([-80, -50], [-44, 19])))
        add('builtin', f'{k}-north-days', dict(kind=k, lat=(1, 50), when='range', lon=(40, 50)))
        add('builtin', f'{k}-equator-days', dict(kind=k, lat=(-10, 10), when='range', lon=(40, 50)))
        add('builtin', f'{k}-crossing', dict(kind=k, lat=(-80, -40), lon=(170, -170), when='season', crossing=True))
        add('builtin', f'{k}-crossing-equator', dict(kind=k, lat=(-5, 40), lon=(175, -160), when='season', crossing=True))
    add('builtin', 'density-named', dict(kind='density', lat=(-80, -50), params={'data_name': 'ice'}), wit=20)
    for i, (a, b) in enumerate(zip(SECTORS, SECTORS[1:])):
        add('builtin', f'thickness-sectors-{i}', dict(kind='thickness', lat=(-70, -60), vary='lon', lon=(a[0], b[1]), when='season', region=None if i % 2 else ([-90, -10], [a[0], b[1]])))
    add('builtin', 'thickness-baltic-lon', dict(kind='thickness', lat=(60, 70), vary='lon', when='season', lon=(0, 40)))
    add('builtin', 'thickness-baltic-lat', dict(kind='thickness', lat=(40, 80), vary='lat', when='season', lon=(10, 35), region=([40, 80], [0, 40])))
    add('builtin', 'thickness-named', dict(kind='thickness', lat=(1, 50), lon=(12, 20), params={'data_name': 'ice'}), wit=20)
    for k in LOADERS:
        add('large', f'{k}-large', dict(kind=k))
        if k != 'lut_csv':
            add('large', f'{k}-large-multi', dict(kind=k, multi=True))
    add('history', 'density-history', dict())
    add('history', 'thickness-history', dict(kind='thickness'))
    for order in (True, False):
        for named in (True, False):
            add('fromfile', f'csv-{order}-{named}', dict(kind='lut_csv', order=order, named=named), ('val', 'nan'))
    add('fromfile', 'csv-2', dict(kind='lut_csv', n=2), ('val', 'nan'))
    add('fromfile', 'csv-2-files', dict(kind='lut_csv', n=2, nfiles=2, axis='y', lower=False), ('val', 'nan'))
    for k in ('lut_geojson', 'lut_shapefile'):
        add('fromfile', f'{k}-real', dict(kind=k, extra=True), ('val', 'nan'))
        add('fromfile', f'{k}-unnamed', dict(kind=k, named=False, axis='y', lower=False), ('val', 'nan'))
        add('fromfile', f'{k}-2-files', dict(kind=k, n=2, nfiles=2), ('val', 'nan'))
        add('fromfile', f'{k}-true', dict(kind=k, value=True), ('flag',))
        add('fromfile', f'{k}-false', dict(kind=k, value=False, extra=True), ('flag',))
    add('fromfile', 'ncmpa', dict(kind='scotland_ncmpa', named=False, extra=True), ('flag',))
    add('fromfile', 'ncmpa-2', dict(kind='scotland_ncmpa', n=2, nfiles=2), ('flag',))
    return J
