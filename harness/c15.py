"""C15 every datapoint belongs to exactly the cells that contain it"""
from .common import *
from .data import *

PROPERTY = dict(
    bounds='tables: up to two datapoints at any real position, bounds any real rectangle (crossing the antimeridian or not), times before/at/inside/after the range, row labels unique or repeated; '
           'tables of 180 and grids of 156 given datapoints (missing and equal ones among them) with any one edge of the bounds; grids: 3 x 3 regular grids with bounds any real rectangle; scalar and vector sources; four children of any cell',
    outside='grid coordinates other than the ones listed; datapoints exactly on the +-180 meridian for cells touching it', stubs=[DATA_STUB, NP_STUB])

T0, T1 = '2020-03-01', '2020-03-31'
TIMES = {'before': '2020-02-28', 'first': T0, 'mid': '2020-03-15', 'last': T1, 'after': '2020-04-01'}


def bounds_of(S, crossing, y=(-90, 90), x=(-180, 180)):
    y0, y1 = S.real('lat0', *y), S.real('lat1', *y)
    x0, x1 = S.real('lon0', *x), S.real('lon1', *x)
    S.assume(y0 < y1)
    S.assume(x0 > x1 if crossing else x0 < x1)
    return y0, y1, x0, x1


def inside(S, r, crossing, py, px):
    y0, y1, x0, x1 = r
    lon = S.Or(px > x0, px <= x1) if crossing else S.And(px > x0, px <= x1)
    return S.And(py > y0, py <= y1, lon)


def table(S, cls='s', crossing=False, n=1, time=False, labels=None):
    r = bounds_of(S, crossing)
    b = Boundary([r[0], r[1]], [r[2], r[3]], [T0, T1])
    pts = [(S.real(f'p{i}.lat', -90, 90), S.real(f'p{i}.lon', -180, 180)) for i in range(n)]
    ts = [S.choice(f'p{i}.t', sorted(TIMES)) for i in range(n)] if time else None
    cols = dict(v=[float(i) for i in range(n)]) if cls == 's' else dict(u=[float(i) for i in range(n)], v=[1.0] * n)
    df = frame(S, [p[0] for p in pts], [p[1] for p in pts], [TIMES[t] for t in ts] if time else None, **cols)
    if labels:                      # rows of several tables put together
        df.index = labels
    l = raw(Scal if cls == 's' else Vec, df, 'v' if cls == 's' else 'u,v')
    key = 'v' if cls == 's' else 'u'
    for how, got in (('own', l.trim_datapoints(b)), ('given', l.trim_datapoints(b, data=df))):
        ids = [int(x) for x in got[key]]
        for i, (py, px) in enumerate(pts):
            ok = inside(S, r, crossing, py, px)
            if time:
                ok = S.And(ok, ts[i] not in ('before', 'after'))
            S.check(S.Iff(ok, i in ids), 'a datapoint is selected iff it lies inside (lower edges excluded, upper edges and both dates included)')
        S.check(len(set(ids)) == len(ids) and ids == sorted(ids), 'no datapoint is repeated or reordered')
        S.check(set(got.columns) == set(df.columns), 'columns are kept')
    S.check(len(df) == n, 'the data set itself is not changed')
    S.reach('in' if ids else 'out')


GRID = {'plain': ([-2.0, 0.0, 2.0], [-4.0, 0.0, 4.0]), 'seam': ([0.0, 1.0], [-178.0, -176.0, 0.0, 176.0, 178.0]), 'fine': ([1.0, 1.5], [10.0, 10.25, 10.5])}


def grid(S, cls='s', crossing=False, which='plain', time=False):
    lat, lon = GRID[which]
    ts = ['2020-02-28', T0, T1, '2020-04-01'] if time else None
    r = bounds_of(S, crossing, y=(lat[0] - 2, lat[-1] + 2), x=(max(-180, lon[0] - 2), min(180, lon[-1] + 2)))
    if crossing:
        S.assume(S.And(r[2] > 0, r[3] < 0))
    if time:
        S.assume(S.And(r[0] == -1, r[1] == 1))
    b = Boundary([r[0], r[1]], [r[2], r[3]], [T0, T1])
    n = len(lat) * len(lon) * (len(ts) if ts else 1)
    vals = [float(i) for i in range(n)]
    ds = cube(S, lat, lon, ts, v=vals) if cls == 's' else cube(S, lat, lon, ts, u=vals, v=vals)
    l = raw(Scal if cls == 's' else Vec, ds, 'v' if cls == 's' else 'u,v')
    got = l.trim_datapoints(b)
    key = 'v' if cls == 's' else 'u'
    ids = [int(x) for x in np.asarray(got[key].values).ravel().tolist() if x == x]
    k = 0
    for t in (ts or [T0]):
        for y in lat:
            for x in lon:
                ok = S.And(inside(S, r, crossing, y, x), T0 <= t <= T1)
                S.check(S.Iff(ok, k in ids), 'a grid point is selected iff it lies inside (lower edges excluded, upper edges and both dates included)')
                k += 1
    S.check(len(ids) == len(set(ids)) == got[key].size, 'no grid point is repeated or blanked')
    S.check(ds.sizes['lat'] == len(lat) and ds.sizes['long'] == len(lon), 'the data set itself is not changed')
    S.reach('in' if ids else 'out')


def children(S, kind='df', crossing=False):
    """the data of a cell is divided among its four children, every datapoint to exactly one"""
    from meshiphi.mesh_generation.cellbox import CellBox
    from meshiphi.mesh_generation.metadata import Metadata
    if kind == 'df':
        y0, y1, x0, x1 = r = bounds_of(S, crossing)
        if crossing:
            S.assume(x0 - x1 < 360)
        py, px = S.real('py', -90, 90), S.real('px', -180, 180)
        S.assume(S.And(px > -180, px < 180))
        data = frame(S, [py], [px], v=[1.0])
        n_in = inside(S, r, crossing, py, px)
    else:
        lat, lon = GRID['plain' if not crossing else 'seam']
        y0, y1, x0, x1 = r = bounds_of(S, crossing, y=(lat[0] - 2, lat[-1] + 2), x=(max(-180, lon[0] - 2), min(180, lon[-1] + 2)))
        S.assume(S.And(y0 == -1, y1 == 3))
        if crossing:
            S.assume(S.And(x0 > 170, x1 < -170))
        data = cube(S, lat, lon, v=[float(i) for i in range(len(lat) * len(lon))])
    l = raw(Scal, data, 'v')
    c = CellBox(Boundary([y0, y1], [x0, x1], [T0, T1]), '0')
    own = l.trim_datapoints(c.get_bounds())
    c.set_data_source([Metadata(l, [], 'parent', own)])
    kids = c.split(1)
    got = []
    for k in kids:
        sub = k.get_data_source()[0].get_data_subset()
        got += [float(v) for v in np.asarray(sub['v'].values).ravel().tolist() if v == v]
    have = [float(v) for v in np.asarray(own['v'].values).ravel().tolist() if v == v]
    S.check(sorted(got) == sorted(have), 'every datapoint of a cell goes to exactly one child')
    if kind == 'df':
        S.check(S.Iff(n_in, len(have) == 1), 'a cell holds the datapoints inside it')
    S.reach(str(min(len(have), 1)))


WHEN = [[T0, T1], ['2020-04-01', '2020-04-30'], ['2020-03-15', '2020-03-15'], [T1, '2020-04-01']]


def history(S, cls='s', kind='df'):
    """a loader answers every question by itself, whatever it was asked before"""
    y0, y1, x0, x1 = bounds_of(S, False, (0, 10), (0, 10))
    ts = [T0, T1, '2020-04-15']
    if kind == 'df':
        py = [S.real('py', 0, 10), 5.0, 5.0]
        px = [5.0, S.real('px', 0, 10), 5.0]
        cols = dict(v=[0.0, 1.0, 2.0]) if cls == 's' else dict(u=[0.0, 1.0, 2.0], v=[1.0] * 3)
        data = frame(S, py, px, ts, **cols)
        pts = list(zip(py, px, ts))
    else:
        vals = [float(i) for i in range(12)]
        data = cube(S, [2.0, 6.0], [3.0, 7.0], ts, v=vals) if cls == 's' else cube(S, [2.0, 6.0], [3.0, 7.0], ts, u=vals, v=vals)
        pts = [(y, x, t) for t in ts for y in (2.0, 6.0) for x in (3.0, 7.0)]
    l = raw(Scal if cls == 's' else Vec, data, 'v' if cls == 's' else 'u,v')
    key = 'v' if cls == 's' else 'u'
    other = S.choice('other', [1, 2, 3])
    asked = [((y0, y1, x0, x1), WHEN[0], {}), ((y0, y1, x0, x1), WHEN[other], {}), ((y0, y1, x0, 10), WHEN[0], {}), ((0, y1, x0, x1), WHEN[0], dict(data=data)), ((y0, y1, x0, x1), WHEN[0], dict(data=data))]
    for r, w, kw in asked:
        got = l.trim_datapoints(Boundary([r[0], r[1]], [r[2], r[3]], list(w)), **kw)
        ids = [int(v) for v in np.asarray(got[key].values).ravel().tolist() if v == v]
        for i, (a, b, t) in enumerate(pts):
            S.check(S.Iff(S.And(inside(S, r, False, a, b), w[0] <= t <= w[1]), i in ids), 'every question is answered for its own bounds and dates')
    S.reach('asked')


def crowd(S, cls='s', kind='df'):
    """many datapoints, some missing, some equal in everything, in no order; one edge of the bounds is any real number"""
    nan = float('nan')
    e = S.real('edge', 0, 24)
    side = S.choice('side', ['south', 'north', 'west', 'east'])
    S.assume(S.And(e > 0, e < 24))
    y0, y1, x0, x1 = dict(south=(e, 24.0, 2.0, 20.0), north=(0.0, e, 2.0, 20.0), west=(2.0, 20.0, e, 24.0), east=(2.0, 20.0, 0.0, e))[side]
    b = Boundary([y0, y1], [x0, x1], [T0, T1])
    names = ['v'] if cls == 's' else ['u', 'v']
    if kind == 'df':
        n = 180
        lat = [float(i * 7 % 13 * 2) for i in range(n)]
        lon = [float(i * 5 % 12 * 2 + 1) for i in range(n)]
        vals = [nan if i % 11 == 3 else float(i % 4) for i in range(n)]
        us = [nan if i % 17 == 5 else float(i % 3) for i in range(n)]
        cols = dict(v=vals) if cls == 's' else dict(u=us, v=vals)
        data = frame(S, lat, lon, **cols)
    else:
        la, lo = [float(2 * i) for i in range(13)], [float(2 * i + 1) for i in range(12)]
        vals = [nan if i % 11 == 3 else float(i % 4) for i in range(156)]
        us = [nan if i % 17 == 5 else float(i % 3) for i in range(156)]
        cols = dict(v=vals) if cls == 's' else dict(u=us, v=vals)
        data = cube(S, la, lo, **cols)
        lat, lon = [y for y in la for _ in lo], [x for _ in la for x in lo]
    l = raw(Scal if cls == 's' else Vec, data, ','.join(names))
    got = l.trim_datapoints(b) if S.flag('own') else l.trim_datapoints(b, data=data)
    want = [i for i in range(len(lat)) if inside(S, (y0, y1, x0, x1), False, lat[i], lon[i])]
    for k in names:
        g = [float(x) for x in np.asarray(got[k].values).ravel().tolist()]
        w = [cols[k][i] for i in want]
        S.check(len(g) == len(w) and all(a == c or (a != a and c != c) for a, c in zip(g, w)), 'all the datapoints inside are selected, in order, also equal and missing ones')
    S.reach('in' if want else 'out')


def init(S, cls='s', kind='df'):
    """a freshly constructed loader holds the datapoints inside the region"""
    b = Boundary([0, 10], [0, 10], [T0, T1])
    if kind == 'df':
        py, px = S.real('py', -20, 20), S.real('px', -20, 20)
        S.assume(S.And(px > -20, py > -20))
        lat, lon = [py, 5.0, 3.0], [px, 5.0, 4.0]
        data = frame(S, lat, lon, v=[0.0, 1.0, 2.0]) if cls == 's' else frame(S, lat, lon, v=[0.0, 1.0, 2.0], u=[0.0, 1.0, 2.0])
        want = S.And(py > 0, py <= 10, px > 0, px <= 10)
    else:
        lat, lon = [0.0, 5.0, 10.0, 15.0], [0.0, 5.0, 10.0, 15.0]
        vals = [S.real(f'v{i}', 1, 2) for i in range(16)]
        data = cube(S, lat, lon, v=vals) if cls == 's' else cube(S, lat, lon, v=vals, u=vals)
    params = {'dataloader_name': 'x', 'data_name': 'SIC' if cls == 's' else 'uC,vC'}
    l = (Scal if cls == 's' else Vec)(b, params, data)
    key = 'SIC' if cls == 's' else 'uC'
    if kind == 'df':
        ids = [int(x) for x in l.data[key]]
        S.check(S.Iff(want, 0 in ids), 'the loader keeps exactly the datapoints inside the region')
        S.check(1 in ids and 2 in ids and len(ids) == len(set(ids)), 'the loader keeps the datapoints inside the region')
    else:
        S.check(l.data.lat.values.tolist() == [5.0, 10.0] and l.data.long.values.tolist() == [5.0, 10.0], 'the loader keeps exactly the grid points inside the region')
        got = np.asarray(l.data[key].values).ravel().tolist()
        S.check(len(got) == 4 and bool(S.And([S.eq(g, vals[i]) for g, i in zip(got, (5, 6, 9, 10))])), 'values are kept')


def jobs(tier):
    js = []
    for cls in ('s', 'v'):
        for c in (False, True):
            js.append(job(__name__, 'table', f'table-{cls}-{int(c)}', cfg=dict(cls=cls, crossing=c), reach=['in', 'out']))
            js.append(job(__name__, 'grid', f'grid-{cls}-{int(c)}', cfg=dict(cls=cls, crossing=c, which='seam' if c else 'plain'), reach=['in', 'out'], wit_every=4))
        js.append(job(__name__, 'table', f'table-{cls}-time', cfg=dict(cls=cls, time=True), reach=['in', 'out']))
        js.append(job(__name__, 'grid', f'grid-{cls}-time', cfg=dict(cls=cls, time=True), reach=['in', 'out'], wit_every=4))
        js.append(job(__name__, 'table', f'table-{cls}-labels', cfg=dict(cls=cls, n=2, labels=[4, 4]), reach=['in', 'out'], wit_every=4))
        js.append(job(__name__, 'table', f'table-{cls}-two', cfg=dict(cls=cls, n=2), reach=['in', 'out'], wit_every=4))
        for k in ('df', 'xr'):
            js.append(job(__name__, 'init', f'init-{cls}-{k}', cfg=dict(cls=cls, kind=k)))
    for k in ('df', 'xr'):
        for c in (False, True):
            js.append(job(__name__, 'children', f'children-{k}-{int(c)}', cfg=dict(kind=k, crossing=c), reach=['0', '1'], wit_every=4))
    for cls in ('s', 'v'):
        for k in ('df', 'xr'):
            js.append(job(__name__, 'history', f'history-{cls}-{k}', cfg=dict(cls=cls, kind=k), reach=['asked'], wit_every=8))
    for cls in ('s', 'v'):
        for k in ('df', 'xr'):
            js.append(job(__name__, 'crowd', f'crowd-{cls}-{k}', cfg=dict(cls=cls, kind=k), reach=['in'], wit_every=8))
    if tier == 'thorough':
        for cls in ('s', 'v'):
            js.append(job(__name__, 'grid', f'grid-{cls}-fine', cfg=dict(cls=cls, which='fine'), wit_every=4))
            js.append(job(__name__, 'table', f'table-{cls}-two-time', cfg=dict(cls=cls, n=2, time=True, crossing=True), wit_every=16))
            js.append(job(__name__, 'table', f'table-{cls}-three', cfg=dict(cls=cls, n=3), wit_every=16))
    return js
