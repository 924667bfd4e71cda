"""C28 downsampling and coverage of gridded and tabular sources"""
from .common import *
from .data import *
from .c16 import is_aggregate

PROPERTY = dict(
    bounds='grids of up to 3 x 5 datapoints (also with time), scalar and vector, factors 1..3 in either direction (also leaving partial bins), every value any real or (some of them) missing; MIN, MAX, MEAN, MEDIAN, STD, COUNT configured or given. '
           'Coverage: tables of up to three datapoints at any real positions (of 150 with one any), grids with rows and columns that may be missing, any real region, also crossing the antimeridian; also grids of 20 x 25 with factors 12 and 10, two values any real',
    outside='grids whose data reach across the antimeridian (their extent is taken between the smallest and largest longitude); coverage by datapoints on a single line; tables are not downsampled; reprojection',
    stubs=[DATA_STUB, NP_STUB, GEOM_STUB], budget=dict(quick=600, thorough=1000))

T = ['2020-03-01', '2020-03-02']


def bins(n, f):
    return [list(range(i, min(i + f, n))) for i in range(0, n, f)]


def down(S, agg='MEAN', shape=(2, 4), ds=(2, 2), nan=(), vec=False, time=False, how='config', desc=False, free=None):
    """ds = (longitude factor, latitude factor)"""
    ny, nx = shape
    lat = [10.0 + 2 * i for i in range(ny)]
    lon = [20.0 + 3 * i for i in range(nx)]
    if desc:
        lat = lat[::-1]
    nt = 2 if time else 1
    names = ['u', 'v'] if vec else ['v']
    vals = {}
    for nm in names:
        for t in range(nt):
            for y in range(ny):
                for x in range(nx):
                    k = (y * nx + x)
                    if free is not None and k not in free:
                        vals[nm, t, y, x] = float('nan') if k in nan else float((7 * k + 3 * t) % 16)
                        continue
                    vals[nm, t, y, x] = S.val(f'{nm}{t}_{y}_{x}', nan=(k in nan and t == 0), lo=-50, hi=50)
    cols = {nm: ([[[vals[nm, t, y, x] for x in range(nx)] for y in range(ny)] for t in range(nt)] if time else [[vals[nm, 0, y, x] for x in range(nx)] for y in range(ny)]) for nm in names}
    data = cube(S, lat, lon, T if time else None, **cols)
    b = Boundary([0, 80], [0, 100], ['2020-02-01', '2020-04-01'])
    if how == 'call':
        l = raw(Vec if vec else Scal, data, ','.join(names), downsample_factors=list(ds), aggregate_type='MAX' if agg != 'MAX' else 'MIN')
        d, e = S.call(l.downsample, agg)
    elif how == 'own':
        l = raw(Vec if vec else Scal, data, ','.join(names), downsample_factors=tuple(ds), aggregate_type=agg)
        d, e = S.call(l.downsample)
    else:
        l, e = S.call(Vec if vec else Scal, b, {'dataloader_name': 'x', 'downsample_factors': list(ds), 'aggregate_type': agg}, data)
        d = l.data if e is None else None
    S.check(e is None, 'gridded data can be downsampled')
    if e is not None:
        return
    by, bx = bins(ny, ds[1]), bins(nx, ds[0])
    S.check((d.sizes['lat'], d.sizes['long']) == (len(by), len(bx)) and (not time or d.sizes['time'] == nt), 'the grid shrinks by the factors, longitude first')
    if (d.sizes['lat'], d.sizes['long']) != (len(by), len(bx)):
        return
    S.check(set(names) <= set(d.keys()), 'the data variables stay')
    # positions: centre of the bin (first datapoint when counting)
    cen = (lambda xs, c: xs[c[0]]) if agg == 'COUNT' else (lambda xs, c: sum(xs[i] for i in c) / len(c))
    glat, glon = [float(v) for v in d.lat.values], [float(v) for v in d.long.values]
    S.check(all(abs(g - cen(lat, c)) < 1e-9 for g, c in zip(glat, by)) and all(abs(g - cen(lon, c)) < 1e-9 for g, c in zip(glon, bx)), 'every bin lies at the mean position of its datapoints')
    for nm in names:
        A = d[nm].transpose(*(['time'] if time else []), 'lat', 'long').values
        for t in range(nt):
            for i, cy in enumerate(by):
                for j, cx in enumerate(bx):
                    g = A[t, i, j] if time else A[i, j]
                    vs = [vals[nm, t, y, x] for y in cy for x in cx]
                    if agg == 'COUNT':
                        S.check(S.eq(g, vs[0]), 'the first datapoint of every bin is kept')
                    else:
                        S.check(is_aggregate(S, g, vs, agg, 0), f'every bin holds the {agg} of its datapoints')
    S.reach('ok')


def keep(S, kind='frame', vec=False):
    """tables, and grids with factors [1, 1], stay as they are"""
    names = ['u', 'v'] if vec else ['v']
    vs = {n: [S.val(f'{n}{i}', nan=i == 0, lo=-50, hi=50) for i in range(3)] for n in names}
    if kind == 'frame':
        data = frame(S, [1.0, 2.0, 3.0], [4.0, 4.0, 6.0], **vs)
        f = [S.cint('fx', 1, 3), S.cint('fy', 1, 3)]
    else:
        data = cube(S, [1.0], [4.0, 5.0, 6.0], **{n: [v] for n, v in vs.items()})
        f = S.choice('f', [[1, 1], (1, 1)])
    l = raw(Vec if vec else Scal, data, ','.join(names), downsample_factors=f, aggregate_type=S.choice('agg', ['MEAN', 'COUNT', 'MAX']))
    d, e = S.call(l.downsample)
    S.check(e is None, 'downsampling does not fail')
    if e is not None:
        return
    for n in names:
        got = list(d[n].values.reshape(-1))
        S.check(len(got) == 3 and S.And([S.eq(g, v) for g, v in zip(got, vs[n])]), 'the data stay as they are')
    S.reach('ok')


def overlap(a0, a1, b0, b1):
    lo = a0 if a0 > b0 else b0
    hi = a1 if a1 < b1 else b1
    return hi - lo if lo < hi else 0


def extent(S, xs):
    lo = hi = xs[0]
    for x in xs[1:]:
        if x < lo:
            lo = x
        if x > hi:
            hi = x
    return lo, hi


def cover(S, kind='frame', n=2, vary='lat', vec=False, crossing=False, given=False, isolated=False):
    names = ['u', 'v'] if vec else ['v']
    if crossing:
        lons, width = [170, -170], 20
    else:
        lons, width = [0, 20], 20
    lats = [0, 20]
    if kind == 'frame':
        # any positions in one direction
        ps = [S.real(f'p{i}', -60, 80) for i in range(n)]
        live = [i for i in range(n) if not S.flag(f'gone{i}')]
        cols = {nm: [float('nan') if (i not in live and nm == names[-1]) else 1.0 for i in range(n)] for nm in names}
        lo, hi = (-30.0, 10.0)
        oth = [lo if i % 2 == 0 else hi for i in range(n)]
        if not crossing and vary == 'lat':
            la, lo_ = ps, oth
        elif vary == 'long':
            la, lo_ = oth, ps
        else:
            la, lo_ = ps, [-180.0 if i % 2 == 0 else -175.0 for i in range(n)]
        data = frame(S, la, lo_, **cols)
        la, lo_ = [la[i] for i in live], [lo_[i] for i in live]
    else:
        glat = [float(x) for x in (-10, 5, 15, 30)][:n]
        glon = [float(x) for x in ((-10, 4, 16, 28) if not crossing else (-180, -176, -172, -160))][:n]
        gy, gx = S.choice('ry', [None, 0, n - 1]), S.choice('rx', [None, 0, n - 1])
        hole = S.choice('hole', [None, 0, 1, 2]) if isolated else None
        hole = None if hole is None else [(n // 2, 0), (0, n // 2), (n // 2, n // 2)][hole]
        cols = {nm: [[float('nan') if (y == gy or x == gx or (y, x) == hole) else S.real(f'{nm}{y}{x}', -5, 5) for x in range(n)] for y in range(n)] for nm in names}
        data = cube(S, glat, glon, **cols)
        la, lo_ = [glat[i] for i in range(n) if i != gy], [glon[i] for i in range(n) if i != gx]
        a, b = S.real('a', -40, 40), S.real('b', -40, 40)
        S.assume(b - a >= 1)
        if vary == 'lat':
            lats = [a, b]
        else:
            lons, width = [a, b], b - a
    own = raw(Vec if vec else Scal, frame(S, [3.0], [3.0], **{m: [1.0] for m in names}) if given and kind == 'frame' else data, ','.join(names))
    bd = Boundary(lats, lons)
    g, e = S.call(own.calculate_coverage, bd, *([data] if given else []))
    S.check(e is None, 'coverage is computed')
    if e is not None:
        return
    if not la or not lo_:
        S.check(S.eq(g, 0), 'no data cover nothing')
        S.reach('none')
        return
    y0, y1 = extent(S, la)
    x0, x1 = extent(S, lo_)
    if not (y0 < y1 and x0 < x1):
        return                      # data on one line: no extent to speak of
    oy = overlap(y0, y1, lats[0], lats[1])
    ox = overlap(x0, x1, lons[0], lons[1]) if not crossing else overlap(x0, x1, lons[0], 180) + overlap(x0, x1, -180, lons[1])
    S.check(S.eq(g * ((lats[1] - lats[0]) * width), oy * ox), 'coverage is the part of the region inside the extent of the data')
    S.reach('some')


def cover_large(S, kind='frame', vec=False):
    """coverage of 150 datapoints, one of them at the edge of any reach"""
    names = ['u', 'v'] if vec else ['v']
    a = S.real('a', -60, 80)
    at = S.choice('at', [0, 77, 149])
    if kind == 'frame':
        la, lo = [2.0 + (i % 15) / 2 for i in range(150)], [2.0 + (i // 15) / 2 for i in range(150)]
        la[at] = a
        data = frame(S, la, lo, **{m: [1.0] * 150 for m in names})
        lats, lons = [0, 20], [0, 20]
    else:
        la, lo = [2.0 + i / 2 for i in range(15)], [2.0 + i / 2 for i in range(10)]
        data = cube(S, la, lo, **{m: [[1.0] * 10 for _ in la] for m in names})
        lats, lons = [0, a + 80], [0, 20]
        S.assume(a > -79)
    g, e = S.call(raw(Vec if vec else Scal, data, ','.join(names)).calculate_coverage, Boundary(lats, lons))
    S.check(e is None, 'coverage is computed')
    if e is not None:
        return
    y0, y1 = extent(S, la)
    x0, x1 = extent(S, lo)
    S.check(S.eq(g * ((lats[1] - lats[0]) * 20), overlap(y0, y1, lats[0], lats[1]) * overlap(x0, x1, 0, 20)), 'coverage is the part of the region inside the extent of the data')
    S.reach('some')


def jobs(tier):
    J = []

    def add(fn, name, cfg, reach=('ok',), wit=5):
        J.append(job(__name__, fn, name, cfg=cfg, reach=list(reach), wit_every=wit))
    for a in ('MIN', 'MAX', 'MEAN', 'COUNT'):
        add('down', f'{a}', dict(agg=a, shape=(2, 3), ds=(3, 1)) if a in ('MIN', 'MAX') else dict(agg=a, shape=(3, 4), ds=(2, 3)))
        add('down', f'{a}-bin', dict(agg=a, shape=(2, 2), ds=(2, 2), nan=(0, 1, 3), how='own'))
        add('down', f'{a}-partial', dict(agg=a, shape=(3, 3), ds=(2, 2), how='call') if a in ('MEAN', 'COUNT') else dict(agg=a, shape=(1, 3), ds=(2, 2), how='call'))
        add('down', f'{a}-vector', dict(agg=a, shape=(2, 3), ds=(2, 1) if a != 'MEAN' else (2, 2), nan=(1,), vec=True) if a in ('MEAN', 'COUNT') else dict(agg=a, shape=(1, 3), ds=(2, 1), nan=(1,), vec=True))
    add('down', 'MEAN-time', dict(agg='MEAN', shape=(2, 2), ds=(2, 1), time=True))
    add('down', 'COUNT-time', dict(agg='COUNT', shape=(2, 3), ds=(2, 1), time=True, nan=(2,)))
    add('down', 'MEAN-2-1', dict(agg='MEAN', shape=(3, 5), ds=(1, 2)))
    for a in ('MEAN', 'MAX', 'MIN', 'COUNT'):
        add('down', f'{a}-large', dict(agg=a, shape=(20, 25), ds=(12, 10), nan=(0, 77, 200), free=(5, 499)))
        add('down', f'{a}-large-vector', dict(agg=a, shape=(20, 9), ds=(4, 10), free=(0, 179), vec=True))
    add('down', 'MEDIAN', dict(agg='MEDIAN', shape=(2, 2), ds=(2, 2)))
    add('down', 'MEDIAN-row', dict(agg='MEDIAN', shape=(2, 3), ds=(3, 1), how='call'))
    add('down', 'MEDIAN-vector', dict(agg='MEDIAN', shape=(1, 3), ds=(3, 1), vec=True, how='own'))
    add('down', 'STD', dict(agg='STD', shape=(1, 2), ds=(2, 1), nan=(0,)))
    add('down', 'STD-bin', dict(agg='STD', shape=(2, 2), ds=(2, 2), how='own'))
    add('down', 'STD-vector', dict(agg='STD', shape=(2, 1), ds=(1, 2), vec=True, how='call'))
    for k in ('frame', 'grid'):
        for v in (False, True):
            add('keep', f'keep-{k}-{v}', dict(kind=k, vec=v))
    for v in (False, True):
        for k in ('frame', 'grid'):
            add('cover_large', f'cover-large-{k}-{v}', dict(kind=k, vec=v), ('some',))
        add('cover', f'cover-frame-lat-{v}', dict(vec=v), ('some', 'none'))
        add('cover', f'cover-frame-long-{v}', dict(vec=v, vary='long', n=3, given=True), ('some', 'none'))
        add('cover', f'cover-frame-crossing-{v}', dict(vec=v, crossing=True), ('some', 'none'))
        add('cover', f'cover-grid-lat-{v}', dict(kind='grid', n=3, vec=v), ('some',))
        add('cover', f'cover-grid-long-{v}', dict(kind='grid', n=3, vary='long', vec=v, given=True), ('some',))
        add('cover', f'cover-grid-crossing-{v}', dict(kind='grid', n=4, crossing=True, vec=v), ('some',))
        add('cover', f'cover-grid-holes-{v}', dict(kind='grid', n=3, vary='long' if v else 'lat', vec=v, isolated=True), ('some',))
    add('down', 'STD-partial', dict(agg='STD', shape=(3, 2), ds=(1, 2), how='own'))
    add('down', 'STD-partial-vector', dict(agg='STD', shape=(1, 3), ds=(2, 1), vec=True))
    add('down', 'MEDIAN-partial', dict(agg='MEDIAN', shape=(1, 4), ds=(3, 1)))
    add('down', 'MEDIAN-partial-vector', dict(agg='MEDIAN', shape=(3, 1), ds=(2, 2), vec=True))
    if tier == 'thorough':
        for a in ('MIN', 'MAX', 'MEDIAN'):
            add('down', f'{a}-deep', dict(agg=a, shape=(2, 4), ds=(2, 2), nan=(0, 5)), wit=50)
        add('down', 'STD-deep', dict(agg='STD', shape=(2, 3), ds=(2, 2), nan=(0,)), wit=20)
    return J
