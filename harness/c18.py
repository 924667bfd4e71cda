"""C18 the value of a cell is the aggregate of the vectors inside it (vector sources)"""
from .common import *
from .data import *
from .c16 import is_aggregate
from fractions import Fraction as F

PROPERTY = dict(
    bounds='tables of up to four and grids of up to 2 x 2 vectors inside the cell plus vectors outside it; directions from eight fixed ones incl. axis-parallel and negative components, any real magnitude; components may be missing; a dozen vectors, two (STD: one) of them with any length, also of several dates; MIN, MAX, MEAN, STD, COUNT',
    outside='cells holding only vectors with exactly one missing component; COUNT, MIN and MAX when some vectors are missing but propagation of missing values is asked for; MEDIAN (refused for vectors); more vectors',
    stubs=[DATA_STUB, NP_STUB, 'angles (arctan2) are an uninterpreted function'], budget=dict(quick=600, thorough=900))

T0, T1 = '2020-03-01', '2020-03-31'
DIRS_ = [(3, 4), (-4, 3), (1, 0), (0, -1), (-3, -4), (4, -3), (-1, 0), (5, 12)]
POS = [(5.0, 5.0), (2.0, 9.0), (10.0, 10.0), (1.0, 3.0), (7.0, 0.5)]


def vec(S, i, which, nan=False):
    """magnitude, (u, v): an exact vector of that length"""
    if nan:
        k = S.choice(f'missing{i}', [0, 1, 2, 3])
    else:
        k = 0
    m = S.real(f'm{i}', 0, 50)
    d = DIRS_[which[i]]
    n = {1: 1, 5: 5, 13: 13}[1 if 0 in d else 13 if 12 in d else 5]
    # scale so that components are exact: length m means components m*d/n; use m*d and length m*n
    u, v = m * d[0], m * d[1]
    if k & 1:
        u = float('nan')
    if k & 2:
        v = float('nan')
    return (m * n if k == 0 else float('nan')), (u, v)


def check_agg(S, got, vs, mags, agg, ddof, skipna=True):
    S.check(list(got) == ['uC', 'vC'], 'both components are reported under their names')
    g = [got['uC'], got['vC']]
    if vs and all(isnan(m) for m in mags) and not all(isnan(x) for v in vs for x in v):
        return                      # only incomplete vectors: not specified
    if agg in ('MEAN', 'STD'):
        for k in (0, 1):
            S.check(is_aggregate(S, g[k], [v[k] for v in vs], agg, ddof, skipna), f'{agg} of each component over exactly the vectors inside')
        return
    if agg == 'COUNT':
        if len(vs):
            S.check(S.And(S.eq(g[0], len(vs)), S.eq(g[1], len(vs))), 'number of vectors inside')
        return
    ok = [i for i in range(len(vs)) if not isnan(mags[i])]
    if not ok:
        S.check(isnan(g[0]) and isnan(g[1]), 'no vectors, no value')
        return
    best = []
    for i in ok:
        ext = [S.le(mags[i], mags[j]) if agg == 'MIN' else S.le(mags[j], mags[i]) for j in ok]
        best.append(S.And(ext + [S.eq(g[0], vs[i][0]), S.eq(g[1], vs[i][1])]))
    S.check(False if isnan(g[0]) or isnan(g[1]) else S.Or(best), f'{agg}: both components of the vector of extreme magnitude')


def run(S, kind='df', agg='MEAN', n=3, nan=False, which=(0, 1, 2, 3, 6), how='config', free=False, skipna=True, build=False, flip=False):
    b = Boundary([0, 10], [0, 10], [T0, T1])
    mv = [vec(S, i, which, nan) for i in range(n)]
    mags, vs = [m for m, _ in mv], [v for _, v in mv]
    imags, ivs = list(mags), list(vs)
    out = S.real('out', -50, 50)
    if kind == 'df':
        lat, lon = [p[0] for p in POS[:n]], [p[1] for p in POS[:n]]
        if free:
            lat[0] = S.real('py', 5, 15)
            if not lat[0] <= 10:
                imags, ivs = imags[1:], ivs[1:]
        data = frame(S, [0.0] + lat, [5.0] + lon, uC=[out] + [v[0] for v in vs], vC=[0.0] + [v[1] for v in vs])
        full = [abs(out)] + mags
        if not build:
            data['_magnitude'] = col(S, full)
            data['_direction'] = col(S, [0.0] * (n + 1))
    else:
        ny, nx = {4: (2, 2), 2: (2, 1), 1: (1, 1)}[n]
        lat, lon = [2.0, 5.0][:ny] + [12.0], [3.0, 9.0][:nx]
        us, ws = [v[0] for v in vs] + [out] * nx, [v[1] for v in vs] + [0.0] * nx
        if flip:                         # a square grid, longitude first
            lat, us, ws = lat[:-1], us[:-nx], ws[:-nx]
        data = cube(S, lat, lon, uC=us, vC=ws) if build else cube(S, lat, lon, uC=us, vC=ws, _magnitude=mags + [abs(out)] * nx, _direction=[0.0] * len(us))
        if free:
            x0 = S.real('lon0', 0, 5)
            b = Boundary([0, 10], [x0, 10], [T0, T1])
            keep = [i for i in range(n) if lon[i % nx] > x0]
            imags, ivs = [imags[i] for i in keep], [ivs[i] for i in keep]
    other = 'MAX' if agg == 'MIN' else 'MIN'
    if build:
        big = Boundary([-20, 20], [-20, 20], [T0, T1])
        p = {'dataloader_name': 'x', 'data_name': 'uC,vC'}
        if agg != 'MEAN':
            p['aggregate_type'] = agg
        data = data.rename(columns={'uC': 'a', 'vC': 'b'}) if kind == 'df' else data.rename({'uC': 'a', 'vC': 'b'})
        if flip:
            data = data.transpose('long', 'lat').reindex(lat=data.lat[::-1]).reindex(lat=data.lat)
        l = Vec(big, p, data)
    else:
        l = raw(Vec, data, 'uC,vC', aggregate_type=agg if how == 'config' else other)
    kw = {} if how == 'config' else dict(agg_type=agg)
    if how == 'given':
        kw['data'] = l.trim_datapoints(b)
        l.data = data.head(0) if kind == 'df' else data
    if not skipna:
        kw['skipna'] = False
    got, e = S.call(l.get_value, b, **kw)
    S.check(e is None, 'a value is given for every cell')
    if e is not None:
        return
    check_agg(S, got, ivs, imags, agg, 1 if kind == 'df' else 0, skipna)
    S.observe('v', [got[k] for k in got])
    S.reach('nan' if isnan(got.get('uC')) else 'val')


def many(S, kind='df', agg='MEAN', more=0):
    """a dozen vectors in the cell, one or two of them with any length"""
    b = Boundary([0, 10], [0, 10], [T0, T1])
    mv = [vec(S, 0, (0, 1)), vec(S, 1, (0, 1))] if agg != 'STD' else [vec(S, 0, (0, 1)), (5.0, (3.0, -4.0))]
    mv += [(5.0 * k, (3.0 * k * s, 4.0 * k)) for k, s in ((1, 1), (2, -1), (3, 1), (4, -1), (6, 1), (7, -1), (9, 1), (11, -1), (12, 1), (0.5, 1))]
    mv = mv[2:7] + mv[:1] + mv[7:] + [(5.0 * k, (4.0 * k, -3.0 * k)) for k in (i % 9 + 1 for i in range(more))] + mv[1:2]
    n = len(mv)
    mags, vs = [m for m, _ in mv], [v for _, v in mv]
    cols = dict(uC=[v[0] for v in vs], vC=[v[1] for v in vs], _magnitude=mags, _direction=[0.0] * n)
    if kind == 'df':
        data = frame(S, [1.0 + i % 12 / 2 for i in range(n)], [1.0 + i // 12 for i in range(n)], **cols)
    elif kind == 'xr':
        data = cube(S, [1.0, 2.0, 3.0], [1.0 + i / 4 for i in range(n // 3)], **cols)
    else:
        data = cube(S, [1.0, 2.0, 3.0], [1.0 + i / 4 for i in range(n // 6)], [T0, T1], **cols)
    l = raw(Vec, data, 'uC,vC', aggregate_type=agg)
    got, e = S.call(l.get_value, b)
    S.check(e is None, 'a value is given for every cell')
    if e is None:
        check_agg(S, got, vs, mags, agg, 1 if kind == 'df' else 0)


def history(S, kind='df', first='MAX'):
    """one loader asked several times: every answer is that of its own question"""
    mv = [vec(S, i, (0, 3, 6, 1)) for i in range(4)]
    (ma, a), (mc, c), (md, d), (me, e) = mv
    if kind == 'df':
        own = frame(S, [2.0, 6.0, 8.0], [5.0] * 3, [T0, T0, '2020-04-02'], uC=[a[0], c[0], d[0]], vC=[a[1], c[1], d[1]], _magnitude=[ma, mc, md], _direction=[0.0] * 3)
        sub = frame(S, [2.0, 6.0], [5.0] * 2, [T0, T0], uC=[d[0], e[0]], vC=[d[1], e[1]], _magnitude=[md, me], _direction=[0.0] * 2)
        dd, late = 1, [(md, d)]
    else:
        own = cube(S, [2.0, 6.0], [5.0], [T0, '2020-04-02'], uC=[a[0], c[0], d[0], d[0]], vC=[a[1], c[1], d[1], d[1]], _magnitude=[ma, mc, md, md], _direction=[0.0] * 4)
        sub = cube(S, [2.0, 6.0], [5.0], [T0], uC=[d[0], e[0]], vC=[d[1], e[1]], _magnitude=[md, me], _direction=[0.0] * 2)
        dd, late = 0, [(md, d)] * 2
    l = raw(Vec, own, 'uC,vC', aggregate_type=first)
    B = lambda y1, t0=T0, t1=T1: Boundary([0, y1], [0, 10], [t0, t1])
    second = S.choice('second', [x for x in ('MIN', 'MEAN', 'MAX') if x != first])
    ac = [(ma, a), (mc, c)]
    asked = [(B(10), {}, ac, first), (B(10), dict(agg_type=second), ac, second), (B(10), {}, ac, first), (B(4), {}, ac[:1], first), (B(10, '2020-04-01', '2020-04-30'), {}, late, first),
             (B(10), dict(data=sub), [(md, d), (me, e)], first), (B(10), {}, ac, first)]
    for b, kw, vs, agg in asked:
        got = l.get_value(b, **kw)
        check_agg(S, got, [v for _, v in vs], [m for m, _ in vs], agg, dd)
        got['uC'] = 1e6                 # the answer is the caller's
    S.reach('asked')


def angle(S, v, u):
    if not S.symbolic:
        return float(np.arctan2(v, u))
    from symx import npf
    return npf.OVERRIDES['arctan2'](v, u)


def magdir(S, kind='df', how='own'):
    """the stored magnitude is the length of the vector"""
    u, v = S.real('u', -20, 20), S.real('v', -20, 20)
    w = S.choice('w', [0.0, float('nan')])
    data = frame(S, [1.0, 2.0], [1.0, 1.0], a=[u, w], b=[v, 1.0]) if kind == 'df' else cube(S, [1.0, 2.0], [1.0], a=[u, w], b=[v, 1.0])
    l = raw(Vec, data, 'a,b')
    if how == 'given':                  # other data, other components
        l.data, l.data_name_list = data.head(0) if kind == 'df' else data.isel(lat=[0]), ['c', 'd']
        d, e = S.call(l.add_mag_dir, data, ['a', 'b'])
        S.check(e is None, 'data and components may be given')
        if e is not None:
            return
    else:
        d = l.add_mag_dir()
    t = np.asarray(d['_direction'].values).ravel().tolist()
    S.check(S.eq(t[0], angle(S, v, u)), 'direction = angle of the vector')
    m = np.asarray(d['_magnitude'].values).ravel().tolist()
    S.check(S.And(S.le(0, m[0]), S.eq(m[0] * m[0], u * u + v * v)), 'magnitude = length')
    S.check(isnan(m[1]) if isnan(w) else S.eq(m[1], 1.0), 'magnitude = length')
    a = np.asarray(d['a'].values).ravel().tolist()
    b = np.asarray(d['b'].values).ravel().tolist()
    S.check(S.And(S.eq(a[0], u), S.eq(b[0], v)), 'components are kept')


def refused(S, kind='df'):
    agg = S.choice('agg', ['MEDIAN', 'RMSE!', 'MIN', 'MAX', 'MEAN', 'STD', 'COUNT'])
    n = S.choice('n', [0, 1])
    b = Boundary([0, 10], [0, 10], [T0, T1])
    x = S.real('x', 0, 5)
    if kind == 'df':
        data = frame(S, [5.0 if n else 15.0], [5.0], uC=[x], vC=[0.0], _magnitude=[x])
    else:
        data = cube(S, [5.0 if n else 15.0], [5.0], uC=[x], vC=[0.0], _magnitude=[x])
    l = raw(Vec, data, 'uC,vC')
    got, e = S.call(l.get_value, b, agg_type=agg)
    if agg in ('MEDIAN', 'RMSE!'):
        if n:
            S.check(isinstance(e, ValueError), 'aggregate types without meaning for vectors are refused')
        S.reach('refused')
    else:
        S.check(e is None, 'documented aggregate types are accepted')
        if not n and e is None and agg != 'COUNT':
            S.check(isnan(got['uC']) and isnan(got['vC']), 'no vectors, no value')
            S.reach('empty')


def jobs(tier):
    js = []
    for k, n in (('df', 3), ('xr', 4)):
        for a in ('MIN', 'MAX', 'MEAN', 'STD', 'COUNT'):
            js.append(job(__name__, 'run', f'{k}-{a}', cfg=dict(kind=k, agg=a, n=(4 if k == 'df' and a in ('MIN', 'MAX') else n) if a != 'STD' else 2), reach=['val'], wit_every=3))
            js.append(job(__name__, 'run', f'{k}-{a}-call', cfg=dict(kind=k, agg=a, n=2, how='call', free=True, which=(4, 5, 6, 7)), reach=['val'], wit_every=3))
            js.append(job(__name__, 'run', f'{k}-{a}-given', cfg=dict(kind=k, agg=a, n=2, how='given', which=(3, 6)), reach=['val'], wit_every=3))
            for kk in ((k,) if k == 'df' else ('xr', 'dates')):
                js.append(job(__name__, 'many', f'{kk}-{a}-many', cfg=dict(kind=kk, agg=a), wit_every=8))
                js.append(job(__name__, 'many', f'{kk}-{a}-more', cfg=dict(kind=kk, agg=a, more=96), wit_every=16))
            if a != 'COUNT':
                js.append(job(__name__, 'run', f'{k}-{a}-missing', cfg=dict(kind=k, agg=a, n=2, nan=True, which=(6, 1)), reach=['val', 'nan'], wit_every=6))
        for a in ('MIN', 'MAX', 'MEAN'):
            js.append(job(__name__, 'run', f'{k}-{a}-built', cfg=dict(kind=k, agg=a, n=2, build=True, which=(0, 6)), reach=['val'], wit_every=2))
        if k == 'xr':
            for a in ('MIN', 'MAX'):
                js.append(job(__name__, 'run', f'{k}-{a}-longfirst', cfg=dict(kind=k, agg=a, n=4, build=True, which=(0, 6, 1, 3), flip='long', free=True), reach=['val'], wit_every=2))
        js.append(job(__name__, 'run', f'{k}-MEAN-keepnan', cfg=dict(kind=k, agg='MEAN', n=2, nan=True, which=(6, 1), skipna=False), reach=['val', 'nan'], wit_every=6))
        js.append(job(__name__, 'history', f'{k}-history', cfg=dict(kind=k, first='MAX' if k == 'df' else 'MIN'), reach=['asked'], wit_every=4))
        js.append(job(__name__, 'magdir', f'{k}-magnitude', cfg=dict(kind=k)))
        js.append(job(__name__, 'magdir', f'{k}-magnitude-given', cfg=dict(kind=k, how='given')))
        js.append(job(__name__, 'refused', f'{k}-refused', cfg=dict(kind=k), reach=['refused', 'empty']))
    if tier == 'thorough':
        for k, n in (('df', 3), ('xr', 4)):
            for a in ('MIN', 'MAX', 'MEAN', 'STD'):
                js.append(job(__name__, 'run', f'{k}-{a}-missing-more', cfg=dict(kind=k, agg=a, n=n, nan=True, which=(7, 2, 4, 3)), wit_every=32))
                js.append(job(__name__, 'run', f'{k}-{a}-built-more', cfg=dict(kind=k, agg=a, n=2, build=True, nan=True, free=True, which=(0, 6)), wit_every=8))
    return js
