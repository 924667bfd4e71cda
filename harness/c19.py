"""C19 homogeneity of vector data in a cell"""
from .common import *
from .data import *
from fractions import Fraction as F

PROPERTY = dict(
    bounds='curl: fields on 2 x 2 and 2 x 3 / 3 x 2 positions, every component any real (or one vector missing), tables and grids; dmag: two to four vectors, every component any real; any real threshold (dmag: non-negative) and bounds; split_lock true/false/absent; minimum of datapoints 0..6',
    outside='larger fields; several times per position; fewer than two rows or columns only as far as "clear"; conditions naming neither curl nor dmag',
    stubs=[DATA_STUB, NP_STUB], budget=dict(quick=600, thorough=900))

T0, T1 = '2020-03-01', '2020-03-31'
LAT, LON = [1.0, 2.0, 3.0], [5.0, 7.0, 9.0]


def near(S, a, b):
    """too close to call in double arithmetic (concrete replays only)"""
    return False if S.symbolic else abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def diff(f, i, n):
    """derivative along an axis with unit spacing: one-sided at the ends, central inside"""
    if i == 0:
        return f(1) - f(0)
    if i == n - 1:
        return f(n - 1) - f(n - 2)
    return (f(i + 1) - f(i - 1)) / 2


def spec(S, got, flow, over, lo, hi, lock, few):
    """flow: list of field values (NaN where missing); over: list of conditions"""
    S.check(got in ('CLR', 'HOM', 'MIN', 'HET'), 'the answer is one of the four conditions')
    if few:
        S.check(got in ('CLR', 'MIN'), 'a cell with fewer than the minimum of datapoints never asks for a split and never locks')
        S.reach('few')
        return
    n = len(over)
    if n == 0:
        S.check(S.Implies(0 <= lo, got == 'CLR'), 'nothing to compare: clear')
        return
    k = sum(1 for o in over if o)
    frac = F(k / n) if S.symbolic else k / n
    low, high = lo >= frac, hi <= frac
    S.check(S.Implies(low, got == 'CLR'), 'fraction over the threshold at or below the lower bound: clear')
    S.check(S.Implies(S.And(S.Not(low), high), got == ('HOM' if lock else 'CLR')), 'fraction at or above the upper bound: homogeneous when locked, else clear')
    S.check(S.Implies(S.And(S.Not(low), S.Not(high)), got == 'HET'), 'fraction between the bounds: heterogeneous')
    S.reach(got)


def conds(S, mode, exact=None, thlo=-20):
    th = S.real('threshold', thlo, 20)
    if exact:
        lo, hi = S.choice('bounds', exact)
    else:
        lo, hi = S.real('lower', -0.5, 1.5), S.real('upper', -0.5, 1.5)
    c = {'threshold': th, 'lower_bound': lo, 'upper_bound': hi}
    lock = S.choice('lock', [None, True, False])
    if lock is not None:
        c['split_lock'] = lock
    return {mode: c}, th, lo, hi, lock is True


def source(S, kind, ny, nx, uv, order=False):
    lat, lon = LAT[:ny], LON[:nx]
    us, vs = [uv[i, j][0] for i in range(ny) for j in range(nx)], [uv[i, j][1] for i in range(ny) for j in range(nx)]
    mags = [float('nan') if isnan(u) or isnan(v) else 1.0 for u, v in zip(us, vs)]          # the length is not used by the homogeneity condition
    if kind == 'df':
        la, lo = [lat[i] for i in range(ny) for j in range(nx)], [lon[j] for i in range(ny) for j in range(nx)]
        idx = list(range(len(us)))
        if order:
            idx = idx[::-1]
        g = lambda xs: [xs[i] for i in idx]
        # one more position outside the cell
        return frame(S, g(la) + [50.0], g(lo) + [5.0], uC=g(us) + [19.0], vC=g(vs) + [-7.0], _magnitude=mags + [1.0], _direction=[0.0] * (len(us) + 1))
    lat2 = lat + [50.0]
    return cube(S, lat2, lon, uC=us + [19.0] * nx, vC=vs + [-7.0] * nx, _magnitude=mags + [1.0] * nx, _direction=[0.0] * (len(us) + nx))


def field(S, ny, nx, mag=8, hole=None, only=None):
    uv = {}
    for i in range(ny):
        for j in range(nx):
            u = S.real(f'u{i}{j}', -mag, mag) if only in (None, 'u') else float(i - 2 * j)
            v = S.real(f'v{i}{j}', -mag, mag) if only in (None, 'v') else float(3 * j + i * i)
            uv[i, j] = (u, v)
    if hole is not None:
        uv[hole] = (float('nan'), float('nan'))
    return uv


def curl(S, kind='df', ny=2, nx=2, hole=None, min_dp=(1,), given=True, exact=None, order=False, only=None):
    uv = field(S, ny, nx, hole=hole, only=only)
    m = S.choice('min_dp', min_dp)
    l = raw(Vec, source(S, kind, ny, nx, uv, order), 'uC,vC', min_dp=m)
    b = Boundary([0, 10], [0, 10], [T0, T1])
    c, th, lo, hi, lock = conds(S, 'curl', exact)
    kw = dict(data=l.trim_datapoints(b)) if given else {}
    got, e = S.call(l.get_hom_condition, b, c, **kw)
    S.check(e is None, 'a condition is given for every cell')
    S.observe('hom', got)
    if e is not None:
        return
    flow = []
    if ny >= 2 and nx >= 2:
        for i in range(ny):
            for j in range(nx):
                # positions whose difference quotients touch the missing vector have no curl
                def nanat(a, b_):
                    return hole == (a, b_)
                need = [(i, k) for k in ((0, 1) if j == 0 else (nx - 1, nx - 2) if j == nx - 1 else (j - 1, j + 1))]
                need += [(k, j) for k in ((0, 1) if i == 0 else (ny - 1, ny - 2) if i == ny - 1 else (i - 1, i + 1))]
                if any(nanat(*q) for q in need):
                    continue
                dvdx = diff(lambda k: uv[i, k][1], j, nx)
                dudy = diff(lambda k: uv[k, j][0], i, ny)
                flow.append(dvdx - dudy)
    if hole is not None and ny * nx - 1 < m <= ny * nx:
        return                      # whether missing vectors count is not specified
    spec(S, got, flow, [f > th for f in flow], lo, hi, lock, ny * nx < m)


def curl_value(S, kind='df', ny=2, nx=2, given=False):
    """the collapsed curl is the curl of largest size (or the mean)"""
    uv = field(S, ny, nx)
    l = raw(Vec, source(S, kind, ny, nx, uv), 'uC,vC')
    b = Boundary([0, 10], [0, 10], [T0, T1])
    agg = S.choice('agg', ['MAX', 'MEAN', 'x'])
    got, e = S.call(l.calc_curl, b, agg_type=agg, **(dict(data=l.trim_datapoints(b)) if given else {}))
    if agg == 'x':
        S.check(isinstance(e, ValueError), 'unknown aggregate is refused')
        return
    S.check(e is None, 'curl is computed')
    if e is not None:
        return
    flow = [diff(lambda k: uv[i, k][1], j, nx) - diff(lambda k: uv[k, j][0], i, ny) for i in range(ny) for j in range(nx)]
    if agg == 'MEAN':
        t = flow[0]
        for f in flow[1:]:
            t = t + f
        S.check(S.eq(got * len(flow), t), 'mean curl')
    else:
        S.check(S.And([S.le(abs(f), abs(got)) for f in flow] + [S.Or([S.eq(f, got) for f in flow])]), 'curl of largest size')
    S.reach(agg)


def dmag(S, kind='df', n=2, min_dp=(1,), given=True, exact=None, flat=False, hole=False, agg='MEAN'):
    ny, nx = {2: (2, 1), 4: (2, 2), 3: (3, 1), 1: (1, 1)}[n]
    uv = {}
    for i in range(ny):
        for j in range(nx):
            uv[i, j] = (S.real(f'u{i}{j}', -8, 8), 3.0 if flat else S.real(f'v{i}{j}', -8, 8))
    if hole:
        uv[ny - 1, nx - 1] = (float('nan'), float('nan'))
    m = S.choice('min_dp', min_dp)
    l = raw(Vec, source(S, kind, ny, nx, uv), 'uC,vC', min_dp=m, aggregate_type=agg)
    b = Boundary([0, 10], [0, 10], [T0, T1])
    c, th, lo, hi, lock = conds(S, 'dmag', exact, thlo=0)
    kw = dict(data=l.trim_datapoints(b)) if given else {}
    got, e = S.call(l.get_hom_condition, b, c, **kw)
    S.check(e is None, 'a condition is given for every cell')
    S.observe('hom', got)
    if e is not None:
        return
    vs = [v for v in uv.values() if not isnan(v[0])]
    k = len(vs)
    mu, mv = sum(v[0] for v in vs) / k, sum(v[1] for v in vs) / k
    d2 = [(v[0] - mu) * (v[0] - mu) + (v[1] - mv) * (v[1] - mv) for v in vs]
    if k == 3 and any(near(S, d, th * th) for d in d2):
        return
    if hole and k < m <= n:
        return                      # tables: whether missing vectors count is not specified (grids: see incomplete)
    spec(S, got, d2, [d > th * th for d in d2], lo, hi, lock, n < m)


def history(S, kind='df'):
    """one loader asked several times: every answer is that of its own question"""
    uv = {(i, j): (S.real(f'u{i}{j}', -8, 8), float(3 * j - i)) for i in range(2) for j in range(2)}
    l = raw(Vec, source(S, kind, 2, 2, uv), 'uC,vC', min_dp=1)
    B = lambda y1: Boundary([0, y1], [0, 10], [T0, T1])
    one, two = {'threshold': 1.0, 'lower_bound': 0.25, 'upper_bound': 0.75}, {'threshold': 1.0, 'lower_bound': 0, 'upper_bound': 0.5, 'split_lock': True}

    def flows(mode, rows):
        if mode == 'curl':
            return [] if rows < 2 else [diff(lambda k: uv[i, k][1], j, 2) - diff(lambda k: uv[k, j][0], i, 2) for i in range(2) for j in range(2)]
        vs = [uv[i, j] for i in range(rows) for j in range(2)]
        mu, mv = sum(v[0] for v in vs) / len(vs), sum(v[1] for v in vs) / len(vs)
        return [(v[0] - mu) * (v[0] - mu) + (v[1] - mv) * (v[1] - mv) for v in vs]
    for y1, mode, k, rows in [(10, 'curl', one, 2), (10, 'curl', two, 2), (1.5, 'curl', one, 1), (10, 'dmag', one, 2), (10, 'curl', one, 2)]:
        f = flows(mode, rows)
        got = l.get_hom_condition(B(y1), {mode: dict(k)})
        spec(S, got, f, [x > 1 for x in f], F(k['lower_bound']), F(k['upper_bound']), k is two, False)
    S.reach('asked')


def incomplete(S, mode='curl'):
    """grids: vectors lacking a component do not count towards the minimum"""
    uv = {(i, j): (float(i - 2 * j), float(3 * j + i * i)) for i in range(2) for j in range(3)}
    uv[1, 1] = (S.real('u', -8, 8), uv[1, 1][1])
    which = S.choice('missing', ['u', 'v', 'uv'])
    x = uv[0, 1]
    uv[0, 1] = (float('nan') if 'u' in which else x[0], float('nan') if 'v' in which else x[1])
    m = S.choice('min_dp', [5, 6, 7])
    l = raw(Vec, source(S, 'xr', 2, 3, uv), 'uC,vC', min_dp=m)
    b = Boundary([0, 10], [0, 10], [T0, T1])
    c, th, lo, hi, lock = conds(S, mode, exact=[(0.25, 0.5), (0.1, 0.2)], thlo=0)
    got, e = S.call(l.get_hom_condition, b, c, **(dict(data=l.trim_datapoints(b)) if S.flag('given') else {}))
    S.check(e is None, 'a condition is given for every cell')
    if e is None and m > 5:
        spec(S, got, [], [], lo, hi, lock, True)


def many(S, kind='df', mode='curl', ny=3, nx=4):
    """a field of a dozen (or many) vectors, one of them any"""
    n = ny * nx
    uv = {(i, j): (float(i * i - 2 * j + (3 if i == j else 0)), float(j * j - i)) for i in range(ny) for j in range(nx)}
    a = S.real('a', -20, 20) if n <= 12 or mode == 'curl' else S.choice('a', [-20.0, -3.0, 0.5, 14.0])
    uv[1, 2] = (a, 2.0) if mode == 'curl' else (a, uv[1, 2][1])
    lat, lon = [1.0, 2.0, 3.0], [1.0, 2.0, 4.0, 8.0]
    if n > 12:
        lat, lon = [1.0 + i for i in range(ny)], [1.0 + i / 2 for i in range(nx)]
    us, vs = [uv[i, j][0] for i in range(ny) for j in range(nx)], [uv[i, j][1] for i in range(ny) for j in range(nx)]
    cols = dict(uC=us, vC=vs, _magnitude=[1.0] * n, _direction=[0.0] * n)
    if kind == 'df':
        data = frame(S, [lat[i] for i in range(ny) for j in range(nx)], [lon[j] for i in range(ny) for j in range(nx)], **cols)
    else:
        data = cube(S, lat, lon, **cols)
    m = S.choice('min_dp', [n, n + 1])
    l = raw(Vec, data, 'uC,vC', min_dp=m)
    b = Boundary([0, 10], [0, 10], [T0, T1])
    th = S.choice('threshold', [0.5, 3.25, 6.1])
    lo, hi = S.choice('bounds', [(0.25, 0.75), (0.1, 0.3)])
    lock = S.flag('lock')
    got, e = S.call(l.get_hom_condition, b, {mode: {'threshold': th, 'lower_bound': lo, 'upper_bound': hi, 'split_lock': lock}})
    S.check(e is None, 'a condition is given for every cell')
    if e is not None:
        return
    if mode == 'curl':
        f = [diff(lambda k: uv[i, k][1], j, nx) - diff(lambda k: uv[k, j][0], i, ny) for i in range(ny) for j in range(nx)]
        t = F(th) if S.symbolic else th
    else:
        mu, mv = sum(us) / n, sum(vs) / n
        f = [(u - mu) * (u - mu) + (v - mv) * (v - mv) for u, v in zip(us, vs)]
        t = F(th) * F(th) if S.symbolic else th * th
    if any(near(S, x, t) for x in f):
        return
    spec(S, got, f, [x > t for x in f], F(lo) if S.symbolic else lo, F(hi) if S.symbolic else hi, lock, m > n)


def thin(S, kind='df'):
    """too few rows or columns for a derivative: clear, whatever the bounds"""
    ny, nx = S.choice('shape', [(1, 1), (1, 3), (3, 1)])
    uv = {(i, j): (S.real(f'u{i}{j}', -8, 8), 1.0) for i in range(ny) for j in range(nx)}
    l = raw(Vec, source(S, kind, ny, nx, uv), 'uC,vC', min_dp=1)
    b = Boundary([0, 10], [0, 10], [T0, T1])
    c, th, lo, hi, lock = conds(S, 'curl', exact=[(0.0, 1.0), (0.25, 0.5)])
    got, e = S.call(l.get_hom_condition, b, c)
    S.check(e is None and got == 'CLR', 'no derivative: clear')


def jobs(tier):
    js = []
    R = ['CLR', 'HOM', 'HET']
    EX = [(0.25, 0.75), (0, 1), (0.5, 0.5), (0.1, 0.9)]
    for k in ('df', 'xr'):
        js.append(job(__name__, 'curl', f'{k}-curl', cfg=dict(kind=k, given=k == 'df'), reach=R, wit_every=8))
        js.append(job(__name__, 'curl', f'{k}-curl-few', cfg=dict(kind=k, min_dp=(0, 4, 5), only='u', exact=EX[:2]), reach=R + ['few'], wit_every=8))
        js.append(job(__name__, 'curl', f'{k}-curl-23', cfg=dict(kind=k, ny=2, nx=3, exact=EX[:1], only='v', order=True), reach=R, wit_every=16))
        js.append(job(__name__, 'curl', f'{k}-curl-32', cfg=dict(kind=k, ny=3, nx=2, exact=EX[:1], only='u'), reach=R, wit_every=16))
        js.append(job(__name__, 'curl', f'{k}-curl-missing', cfg=dict(kind=k, ny=2, nx=3, hole=(0, 0), exact=EX, min_dp=(3,), given=False), reach=R, wit_every=16))
        js.append(job(__name__, 'curl_value', f'{k}-curl-value', cfg=dict(kind=k, given=k == 'df'), reach=['MAX', 'MEAN'], wit_every=8))
        js.append(job(__name__, 'dmag', f'{k}-dmag', cfg=dict(kind=k, agg='COUNT' if k == 'df' else 'STD', n=2, exact=EX, min_dp=(1, 3)), reach=['CLR', 'few'], wit_every=8))
        js.append(job(__name__, 'dmag', f'{k}-dmag-4', cfg=dict(kind=k, agg='COUNT', n=4, exact=EX[:2], flat=True, given=k == 'xr'), reach=R, wit_every=16))
        js.append(job(__name__, 'dmag', f'{k}-dmag-missing', cfg=dict(kind=k, n=4 if k == 'xr' else 3, exact=EX[:1], flat=True, hole=True), wit_every=16))
        js.append(job(__name__, 'history', f'{k}-history', cfg=dict(kind=k), reach=['asked'], wit_every=8))
        for mode in ('curl', 'dmag'):
            js.append(job(__name__, 'many', f'{k}-{mode}-many', cfg=dict(kind=k, mode=mode), reach=['HET', 'CLR', 'few'], wit_every=8))
            js.append(job(__name__, 'many', f'{k}-{mode}-more', cfg=dict(kind=k, mode=mode, ny=8, nx=9), reach=['few'], wit_every=16))
        js.append(job(__name__, 'thin', f'{k}-thin', cfg=dict(kind=k), wit_every=2))
    for mode in ('curl', 'dmag'):
        js.append(job(__name__, 'incomplete', f'incomplete-{mode}', cfg=dict(mode=mode), reach=['few'], wit_every=8))
    if tier == 'thorough':
        for k in ('df', 'xr'):
            js.append(job(__name__, 'curl', f'{k}-curl-33', cfg=dict(kind=k, ny=3, nx=3, exact=EX[:1], only='u'), wit_every=64))
            js.append(job(__name__, 'curl', f'{k}-curl-23-full', cfg=dict(kind=k, ny=2, nx=3), wit_every=64))
            js.append(job(__name__, 'dmag', f'{k}-dmag-4-full', cfg=dict(kind=k, n=4, exact=EX[:1]), wit_every=16))
    return js
