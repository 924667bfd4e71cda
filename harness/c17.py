"""C17 homogeneity of scalar data in a cell"""
from .common import *
from .data import *
from fractions import Fraction as F

PROPERTY = dict(
    bounds='tables of up to four and grids of up to 2 x 2 datapoints in the cell (one of them at any position in or out), each value any real or missing; any real threshold; any real lower/upper bounds; '
           'a dozen datapoints, two of them with any value, also with several dates; cells without datapoints; split_lock true, false or absent; minimum number of datapoints 0..6; data given or own',
    outside='more than four datapoints with any value',
    stubs=[DATA_STUB, NP_STUB], budget=dict(quick=600, thorough=900))

T0, T1 = '2020-03-01', '2020-03-31'


def spec(S, got, vals, th, lo, hi, lock, min_dp):
    ok = [v for v in vals if not isnan(v)]
    S.check(got in ('CLR', 'HOM', 'MIN', 'HET'), 'the answer is one of the four conditions')
    if len(vals) < min_dp:
        S.check(got in ('CLR', 'MIN'), 'a cell with fewer than the minimum of datapoints never asks for a split and never locks')
        S.reach('few')
        return
    if len(ok) == 0:
        S.check(S.Implies(0 <= lo, got == 'CLR'), 'without values nothing is over the threshold')
        return
    n = sum(1 for v in ok if v > th)
    if S.symbolic:
        frac = F(n / len(ok))          # the double the code compares
        low, high = lo >= frac, hi <= frac
    else:
        low, high = n / len(ok) <= lo, n / len(ok) >= hi
    S.check(S.Implies(low, got == 'CLR'), 'fraction over the threshold at or below the lower bound: clear')
    S.check(S.Implies(S.And(S.Not(low), high), got == ('HOM' if lock else 'CLR')), 'fraction at or above the upper bound: homogeneous when locked, else clear')
    S.check(S.Implies(S.And(S.Not(low), S.Not(high)), got == 'HET'), 'fraction between the bounds: heterogeneous')
    S.reach(got)


def conds(S, exact=None):
    th = S.real('threshold', -10, 10)
    if exact:
        lo, hi = S.choice('bounds', exact)
    else:
        lo, hi = S.real('lower', -0.5, 1.5), S.real('upper', -0.5, 1.5)
    c = {'threshold': th, 'lower_bound': lo, 'upper_bound': hi}
    lock = S.choice('lock', [None, True, False])
    if lock is not None:
        c['split_lock'] = lock
    return c, th, lo, hi, lock is True


POS = [(5.0, 5.0), (2.0, 9.0), (10.0, 10.0), (1.0, 3.0)]


def run(S, kind='df', n=3, nan=False, min_dp=(0, 3), given=False, exact=None, free=False):
    b = Boundary([0, 10], [0, 10], [T0, T1])
    m = S.choice('min_dp', min_dp)
    vals = [S.val(f'v{i}', nan=nan, lo=-20, hi=20) for i in range(n)]
    inside = list(vals)
    if kind == 'df':
        lat, lon = [p[0] for p in POS[:n]], [p[1] for p in POS[:n]]
        if free:
            py = S.real('py', 5, 15)
            lat[0] = py
            if not (py <= 10):
                inside = inside[1:]
        data = frame(S, lat + [0.0], lon + [5.0], v=vals + [S.real('out', -20, 20)])
    else:
        if n == 4:
            data = cube(S, [2.0, 5.0], [3.0, 9.0], v=vals)
        elif n == 2:
            data = cube(S, [2.0, 5.0], [3.0], v=vals)
        else:
            data = cube(S, [2.0], [3.0], v=vals)
        if free:
            x0 = S.real('lon0', 0, 5)
            b = Boundary([0, 10], [x0, 10], [T0, T1])
            xs = [3.0, 9.0] * 2 if n == 4 else [3.0] * n
            inside = [v for v, x in zip(vals, xs) if x > x0]
    c, th, lo, hi, lock = conds(S, exact)
    l = raw(Scal, data, 'v', min_dp=m)
    keep = dict(c)
    if given:
        sub = l.trim_datapoints(b)
        l.data = data.head(0) if kind == 'df' else data
        got, e = S.call(l.get_hom_condition, b, c, data=sub)
    else:
        got, e = S.call(l.get_hom_condition, b, c)
    S.check(e is None, 'a condition is given for every cell')
    if e is None:
        spec(S, got, inside, th, lo, hi, lock, m)
        S.check(all(c.get(k) is v or c.get(k) == v for k, v in keep.items()), 'the configured conditions are not changed')
        S.observe('hom', got)


def history(S, kind='df'):
    """one loader asked several times: every answer is that of its own question"""
    a, c, d, e = [S.real(k, -20, 20) for k in 'acde']
    if kind == 'df':
        own = frame(S, [2.0, 6.0, 8.0], [5.0] * 3, [T0, T0, '2020-04-02'], v=[a, c, d])
        sub = frame(S, [2.0, 6.0], [5.0] * 2, [T0, T0], v=[d, e])
        late = [d]
    else:
        own = cube(S, [2.0, 6.0], [5.0], [T0, '2020-04-02'], v=[a, c, d, d])
        sub = cube(S, [2.0, 6.0], [5.0], [T0], v=[d, e])
        late = [d, d]
    l = raw(Scal, own, 'v', min_dp=1)
    B = lambda y1, t0=T0, t1=T1: Boundary([0, y1], [0, 10], [t0, t1])
    one, two = {'threshold': 0.0, 'lower_bound': 0, 'upper_bound': 0.75}, {'threshold': 3.0, 'lower_bound': 0.25, 'upper_bound': 1, 'split_lock': True}
    three = dict(one, split_lock=True)
    asked = [(B(10), one, {}, [a, c]), (B(10), two, {}, [a, c]), (B(10), three, {}, [a, c]), (B(4), one, {}, [a]), (B(10, '2020-04-01', '2020-04-30'), one, {}, late),
             (B(10), one, dict(data=sub), [d, e]), (B(10), dict(one, upper_bound=0.5), {}, [a, c]), (B(10), one, {}, [a, c])]
    for b, k, kw, vals in asked:
        got = l.get_hom_condition(b, k, **kw)
        spec(S, got, vals, k['threshold'], F(k['lower_bound']), F(k['upper_bound']), k is two or k is three, 1)
    S.reach('asked')


def many(S, kind='df', more=0):
    """a dozen datapoints, two of them with any value; grids also with several dates"""
    b = Boundary([0, 10], [0, 10], [T0, T1])
    a, c = S.val('a', nan=True, lo=-20, hi=20), S.real('c', -20, 20)
    vals = [4.0, 1.0, a, 2.0, -3.0, c, float('nan'), 0.0, 7.0, 5.0, -6.0, 3.0] + [float(i * 7 % 11 - 5) for i in range(more)]
    n = len(vals)
    m = S.choice('min_dp', [5, n, n + 1])
    if kind == 'df':
        data = frame(S, [1.0 + i % 12 / 2 for i in range(n)], [1.0 + i // 12 for i in range(n)], v=vals)
    elif kind == 'xr':
        data = cube(S, [1.0, 2.0, 3.0], [1.0 + i / 4 for i in range(n // 3)], v=vals)
    else:
        data = cube(S, [1.0, 2.0, 3.0], [1.0 + i / 4 for i in range(n // 6)], [T0, T1], v=vals)
    c_, th, lo, hi, lock = conds(S, exact=[(0.25, 0.75), (0.5, 1)])
    l = raw(Scal, data, 'v', min_dp=m)
    sub = l.trim_datapoints(b) if S.flag('given') else None
    spec(S, l.get_hom_condition(b, c_, data=sub), vals, th, lo, hi, lock, m)


def nothing(S, kind='df'):
    """a cell without datapoints, given as such, whatever the source has elsewhere"""
    own = [S.real(f'v{i}', -20, 20) for i in range(4)]
    m = S.choice('min_dp', [0, 1, 5])
    data = frame(S, [1.0, 2.0, 3.0, 4.0], [1.0] * 4, v=own) if kind == 'df' else cube(S, [1.0, 2.0, 3.0, 4.0], [1.0], v=own)
    l = raw(Scal, data, 'v', min_dp=m)
    b = Boundary([20, 30], [0, 10], [T0, T1])
    c, th, lo, hi, lock = conds(S)
    got, e = S.call(l.get_hom_condition, b, c, **(dict(data=l.trim_datapoints(b)) if S.flag('given') else {}))
    S.check(e is None, 'a condition is given for every cell')
    if e is None:
        spec(S, got, [], th, lo, hi, lock, m)
        S.reach('empty')


def default_min(S, kind='df'):
    """the minimum is 5 unless configured"""
    b = Boundary([0, 10], [0, 10], [T0, T1])
    m = S.choice('min_dp', [None, 2, 4, 5, 6])
    n = S.choice('n', [4, 5])
    vals = [S.real(f'v{i}', -20, 20) for i in range(2)] + [0.0, 1.0, 2.0][:n - 2]
    data = frame(S, [1.0, 2.0, 3.0, 4.0, 5.0][:n], [1.0] * n, v=vals) if kind == 'df' else cube(S, [1.0, 2.0, 3.0, 4.0, 5.0][:n], [1.0], v=vals)
    p = {'dataloader_name': 'x', 'data_name': 'SIC'}
    if m is not None:
        p['min_dp'] = m
    l = Scal(b, p, data)
    lock = S.flag('lock')
    got = l.get_hom_condition(b, {'threshold': 0.5, 'lower_bound': 0.3, 'upper_bound': 0.7, 'split_lock': lock})
    spec(S, got, vals, 0.5, F(3, 10) if S.symbolic else 0.3, F(7, 10) if S.symbolic else 0.7, lock, 5 if m is None else m)


def jobs(tier):
    js = []
    R = ['CLR', 'HOM', 'HET']
    for k, n in (('df', 3), ('xr', 4)):
        js.append(job(__name__, 'run', f'{k}-values', cfg=dict(kind=k, n=n, min_dp=(0, n, n + 1)), reach=R + ['few'], wit_every=8))
        js.append(job(__name__, 'run', f'{k}-missing', cfg=dict(kind=k, n=2, nan=True, min_dp=(1, 2, 3)), reach=R + ['few'], wit_every=8))
        js.append(job(__name__, 'run', f'{k}-given', cfg=dict(kind=k, n=2, min_dp=(1, 2, 3), given=True), reach=R + ['few'], wit_every=8))
        js.append(job(__name__, 'run', f'{k}-position', cfg=dict(kind=k, n=2, min_dp=(1, 2), free=True), reach=R + ['few'], wit_every=8))
        js.append(job(__name__, 'run', f'{k}-edges', cfg=dict(kind=k, n=2, min_dp=(1,), exact=[(0.5, 0.75), (0.25, 0.5), (0, 1), (0.5, 0.5), (0.1, 0.9)]), reach=R, wit_every=8))
        js.append(job(__name__, 'history', f'{k}-history', cfg=dict(kind=k), reach=['asked'], wit_every=8))
        js.append(job(__name__, 'many', f'{k}-many', cfg=dict(kind=k), reach=['HET', 'CLR', 'few'], wit_every=16))
        js.append(job(__name__, 'many', f'{k}-more', cfg=dict(kind=k, more=96), reach=['HET', 'CLR', 'few'], wit_every=16))
        js.append(job(__name__, 'nothing', f'{k}-nothing', cfg=dict(kind=k), reach=['empty'], wit_every=4))
        js.append(job(__name__, 'default_min', f'{k}-default', cfg=dict(kind=k), reach=['few', 'HET', 'CLR'], wit_every=8))
    js.append(job(__name__, 'many', 'xr-dates', cfg=dict(kind='dates'), reach=['HET', 'CLR', 'few'], wit_every=16))
    if tier == 'thorough':
        for k, n in (('df', 4), ('xr', 4)):
            js.append(job(__name__, 'run', f'{k}-missing-4', cfg=dict(kind=k, n=4, nan=True, min_dp=(1, 2, 4)), wit_every=32))
            js.append(job(__name__, 'run', f'{k}-position-4', cfg=dict(kind=k, n=4, nan=True, min_dp=(1, 2, 3, 4), free=True, given=True), wit_every=32))
    return js
