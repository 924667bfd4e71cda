"""C16 the value of a cell is the aggregate of the datapoints inside it (scalar sources)"""
from .common import *
from .data import *

PROPERTY = dict(
    bounds='tables of up to four and grids of up to 2 x 2 datapoints inside the cell plus datapoints outside it (one at any real position), every value any real in -100..100 or missing; MIN, MAX, MEAN, MEDIAN, STD, RMSE, COUNT; missing values skipped or propagated; '
           'aggregate type configured or given per call; data given or own; a dozen datapoints in the cell, two (STD: one) of them with any value, also of several dates; 150 datapoints in the cell, one of them with any value',
    outside='COUNT with missing values (the code treats tables and grids differently and no document says which is meant); more than four datapoints with any value per cell', stubs=[DATA_STUB, NP_STUB], budget=dict(quick=600, thorough=900))

T0, T1 = '2020-03-01', '2020-03-31'
AGGS = ('MIN', 'MAX', 'MEAN', 'MEDIAN', 'STD', 'COUNT')


def tot(xs):
    t = 0
    for x in xs:
        t = t + x
    return t


def is_aggregate(S, got, vals, agg, ddof, skipna=True):
    """spec: got is the aggregate of the list vals (entries may be NaN)"""
    if any(isnan(v) for v in vals):
        if not skipna:
            return isnan(got)
        vals = [v for v in vals if not isnan(v)]
    n = len(vals)
    if agg == 'COUNT':
        return S.eq(got, float(n))
    if n == 0:
        return isnan(got)
    if isnan(got):
        return agg == 'STD' and n - ddof <= 0
    if agg == 'MIN':
        return S.And([S.le(got, v) for v in vals] + [S.Or([S.eq(got, v) for v in vals])])
    if agg == 'MAX':
        return S.And([S.le(v, got) for v in vals] + [S.Or([S.eq(got, v) for v in vals])])
    if agg == 'MEAN':
        return S.eq(got * n, tot(vals))
    if agg == 'MEDIAN':
        # got is the middle value, or half way between the two middle values
        out = []
        for i in range(n):
            for j in range(n):
                if n % 2 and i != j or not n % 2 and i == j:
                    continue
                lo, hi = vals[i], vals[j]
                rest = [vals[k] for k in range(n) if k not in (i, j)]
                import itertools
                h = len(rest) // 2
                split = S.Or([S.And([S.le(rest[k], lo) if k in c else S.le(hi, rest[k]) for k in range(len(rest))]) for c in itertools.combinations(range(len(rest)), h)])
                out.append(S.And(S.eq(got * 2, lo + hi), S.le(lo, hi), split))
        return S.Or(out)
    if agg in ('STD', 'RMSE'):
        d = ddof if agg == 'STD' else 0
        if n - d <= 0:
            return isnan(got)
        m = tot(vals) / n
        return S.And(S.le(0, got), S.eq(got * got * (n - d), tot([(v - m) * (v - m) for v in vals])))
    raise AssertionError(agg)


POS = [(5.0, 5.0), (2.0, 9.0), (10.0, 10.0), (1.0, 3.0)]
OUT = [(0.0, 5.0), (5.0, 0.0), (12.0, 5.0), (5.0, -3.0)]


def table(S, agg='MEAN', n=3, nan=True, skipna=True, how='config', crossing=False, free=False, time=False):
    shift = 175 if crossing else 0

    def dom(x):
        x = x + shift
        return x - 360 if x > 180 else x
    b = Boundary([0, 10], [dom(0), dom(10)], [T0, T1])
    vals = [S.val(f'v{i}', nan=nan, lo=-100, hi=100) for i in range(n)]
    lat, lon = [p[0] for p in POS[:n]], [dom(p[1]) for p in POS[:n]]
    inside = list(vals)
    out = [S.real('o0', -1000, 1000)]
    lat, lon, col_ = lat + [OUT[0][0]], lon + [dom(OUT[0][1])], vals + out
    if free:
        py = S.real('py', -20, 20)
        fv = S.real('fv', -100, 100)
        if S.And(py > 0, py <= 10):
            inside.append(fv)
        lat, lon, col_ = [py] + lat, [dom(5.0)] + lon, [fv] + col_
    ts = None
    if time:
        ts = [T0, T1, '2020-03-31', '2020-04-01'][:len(lat)]
        inside = [v for v, t in zip(vals, ts) if t <= T1]
    df = frame(S, lat, lon, ts, SIC=col_)
    l = raw(Scal, df, 'SIC', aggregate_type=agg if how == 'config' else 'MAX' if agg == 'MIN' else 'MIN')
    kw = {} if how == 'config' else dict(agg_type=agg)
    if how == 'given':
        l.data = frame(S, [1.0], [dom(1.0)], [T0] if time else None, SIC=[S.real('zz', 200, 300)])
        kw['data'] = df
    if not skipna:
        kw['skipna'] = False
    got = l.get_value(b, **kw)
    S.check(list(got) == ['SIC'], 'the answer is the value under the data name')
    S.check(isinstance(got['SIC'], float) or S.symbolic and not isinstance(got['SIC'], (int, str)), 'the value is a plain number')
    if S.symbolic is False:
        S.check(type(got['SIC']) is float, 'the value is a plain float')
    S.check(is_aggregate(S, got['SIC'], inside, agg, 1, skipna), f'table: {agg} of exactly the datapoints inside the cell')
    S.check(len(df) == len(lat), 'the data set is not changed')
    S.observe('v', got['SIC'])
    S.reach('nan' if isnan(got['SIC']) else 'val')


def grid(S, agg='MEAN', n=2, nan=True, skipna=True, how='config', time=False):
    lat, lon = ([2.0, 5.0, 12.0], [0.0, 3.0, 9.0]) if n == 2 else ([5.0, 12.0], [3.0])
    b = Boundary([0, 10], [0, 10], [T0, T1])
    ts = [T0, T1, '2020-04-01'] if time else None
    inside, vals = [], []
    for t in (ts or [T0]):
        for y in lat:
            for x in lon:
                if y <= 10 and x > 0 and t <= T1:
                    v = S.val(f'v{len(inside)}', nan=nan, lo=-100, hi=100)
                    inside.append(v)
                else:
                    v = S.real(f'o{len(vals)}', -1000, 1000) if len(vals) < 3 else 777.0
                vals.append(v)
    ds = cube(S, lat, lon, ts, SIC=vals)
    l = raw(Scal, ds, 'SIC', aggregate_type=agg if how == 'config' else 'MAX' if agg == 'MIN' else 'MIN')
    kw = {} if how == 'config' else dict(agg_type=agg)
    if how == 'given':
        l.data = cube(S, [1.0], [1.0], [T0] if time else None, SIC=[500.0])
        kw['data'] = ds
    if not skipna:
        kw['skipna'] = False
    got = l.get_value(b, **kw)
    S.check(list(got) == ['SIC'], 'the answer is the value under the data name')
    if S.symbolic is False:
        S.check(type(got['SIC']) is float, 'the value is a plain float')
    S.check(is_aggregate(S, got['SIC'], inside, agg, 0, skipna), f'grid: {agg} of exactly the datapoints inside the cell')
    S.observe('v', got['SIC'])
    S.reach('nan' if isnan(got['SIC']) else 'val')


def history(S, kind='df', first='MAX'):
    """one loader asked several times: every answer is that of its own question"""
    a, c, d = S.val('a', nan=True, lo=-9, hi=9), S.real('c', -9, 9), S.real('d', -9, 9)
    ts = [T0, T1]
    if kind == 'df':
        own = frame(S, [2.0, 6.0, 8.0], [5.0] * 3, [T0, T0, '2020-04-02'], SIC=[a, c, d])
        sub = frame(S, [2.0, 6.0], [5.0] * 2, [T0, T0], SIC=[d, c])
        dd = 1
    else:
        own = cube(S, [2.0, 6.0], [5.0], [T0, '2020-04-02'], SIC=[a, c, d, d])
        sub = cube(S, [2.0, 6.0], [5.0], [T0], SIC=[d, c])
        dd = 0
    l = raw(Scal, own, 'SIC', aggregate_type=first)
    B = lambda y1, t0=T0, t1=T1: Boundary([0, y1], [0, 10], [t0, t1])
    second = S.choice('second', [x for x in ('MIN', 'MEAN', 'MAX') if x != first])
    late = [d] if kind == 'df' else [d, d]
    asked = [(B(10), {}, [a, c], first, True), (B(10), dict(agg_type=second), [a, c], second, True), (B(10), {}, [a, c], first, True),
             (B(4), {}, [a], first, True), (B(10), dict(skipna=False), [a, c], first, False), (B(10), {}, [a, c], first, True),
             (B(10, '2020-04-01', '2020-04-30'), {}, late, first, True), (B(10), dict(data=sub), [d, c], first, True),
             (B(10), dict(agg_type='COUNT', data=sub), [d, c], 'COUNT', True), (B(10), {}, [a, c], first, True)]
    for b, kw, vals, agg, skip in asked:
        got = l.get_value(b, **kw)
        S.check(is_aggregate(S, got['SIC'], vals, agg, dd, skip), 'every answer is the aggregate asked for of the datapoints inside the cell asked for')
        got['SIC'] = 1e6                # the answer is the caller's
    S.reach('asked')


def many(S, kind='df', agg='MEAN'):
    """a dozen datapoints in the cell, two of them with any value"""
    b = Boundary([0, 10], [0, 10], [T0, T1])
    a, c = S.real('a', -20, 20), S.real('c', -20, 20) if agg not in ('STD', 'RMSE') else -2.5
    vals = [4.0, 1.0, a, 2.0, -3.0, c, 1.5, 0.0, 7.0, 5.0, -6.0, 3.0]
    if agg in ('COUNT', 'MEDIAN'):
        n = S.choice('n', [9, 12] if kind == 'df' else [12])
    else:
        n = 12
        vals[6] = S.choice('v6', [1.5, float('nan')])
    vals = vals[:n]
    if kind == 'df':
        data = frame(S, [1.0 + i / 2 for i in range(n)], [1.0] * n, SIC=vals)
    elif kind == 'xr':
        data = cube(S, [1.0, 2.0, 3.0], [1.0, 2.0, 3.0, 4.0], SIC=vals)
    else:
        data = cube(S, [1.0, 2.0, 3.0], [1.0, 2.0], [T0, T1], SIC=vals)
    l = raw(Scal, data, 'SIC', aggregate_type=agg)
    got = l.get_value(b)['SIC']
    if agg == 'MEDIAN':
        o = sorted(vals)
        S.check(S.eq(got * 2, o[(n - 1) // 2] + o[n // 2]), 'MEDIAN of exactly the datapoints inside the cell')
    else:
        S.check(is_aggregate(S, got, vals, agg, 1 if kind == 'df' else 0), f'{agg} of exactly the datapoints inside the cell')


def large(S, kind='df', agg='MEAN'):
    """150 datapoints in the cell, one of them with any value"""
    n = 150
    a = S.real('a', -20, 20)
    base = S.choice('base', [[1.0, 4.0, 4.0], [4.0, -3.0, 1.0, 7.0, 2.0, -6.0, 0.0], [-5.0, 5.0]])
    vals = [base[i % len(base)] for i in range(n)]
    if len(base) == 2:
        vals[40], vals[81], vals[82] = 1.0, 1.5, 2.5        # the middle
    at = S.choice('at', [0, 77, n - 1] + [None] * (agg not in ('STD', 'RMSE')))
    if at is None:
        at, a = 0, vals[0]
    vals[at] = a
    if kind == 'df':
        data = frame(S, [1.0 + (i % 15) / 2 for i in range(n)], [1.0 + (i // 15) / 2 for i in range(n)], SIC=vals)
    else:
        data = cube(S, [1.0 + i / 2 for i in range(15)], [1.0 + i / 2 for i in range(10)], SIC=vals)
    l = raw(Scal, data, 'SIC', aggregate_type=agg)
    got = l.get_value(Boundary([0, 10], [0, 10], [T0, T1]))['SIC']
    rest = sorted(vals[:at] + vals[at + 1:])
    lo, hi, mid = rest[n // 2 - 2], rest[n // 2], rest[n // 2 - 1]
    if agg == 'MEDIAN':
        two = [S.Implies(a <= lo, S.eq(got * 2, mid + lo)), S.Implies(a >= hi, S.eq(got * 2, mid + hi)), S.Implies(S.And(a >= lo, a <= hi), S.eq(got * 2, mid + a))]
        S.check(S.And(two), 'MEDIAN of exactly the datapoints inside the cell')
    else:
        S.check(is_aggregate(S, got, vals, agg, 1 if kind == 'df' else 0), f'{agg} of exactly the datapoints inside the cell')


def empty(S, kind='df'):
    """no datapoint inside: no value; unknown types are refused"""
    py = S.real('py', -20, 20)
    agg = S.choice('agg', AGGS + ('MODE', 'mean!', ''))
    b = Boundary([0, 10], [0, 10], [T0, T1])
    if kind == 'df':
        data = frame(S, [py], [5.0], SIC=[S.real('v', -5, 5)])
        n = 1 if S.And(py > 0, py <= 10) else 0
    else:
        inside = S.flag('inside')
        data = cube(S, [5.0 if inside else 15.0], [5.0], SIC=[S.real('v', -5, 5)])
        n = int(inside)
    l = raw(Scal, data, 'SIC')
    got, e = S.call(l.get_value, b, agg_type=agg)
    if agg not in AGGS:
        if n:
            S.check(isinstance(e, ValueError), 'an unknown aggregate type is refused')
        S.reach('unknown')
        return
    S.check(e is None, 'every documented aggregate type is accepted')
    if e is None and n == 0:
        v = got['SIC']
        S.check(S.eq(v, 0.0) if agg == 'COUNT' else isnan(v), 'without datapoints there is no value (count 0)')
        S.reach('empty')


def defaults(S, kind='df'):
    """a loader constructed without aggregate_type uses the mean; a configured one is used"""
    agg = S.choice('agg', [None, 'MIN', 'MAX', 'MEAN'])
    b = Boundary([0, 10], [0, 10], [T0, T1])
    a, c = S.real('a', -5, 5), S.real('c', -5, 5)
    data = frame(S, [5.0, 6.0, 7.0], [5.0, 6.0, 7.0], x=[a, c, 0.5]) if kind == 'df' else cube(S, [5.0, 6.0, 7.0], [5.0], x=[a, c, 0.5])
    p = {'dataloader_name': 'x'}
    if agg:
        p['aggregate_type'] = agg
    name = S.choice('name', [None, 'SIC'])
    if name:
        p['data_name'] = name
    l = Scal(b, p, data)
    got = l.get_value(b)
    S.check(list(got) == [name or 'x'], 'the value is reported under the configured name, else the column name')
    S.check(is_aggregate(S, list(got.values())[0], [a, c, 0.5], agg or 'MEAN', 1), 'the configured aggregate type is used, by default the mean')


def jobs(tier):
    js = []
    for a in AGGS:
        nl = a in ('STD',)
        js.append(job(__name__, 'table', f'table-{a}', cfg=dict(agg=a, n=3, nan=a != 'COUNT'), reach=['val'], wit_every=4))
        js.append(job(__name__, 'table', f'table-{a}-call', cfg=dict(agg=a, n=2, nan=a != 'COUNT', how='call', free=True), reach=['val'], wit_every=4))
        js.append(job(__name__, 'grid', f'grid-{a}', cfg=dict(agg=a, nan=a != 'COUNT'), reach=['val'], wit_every=6))
        js.append(job(__name__, 'grid', f'grid-{a}-given', cfg=dict(agg=a, n=1, nan=a != 'COUNT', how='given', time=True), reach=['val'], wit_every=2))
        if a != 'COUNT':
            js.append(job(__name__, 'table', f'table-{a}-keepnan', cfg=dict(agg=a, n=2, skipna=False), reach=['val', 'nan'], wit_every=4))
            js.append(job(__name__, 'grid', f'grid-{a}-keepnan', cfg=dict(agg=a, skipna=False), reach=['val', 'nan'], wit_every=6))
        js.append(job(__name__, 'many', f'table-{a}-many', cfg=dict(agg=a), wit_every=8))
        js.append(job(__name__, 'many', f'grid-{a}-many', cfg=dict(kind='xr' if a in ('MIN', 'MEAN', 'STD') else 'dates', agg=a), wit_every=8))
    for a in AGGS:
        js += [job(__name__, 'large', f'{k}-{a}-large', cfg=dict(kind=k, agg=a), wit_every=4) for k in ('df', 'xr')]
    js.append(job(__name__, 'grid', 'grid-RMSE', cfg=dict(agg='RMSE'), reach=['val'], wit_every=4))
    js.append(job(__name__, 'grid', 'grid-RMSE-keepnan', cfg=dict(agg='RMSE', n=1, time=True, skipna=False), reach=['val'], wit_every=4))
    js.append(job(__name__, 'table', 'table-given', cfg=dict(agg='MEAN', how='given', time=True), reach=['val'], wit_every=4))
    js.append(job(__name__, 'table', 'table-crossing', cfg=dict(agg='MEAN', crossing=True), reach=['val'], wit_every=4))
    for k in ('df', 'xr'):
        js.append(job(__name__, 'empty', f'empty-{k}', cfg=dict(kind=k), reach=['unknown', 'empty']))
        js.append(job(__name__, 'defaults', f'defaults-{k}', cfg=dict(kind=k)))
        js.append(job(__name__, 'history', f'history-{k}', cfg=dict(kind=k, first='MAX' if k == 'df' else 'MIN'), reach=['asked'], wit_every=4))
    if tier == 'thorough':
        for a in AGGS:
            js.append(job(__name__, 'table', f'table-{a}-4', cfg=dict(agg=a, n=4, nan=a != 'COUNT'), wit_every=16))
            js.append(job(__name__, 'grid', f'grid-{a}-time', cfg=dict(agg=a, n=2, nan=False, time=True), wit_every=64) if a not in ('MEDIAN', 'STD') else
                      job(__name__, 'grid', f'grid-{a}-time', cfg=dict(agg=a, n=1, time=True), wit_every=4))
    return js
